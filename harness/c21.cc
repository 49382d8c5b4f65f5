// C21: overflow-tracking arithmetic, integer comparison and conversion against exact 128-bit arithmetic.
#include "vh.h"
#include "best/math/int.h"
#include "best/math/overflow.h"
#include "best/container/option.h"
#ifdef PART_A
#define PARTNS pa
#elif defined PART_B
#define PARTNS pb
#elif defined PART_C
#define PARTNS pc
#else
#define PARTNS pd
#endif
namespace PARTNS {
using namespace vh;
using best::overflow;
template <class I> constexpr bool sgn = std::is_signed_v<I>;
template <class I> std::string in() { return vh::fmt("%s%zu", sgn<I> ? "i" : "u", sizeof(I) * 8); }
template <class I> constexpr i128 lo() { return sgn<I> ? -((i128)1 << (sizeof(I) * 8 - 1)) : 0; }
template <class I> constexpr i128 hi() { return sgn<I> ? ((i128)1 << (sizeof(I) * 8 - 1)) - 1 : ((i128)1 << (sizeof(I) * 8)) - 1; }
// The common type, by the documented rule: the widest, unsigned if any is.
template <int N, bool U> struct sized; 
template <bool U> struct sized<1, U> { using t = std::conditional_t<U, u8, i8>; }; template <bool U> struct sized<2, U> { using t = std::conditional_t<U, u16, i16>; };
template <bool U> struct sized<4, U> { using t = std::conditional_t<U, u32, i32>; }; template <bool U> struct sized<8, U> { using t = std::conditional_t<U, u64, i64>; };
template <class A, class B> using com = typename sized<(sizeof(A) > sizeof(B) ? sizeof(A) : sizeof(B)), !sgn<A> || !sgn<B>>::t;
// An exact integer: sign and magnitude.
struct Z { bool neg; u128 m; };
static Z z(i128 v) { return v < 0 ? Z{true, (u128)0 - (u128)v} : Z{false, (u128)v}; }
template <class I> bool fits(Z v) { return v.neg && v.m ? v.m <= (u128)-lo<I>() : v.m <= (u128)hi<I>(); }
template <class I> i128 wrap(Z v) { u128 w = v.neg ? (u128)0 - v.m : v.m; w &= ((u128)1 << (sizeof(I) * 8)) - 1; return sgn<I> && (w >> (sizeof(I) * 8 - 1)) ? (i128)w - ((i128)1 << (sizeof(I) * 8)) : (i128)w; }
static Z add(Z a, Z b) { if (a.neg == b.neg) return {a.neg, a.m + b.m}; return a.m >= b.m ? Z{a.neg, a.m - b.m} : Z{b.neg, b.m - a.m}; }
static Z negz(Z a) { return {!a.neg, a.m}; }
static Z mul(Z a, Z b) { return {a.neg != b.neg, a.m * b.m}; }

template <class A> std::string sh(A v, bool f) { return vh::fmt("%s(%lld%s)", in<A>().c_str(), (long long)v, f ? ", overflowed" : ""); }
template <class I, class A, class B> void same(Ctx& c, const char* op, auto got, i128 v, bool f, A a, bool fa, B b, bool fb) {
  using G = decltype(got.value);
  static_assert(best::is_int<G>);
  VH_CHECK(sizeof(G) == sizeof(I) && sgn<G> == sgn<I>, "type", "%s %s %s has type %s, must be %s", in<A>().c_str(), op, in<B>().c_str(), in<G>().c_str(), in<I>().c_str());
  VH_CHECK((i128)got.value == v && (i128)got.wrap() == v, op, "%s %s %s = %lld, must be %lld", sh(a, fa).c_str(), op, sh(b, fb).c_str(), (long long)got.value, (long long)v);
  VH_CHECK(got.overflowed == f, op, "%s %s %s overflowed=%d, must be %d", sh(a, fa).c_str(), op, sh(b, fb).c_str(), got.overflowed, f);
  auto k = got.checked();
  VH_CHECK(k.has_value() == !f && (f || (i128)*k == v), op, "%s %s %s checked() disagrees", sh(a, fa).c_str(), op, sh(b, fb).c_str());
  if (!f) VH_CHECK((i128)got.strict() == v, op, "strict() disagrees for %s %s %s", sh(a, fa).c_str(), op, sh(b, fb).c_str());
  c.event(f ? "overflows" : "exact");
}
#define OPS(X) X(+, "+", 0) X(-, "-", 1) X(*, "*", 2) X(&, "&", 3) X(|, "|", 4) X(^, "^", 5)
template <class A, class B> void shifts(Ctx& c, A a, bool fa, B b, bool fb) {
  constexpr int N = sizeof(A) * 8; bool out = (i128)b < 0 || (i128)b >= N; int s = (int)((u64)(i64)b & (N - 1));
  same<A>(c, "<<", overflow<A>(a, fa) << overflow<B>(b, fb), wrap<A>(mul(z(a), Z{false, (u128)1 << s})), fa || fb || out, a, fa, b, fb);
  same<A>(c, ">>", overflow<A>(a, fa) >> overflow<B>(b, fb), (i128)a >> s, fa || fb || out, a, fa, b, fb);
  same<A>(c, "<<", overflow<A>(a, fa) << b, wrap<A>(mul(z(a), Z{false, (u128)1 << s})), fa || out, a, fa, b, false);
  same<A>(c, ">>", overflow<A>(a, fa) >> b, (i128)a >> s, fa || out, a, fa, b, false);
  { overflow<A> x(a, fa); x <<= b; same<A>(c, "<<=", x, wrap<A>(mul(z(a), Z{false, (u128)1 << s})), fa || out, a, fa, b, false); }
  { overflow<A> x(a, fa); x >>= overflow<B>(b, fb); same<A>(c, ">>=", x, (i128)a >> s, fa || fb || out, a, fa, b, fb); }
  c.event(out ? "oversize_shifts" : "shifts");
}
template <class A, class B> void binary(Ctx& c, A a, bool fa, B b, bool fb) {
  using C = com<A, B>;
  Z za = z(wrap<C>(z(a))), zb = z(wrap<C>(z(b)));
  u128 M = ((u128)1 << (sizeof(C) * 8)) - 1, ua = (za.neg ? (u128)0 - za.m : za.m) & M, ub = (zb.neg ? (u128)0 - zb.m : zb.m) & M;
  const Z want[6] = {add(za, zb), add(za, negz(zb)), mul(za, zb), {false, ua & ub}, {false, ua | ub}, {false, ua ^ ub}};
#define X(op, name, k) { \
    Z w = want[k]; bool over = k < 3 && !fits<C>(w); i128 wv = wrap<C>(w); \
    same<C>(c, name, overflow<A>(a, fa) op overflow<B>(b, fb), wv, fa || fb || over, a, fa, b, fb); \
    same<C>(c, name, overflow<A>(a, fa) op b, wv, fa || over, a, fa, b, false); \
    same<C>(c, name, a op overflow<B>(b, fb), wv, fb || over, a, false, b, fb); \
    { overflow<A> x(a, fa); auto& r = (x op##= b); VH_CHECK(&r == &x, name, "compound assignment does not return its operand"); same<A>(c, name "=", x, wrap<A>(z(wv)), fa || over || !fits<A>(z(wv)), a, fa, b, false); } \
    { overflow<A> x(a, fa); x op##= overflow<B>(b, fb); same<A>(c, name "=", x, wrap<A>(z(wv)), fa || fb || over || !fits<A>(z(wv)), a, fa, b, fb); } \
  }
  OPS(X)
#undef X
  if (zb.m != 0) {
    bool mm = sgn<C> && zb.neg && zb.m == 1 && wrap<C>(za) == lo<C>();
    Z q{za.neg != zb.neg, za.m / zb.m}, r{za.neg, za.m % zb.m};
    i128 qv = wrap<C>(q), rv = mm ? lo<C>() : wrap<C>(r);  // the remainder of the one overflowing division is pinned by the repository's tests
    bool f = fa || fb || mm;
    if constexpr (std::is_same_v<A, B>) {  // the operators do not compile for operands of different types; best::div() does
    same<C>(c, "/", overflow<A>(a, fa) / overflow<B>(b, fb), qv, f, a, fa, b, fb);
    same<C>(c, "%", overflow<A>(a, fa) % overflow<B>(b, fb), rv, f, a, fa, b, fb);
    same<C>(c, "/", overflow<A>(a, fa) / b, qv, fa || mm, a, fa, b, false);
    same<C>(c, "%", overflow<A>(a, fa) % b, rv, fa || mm, a, fa, b, false);
    same<C>(c, "/", a / overflow<B>(b, fb), qv, fb || mm, a, false, b, fb);
    { overflow<A> x(a, fa); x /= b; same<A>(c, "/=", x, wrap<A>(z(qv)), fa || mm || !fits<A>(z(qv)), a, fa, b, false); }
    { overflow<A> x(a, fa); x %= overflow<B>(b, fb); same<A>(c, "%=", x, wrap<A>(z(rv)), f || !fits<A>(z(rv)), a, fa, b, fb); }
    }
    { auto [dq, dr] = best::div(a, b); same<C>(c, "div", dq, qv, mm, a, false, b, false); same<C>(c, "rem", dr, rv, mm, a, false, b, false); }
    { auto [dq, dr] = best::div(overflow<A>(a, fa), overflow<B>(b, fb)); same<C>(c, "div", dq, qv, f, a, fa, b, fb); same<C>(c, "rem", dr, rv, f, a, fa, b, fb); }
    if constexpr (sgn<A> == sgn<B>) {
      Z up = q; if (!mm && r.m && za.neg == zb.neg) up = add(q, Z{false, 1});
      same<C>(c, "ceildiv", best::ceildiv(a, b), wrap<C>(up), mm, a, false, b, false);
      same<C>(c, "ceildiv", best::ceildiv(overflow<A>(a, fa), overflow<B>(b, fb)), wrap<C>(up), f, a, fa, b, fb);
      c.event("ceildivs");
    }
    if (mm) c.event("minimum_by_minus_one");
    c.event("divisions");
  }
  if constexpr (sgn<A> == sgn<B>) {
    const Z w[3] = {add(za, zb), add(za, negz(zb)), mul(za, zb)};
    const i128 got[3] = {(i128)best::saturating_add(a, b), (i128)best::saturating_sub(a, b), (i128)best::saturating_mul(a, b)};
    const char* nm[3] = {"saturating_add", "saturating_sub", "saturating_mul"};
    for (int k = 0; k < 3; k++) {
      i128 x = fits<C>(w[k]) ? wrap<C>(w[k]) : w[k].neg ? lo<C>() : hi<C>();
      VH_CHECK(got[k] == x, nm[k], "%s(%s, %s) = %lld, must be %lld", nm[k], sh(a, false).c_str(), sh(b, false).c_str(), (long long)got[k], (long long)x);
      if (!fits<C>(w[k])) c.event("saturated");
    }
    i128 mn = (i128)a < (i128)b ? (i128)a : (i128)b, mx = (i128)a < (i128)b ? (i128)b : (i128)a;
    VH_CHECK((i128)best::min(a, b) == mn && (i128)best::max(a, b) == mx, "minmax", "min/max(%s, %s)", sh(a, false).c_str(), sh(b, false).c_str());
    VH_CHECK((i128)best::min(a, b, a) == mn && (i128)best::max(b, b, a) == mx && (i128)best::min(b) == (i128)b, "minmax", "min/max of three with %s, %s", sh(a, false).c_str(), sh(b, false).c_str());
    c.event("min_max");
  }
  auto ord = [](i128 x, i128 y) { return x < y ? -1 : x > y; };
  auto dir = [](std::strong_ordering o) { return o < 0 ? -1 : o > 0; };
  VH_CHECK(dir(best::int_cmp(a, b)) == ord(a, b), "int_cmp", "int_cmp(%s, %s)", sh(a, false).c_str(), sh(b, false).c_str());
  VH_CHECK(dir(best::signed_cmp(a, b)) == ord(best::to_signed(a), best::to_signed(b)), "signed_cmp", "signed_cmp(%s, %s)", sh(a, false).c_str(), sh(b, false).c_str());
  VH_CHECK(dir(best::unsigned_cmp(a, b)) == ord(best::to_unsigned(a), best::to_unsigned(b)), "unsigned_cmp", "unsigned_cmp(%s, %s)", sh(a, false).c_str(), sh(b, false).c_str());
  VH_CHECK(best::int_fits<B>(a) == fits<B>(z(a)), "int_fits", "int_fits<%s>(%s)", in<B>().c_str(), sh(a, false).c_str());
  auto cc = best::checked_cast<B>(a);
  VH_CHECK(cc.has_value() == fits<B>(z(a)) && (!cc || (i128)*cc == (i128)a), "checked_cast", "checked_cast<%s>(%s)", in<B>().c_str(), sh(a, false).c_str());
  same<B>(c, "conversion", overflow<B>(overflow<A>(a, fa)), wrap<B>(z(a)), fa || !fits<B>(z(a)), a, fa, b, false);
  if constexpr (sizeof(A) == sizeof(B) && sgn<A> == sgn<B>) {
    const overflow<A> ca(a, fa); overflow<B> cb(b, fb);
    VH_CHECK((ca == cb) == (a == (A)b && fa == fb) && (ca == b) == (a == (A)b && !fa) && (ca != cb) == !(a == (A)b && fa == fb), "equality", "%s == %s", sh(a, fa).c_str(), sh(b, fb).c_str());
    c.event("equalities");
  }
  c.event("pairs");
}
template <class A> void unary(Ctx& c, A a, bool fa) {
  same<A>(c, "unary -", -overflow<A>(a, fa), wrap<A>(negz(z(a))), fa || !fits<A>(negz(z(a))), a, fa, a, fa);
  same<A>(c, "unary +", +overflow<A>(a, fa), a, fa, a, fa, a, fa);
  u128 M = ((u128)1 << (sizeof(A) * 8)) - 1;
  same<A>(c, "~", ~overflow<A>(a, fa), wrap<A>(Z{false, ~(u128)(i128)a & M}), fa, a, fa, a, fa);
  VH_CHECK((i128)best::to_unsigned(a) == (i128)((u128)(i128)a & M), "to_unsigned", "%s", sh(a, false).c_str());
  VH_CHECK((i128)best::to_signed(a) == wrap<std::make_signed_t<A>>(z(a)), "to_signed", "%s", sh(a, false).c_str());
  overflow<A> zero; VH_CHECK(zero.value == 0 && !zero.overflowed, "default", "a default overflow<%s> is not zero", in<A>().c_str());
  c.event("unaries");
}
template <class A> struct Pool { A v[24]; int n = 0; };
template <class A, class B> void rnd(Ctx& c, int n) {
  for (int i = 0; i < n; i++) {
    A a = c.rng.edge<A>(); B b = c.rng.edge<B>(); if (c.rng.chance(1, 10)) b = (B)a;
    bool fa = c.rng.chance(1, 8), fb = c.rng.chance(1, 8);
    c.state(hcomb(hcomb((u64)a, (u64)b), sizeof(A) * 64 + sizeof(B) * 4 + sgn<A> * 2 + sgn<B>)); c.eval();
    binary(c, a, fa, b, fb); shifts(c, a, fa, b, fb); shifts(c, a, fa, (B)c.rng.range(0, sizeof(A) * 8), fb); unary(c, a, fa);
  }
}
template <class A, class... B> void row(Ctx& c, int n) { (rnd<A, B>(c, n), ...); }
#define ALL i8, u8, i16, u16, i32, u32, i64, u64, long long, unsigned long long, char
#ifdef PART_A
VH_WORKLOAD(pairs_a, 60, 1500) { row<i8, ALL>(c, 60); row<u8, ALL>(c, 60); row<char, ALL>(c, 60); }
#elif defined PART_B
VH_WORKLOAD(pairs_b, 60, 1500) { row<i16, ALL>(c, 60); row<u16, ALL>(c, 60); row<long long, ALL>(c, 60); }
#elif defined PART_C
VH_WORKLOAD(pairs_c, 60, 1500) { row<i32, ALL>(c, 60); row<u32, ALL>(c, 60); row<unsigned long long, ALL>(c, 60); }
#else
VH_WORKLOAD(pairs_d, 60, 1500) { row<i64, ALL>(c, 60); row<u64, ALL>(c, 60); }
template <class A, class B> void full(Ctx& c, int a) { for (int b = 0; b < 256; b++) { binary(c, (A)a, false, (B)b, false); shifts(c, (A)a, false, (B)b, false); c.eval(); c.event("all_8_bit_pairs"); } unary(c, (A)a, false); }
VH_WORKLOAD(bytes, 256, 256) { full<i8, i8>(c, c.idx); full<u8, u8>(c, c.idx); full<i8, u8>(c, c.idx); full<u8, i8>(c, c.idx); c.state(c.idx); }
// Chains of operations: the flag is sticky and the value is the wrapped one.
template <class A> void chain(Ctx& c) {
  overflow<A> x = c.rng.edge<A>(); i128 v = x.value; bool f = false; std::string h = sh(x.value, false);
  for (int k = 0; k < 20; k++) {
    A b = c.rng.chance(1, 3) ? c.rng.edge<A>() : (A)c.rng.range(0, 5); Z w; int op = c.rng.below(8); u64 s = c.rng.below(sizeof(A) * 8 + 2);
    switch (op) {
      case 0: x += b; w = add(z(v), z(b)); break; case 1: x -= b; w = add(z(v), negz(z(b))); break; case 2: x *= b; w = mul(z(v), z(b)); break;
      case 3: x = -x; w = negz(z(v)); break; case 4: x = ~x; w = add(negz(z(v)), Z{true, 1}); w = z(wrap<A>(w)); break;
      case 5: x <<= s; w = z(wrap<A>(mul(z(v), Z{false, (u128)1 << (s % (sizeof(A) * 8))}))); f |= s >= sizeof(A) * 8; break;
      case 6: x >>= s; w = z(v >> (s % (sizeof(A) * 8))); f |= s >= sizeof(A) * 8; break;
      default: if (b == 0 || (b == (A)-1 && sgn<A>)) b = 2; x /= b; w = z(v / (i128)b); break;
    }
    f |= !fits<A>(w); v = wrap<A>(w); h += vh::fmt(" op%d %lld", op, (long long)b);
    VH_CHECK((i128)x.value == v && x.overflowed == f, "chain", "%s: got %lld/%d, must be %lld/%d", h.c_str(), (long long)x.value, x.overflowed, (long long)v, f);
    c.event("chain_steps");
  }
  c.state(hstr(h)); c.eval();
}
VH_WORKLOAD(chains, 2000, 60000) { chain<i8>(c); chain<u8>(c); chain<i16>(c); chain<u16>(c); chain<i32>(c); chain<u32>(c); chain<i64>(c); chain<u64>(c); }
template <class A> void dies(Ctx& c) {
  A a = c.rng.edge<A>();
  VH_MUST_CRASH("div0", vh::fmt("%s / 0", sh(a, false).c_str()), { volatile auto r = (overflow<A>(a) / A(0)).value; (void)r; });
  VH_MUST_CRASH("div0", vh::fmt("%s %% 0", sh(a, false).c_str()), { volatile auto r = (overflow<A>(a) % overflow<A>(0)).value; (void)r; });
  VH_MUST_CRASH("div0", vh::fmt("ceildiv(%s, 0)", sh(a, false).c_str()), { volatile auto r = best::ceildiv(a, A(0)).value; (void)r; });
  VH_MUST_CRASH("strict", vh::fmt("strict(%s)", sh(a, true).c_str()), { volatile auto r = overflow<A>(a, true).strict(); (void)r; });
  c.event("crashes", 4); c.eval();
}
VH_WORKLOAD(deaths, 10, 200) { dies<i8>(c); dies<u16>(c); dies<i32>(c); dies<u32>(c); dies<i64>(c); dies<u64>(c); }
template <class I> void consts(Ctx& c) {
  VH_CHECK((i128)best::max_of<I> == hi<I>() && (i128)best::min_of<I> == lo<I>() && best::bits_of<I> == sizeof(I) * 8, "limits", "limits of %s", in<I>().c_str());
  VH_CHECK(best::is_signed<I> == sgn<I> && best::is_unsigned<I> == !sgn<I> && best::is_int<const I> && best::is_byte<I> == (sizeof(I) == 1), "concepts", "concepts of %s", in<I>().c_str());
}
template <u64 n, size_t want> void small(Ctx& c) { VH_CHECK(sizeof(best::smallest_uint_t<n>) == want && !sgn<best::smallest_uint_t<n>>, "smallest", "smallest_uint_t<%llu> has %zu bytes", (unsigned long long)n, sizeof(best::smallest_uint_t<n>)); }
VH_WORKLOAD(constants, 1, 1) {
  auto f = [&]<class... I>(I...) { (consts<I>(c), ...); c.event("constants", sizeof...(I)); c.eval(sizeof...(I)); };
  f(i8(0), u8(0), i16(0), u16(0), i32(0), u32(0), i64(0), u64(0), 0ll, 0ull, char(0));
  small<0, 1>(c); small<1, 1>(c); small<127, 1>(c); small<128, 1>(c); small<255, 1>(c); small<256, 2>(c); small<65535, 2>(c); small<65536, 4>(c); small<0xffffffff, 4>(c); small<0x100000000, 8>(c); small<~0ull, 8>(c); small<1ull << 63, 8>(c);
  static_assert(!best::is_int<bool> && !best::is_int<float> && !best::is_int<char16_t> && !best::is_int<char32_t> && !best::is_int<wchar_t> && !best::is_int<int*>);
  c.state(1); c.state(2);
}
#endif
}  // namespace PARTNS
