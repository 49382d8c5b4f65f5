// C05: comparisons. Oracle: explicit lexicographic definitions over std containers; every relational operator in both
// directions is compared with the expected three-way result.
#include "vh.h"
#include "best/memory/span.h"
#include "best/container/vec.h"
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/choice.h"
#include "best/container/row.h"
#include "best/base/ord.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include "best/text/utf8.h"
#include <compare>
#include <optional>
#include <vector>
#include <tuple>
using namespace vh;
using PO = std::partial_ordering;

namespace {
std::string pos(PO p) { return p == 0 ? "equal" : p < 0 ? "less" : p > 0 ? "greater" : "unordered"; }
PO flip(PO p) { return p < 0 ? PO::greater : p > 0 ? PO::less : p; }
template <class A, class B> void eqs(Ctx& c, const char* key, const A& a, const B& b, bool e, const std::string& w) {
  c.eval(4);
  VH_CHECK((a == b) == e, key, "a == b should be %d: %s", e, w.c_str()); VH_CHECK((b == a) == e, key, "b == a should be %d: %s", e, w.c_str());
  VH_CHECK((a != b) == !e, key, "a != b should be %d: %s", !e, w.c_str()); VH_CHECK((b != a) == !e, key, "b != a should be %d: %s", !e, w.c_str());
}
template <class A, class B> void rel(Ctx& c, const char* key, const A& a, const B& b, PO want, const std::string& w) {
  eqs(c, key, a, b, want == 0, w); c.eval(10);
  PO g = a <=> b, h = b <=> a;
  VH_CHECK(g == want, key, "a <=> b is %s, expected %s: %s", pos(g).c_str(), pos(want).c_str(), w.c_str());
  VH_CHECK(h == flip(want), key, "b <=> a is %s, expected %s: %s", pos(h).c_str(), pos(flip(want)).c_str(), w.c_str());
  bool lt = want < 0, le = want <= 0, gt = want > 0, ge = want >= 0;
  VH_CHECK((a < b) == lt && (a <= b) == le && (a > b) == gt && (a >= b) == ge, key, "relational operators disagree with %s: %s", pos(want).c_str(), w.c_str());
  VH_CHECK((b > a) == lt && (b >= a) == le && (b < a) == gt && (b <= a) == ge, key, "swapped relational operators disagree with %s: %s", pos(want).c_str(), w.c_str());
  c.event(want == 0 ? "cmp_equal" : want < 0 ? "cmp_less" : want > 0 ? "cmp_greater" : "cmp_unordered");
}
struct Rev { u8 v; bool operator==(const Rev&) const = default; auto operator<=>(const Rev& o) const { return o.v <=> v; } };           // byte-equality, reversed order
struct Pair { i16 a; u16 b; bool operator==(const Pair&) const = default; auto operator<=>(const Pair&) const = default; };             // padding-free, signed parts
struct Mod { int v; bool operator==(const Mod& o) const { return v % 10 == o.v % 10; } std::strong_ordering operator<=>(const Mod& o) const { return v % 10 <=> o.v % 10; } };
enum class En : i8 { A = -2, B = -1, C = 0, D = 1 };

template <class T> T mk(Rng& r, unsigned alpha = 12) {
  u64 k = r.below(alpha);
  if constexpr (std::is_same_v<T, bool>) return k & 1;
  else if constexpr (std::is_floating_point_v<T>) { static const T v[] = {0.0, -0.0, 1.0, -1.0, 256.0, -256.5, (T)NAN, (T)INFINITY, (T)-INFINITY}; return v[k % 9]; }
  else if constexpr (std::is_same_v<T, Rev>) return Rev{(u8)(k * 23)};
  else if constexpr (std::is_same_v<T, Pair>) { static const i16 v[] = {0, 1, -1, 256, -256}; return Pair{v[k % 5], (u16)v[r.below(3)]}; }
  else if constexpr (std::is_same_v<T, Mod>) return Mod{(int)r.below(40)};
  else if constexpr (std::is_same_v<T, En>) { static const En v[] = {En::A, En::B, En::C, En::D}; return v[k % 4]; }
  else if constexpr (std::is_pointer_v<T>) { static int arr[300]; return arr + (k * 25); }
  else { static const u64 v[] = {0, 1, 2, 0x80, 0x7f, 0xff, 0x100, 0x0201, 0x8000, 0x7fff, 0x1000000, 0x80000000ull, ~0ull, ~1ull, 0x8000000000000000ull, 0x0100000000000000ull}; return (T)v[(k + r.below(5)) % 16]; }
}
template <class T, class U> bool me(const T& a, const U& b) { return a == b; }
template <class T, class U> PO mo(const T& a, const U& b) { if constexpr (std::is_same_v<T, char> && std::is_same_v<U, char>) return (u8)a <=> (u8)b; /* strings order by bytes */ else return a <=> b; }
template <class T, class U> PO lex(const std::vector<T>& a, const std::vector<U>& b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) { PO p = mo(a[i], b[i]); if (p != 0) return p; } return a.size() <=> b.size(); }
template <class T, class U> bool lexeq(const std::vector<T>& a, const std::vector<U>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!me(a[i], b[i])) return false; return true; }
template <class T> std::string dump(const std::vector<T>& v) { std::string s = "["; for (const auto& x : v) { auto b = (const u8*)&x; for (size_t k = 0; k < sizeof(T); k++) s += fmt("%02x", b[k]); s += " "; } return s + "]"; }
std::string dump(const std::vector<bool>& v) { std::string s; for (bool b : v) s += b ? '1' : '0'; return s; }
u64 hv(const std::vector<bool>& v) { return hstr(dump(v)); }
template <class T> u64 hv(const std::vector<T>& v) { return hbytes(v.data(), v.size() * sizeof(T), v.size()); }
template <class T> struct Arr { size_t n; T* p; explicit Arr(const std::vector<T>& v) : n(v.size()), p((T*)malloc(n * sizeof(T) + !n)) { for (size_t i = 0; i < n; i++) new (p + i) T(v[i]); } ~Arr() { free(p); } best::span<T> span() const { return best::span<T>(p, n); } best::span<const T> cspan() const { return best::span<const T>(p, n); } };

template <class T> std::vector<T> rv(Rng& r, size_t max) { std::vector<T> v; size_t n = r.len(max); unsigned al = 2 + r.below(11); for (size_t i = 0; i < n; i++) v.push_back(mk<T>(r, al)); return v; }
template <class T, class U> std::pair<std::vector<T>, std::vector<U>> pair2(Rng& r) {
  auto a = rv<T>(r, 9); std::vector<U> b;
  switch (r.below(4)) { case 0: b = rv<U>(r, 9); break; default: if constexpr (std::is_convertible_v<T, U>) { for (auto x : a) b.push_back((U)x); switch (r.below(4)) { case 0: break; case 1: if (!b.empty()) b.pop_back(); break; case 2: if (!b.empty()) b[r.below(b.size())] = mk<U>(r); break; default: b.push_back(mk<U>(r)); } } else b = rv<U>(r, 9); }
  return {a, b};
}
template <class T, class U = T> void spans(Ctx& c) {
  auto [a, b] = pair2<T, U>(c.rng); Arr<T> x(a); Arr<U> y(b); PO w = lex(a, b); std::string d = fmt("element size %zu ", sizeof(T)) + dump(a) + " vs " + dump(b);
  if (w != PO::unordered) { // NaN: equality and order both follow the elements
    VH_CHECK((w == 0) == lexeq(a, b), "oracle", "oracle"); }
  c.state(hcomb(hcomb(hv(a), hv(b)), sizeof(T) * 64 + sizeof(U)));
  eqs(c, "span-eq", x.span(), y.span(), lexeq(a, b), d);
  rel(c, "span-order", x.cspan(), y.span(), w, d);
  // The same storage on both sides, and a prefix of it.
  bool nan = false; if constexpr (std::is_floating_point_v<T>) for (auto v : a) nan |= v != v;
  if (!nan) { rel(c, "span-self", x.cspan(), x.cspan(), PO::equivalent, d); size_t k = c.rng.below(a.size() + 1); rel(c, "span-prefix", x.cspan()[{.end = k}], x.cspan(), k <=> a.size(), d); }
  if constexpr (std::is_same_v<T, U>) {
    best::vec<T> va(x.cspan()), vb(y.cspan()); eqs(c, "vec-eq", va, vb, lexeq(a, b), d);
    rel(c, "vec-order", va, vb, w, d); rel(c, "vec-span-order", va, y.cspan(), w, d);
    best::box<T[]> ba(x.cspan()), bb(y.cspan()); rel(c, "box-span-order", ba, bb, w, d);
  }
  if (a.size() >= 3 && b.size() >= 3) {  // fixed-size spans
    best::span<const T, 3> f(best::span<const T>(x.p, 3)); best::span<const U, 2> g(best::span<const U>(y.p, 2)); best::span<const U, 3> h(best::span<const U>(y.p, 3));
    std::vector<T> a3(a.begin(), a.begin() + 3); std::vector<U> b2(b.begin(), b.begin() + 2), b3(b.begin(), b.begin() + 3);
    rel(c, "fixed-span-order", f, h, lex(a3, b3), d); rel(c, "fixed-span-order", f, g, lex(a3, b2), d); rel(c, "fixed-dynamic-order", f, y.cspan(), lex(a3, b), d); c.event("fixed_spans");
  }
}
// A generic bridge: best value <-> std model.
template <class T> PO oc(const std::optional<T>& a, const std::optional<T>& b) { if (!a || !b) return a.has_value() <=> b.has_value(); return mo(*a, *b); }
template <class T> best::option<T> bo(const std::optional<T>& a) { return a ? best::option<T>(*a) : best::option<T>(best::none); }
template <class T> std::optional<T> ro(Rng& r) { if (r.chance(1, 4)) return {}; return mk<T>(r, 4); }

template <class T> void options(Ctx& c) {
  auto a = ro<T>(c.rng), b = ro<T>(c.rng); PO w = oc(a, b); auto x = bo<T>(a), y = bo<T>(b); std::string d = fmt("option size %zu full %d %d", sizeof(T), !!a, !!b);
  auto h = [](auto& o) -> u64 { return o ? hbytes(&*o, sizeof(T), 5) : 7; }; c.state(hcomb(h(a), h(b)));
  rel(c, "option-order", x, y, w, d);
  if (b) { rel(c, "option-value-order", x, *b, w, d); eqs(c, "option-value-eq", x, *b, w == 0, d); }
  rel(c, "option-none-order", x, best::none, a.has_value() <=> false, d);
  T ta = a ? *a : T{}, tb = b ? *b : T{};
  best::option<const T&> rx = a ? best::option<const T&>(ta) : best::option<const T&>(best::none), ry = b ? best::option<const T&>(tb) : best::option<const T&>(best::none);
  rel(c, "option-ref-order", rx, ry, w, d); rel(c, "option-ref-value-order", rx, y, w, d);
  const T* py = b ? &tb : nullptr; VH_CHECK((rx == py) == (w == 0), "option-ref-pointer", "option<T&> == pointer should be %d", w == 0); VH_CHECK(PO(rx <=> py) == w, "option-ref-pointer", "option<T&> <=> pointer");
  best::option<best::option<T>> ox = c.rng.flip() ? best::option<best::option<T>>(x) : best::option<best::option<T>>(best::none), oy = c.rng.flip() ? best::option<best::option<T>>(y) : best::option<best::option<T>>(best::none);
  rel(c, "option-nested-order", ox, oy, !ox.has_value() || !oy.has_value() ? PO(ox.has_value() <=> oy.has_value()) : w, d);
  c.event("options");
}
struct V3 { int alt; int i; std::vector<int> s; };  // model of choice<int, vec<int>, void, int>
V3 rv3(Rng& r) { V3 v; v.alt = r.below(4); v.i = mk<i32>(r, 3); v.s = rv<int>(r, 3); return v; }
PO c3(const V3& a, const V3& b) { if (a.alt != b.alt) return a.alt <=> b.alt; switch (a.alt) { case 0: case 3: return a.i <=> b.i; case 1: return lex(a.s, b.s); default: return PO::equivalent; } }
using Ch = best::choice<int, best::vec<int>, void, int>;
Ch mc(const V3& v) { switch (v.alt) { case 0: return Ch(best::index<0>, v.i); case 1: return Ch(best::index<1>, best::vec<int>(best::span<const int>(v.s.data(), v.s.size()))); case 2: return Ch(best::index<2>); default: return Ch(best::index<3>, v.i); } }
}  // namespace

VH_WORKLOAD(span_bytes, 3000, 100000) { switch (c.rng.below(7)) { case 0: spans<char>(c); break; case 1: spans<u8>(c); break; case 2: spans<i8>(c); break; case 3: spans<bool>(c); break; case 4: spans<char8_t>(c); break; case 5: spans<En>(c); break; default: spans<Rev>(c); } }
VH_WORKLOAD(span_wide, 4000, 100000) { switch (c.rng.below(8)) { case 0: spans<u16>(c); break; case 1: spans<i16>(c); break; case 2: spans<u32>(c); break; case 3: spans<i32>(c); break; case 4: spans<u64>(c); break; case 5: spans<i64>(c); break; case 6: spans<char16_t>(c); break; default: spans<char32_t>(c); } }
VH_WORKLOAD(span_classes, 3000, 60000) { switch (c.rng.below(5)) { case 0: spans<Pair>(c); break; case 1: spans<Mod>(c); break; case 2: spans<double>(c); break; case 3: spans<int*>(c); break; default: spans<float>(c); } }
VH_WORKLOAD(span_cross, 3000, 60000) { c.event("cross_type"); switch (c.rng.below(5)) { case 0: spans<i32, i64>(c); break; case 1: spans<u8, i32>(c); break; case 2: spans<u8, i8>(c); break; case 3: spans<u16, i16>(c); break; default: spans<i32, double>(c); } }
VH_WORKLOAD(option, 2000, 40000) { switch (c.rng.below(6)) { case 0: options<int>(c); break; case 1: options<u8>(c); break; case 2: options<double>(c); break; case 3: options<Rev>(c); break; case 4: options<Mod>(c); break; default: options<i64>(c); } }
VH_WORKLOAD(option_void, 8, 8) {
  best::option<void> e = best::none, f = best::VoidOption; bool a = c.idx & 1, b = c.idx & 2; rel(c, "option-void-order", a ? f : e, b ? f : e, a <=> b, "option<void>"); c.state(c.idx);
}
VH_WORKLOAD(choice, 2000, 60000) {
  V3 a = rv3(c.rng), b = c.rng.chance(1, 4) ? a : rv3(c.rng); if (c.rng.flip()) b.alt = a.alt;
  Ch x = mc(a), y = mc(b); PO w = c3(a, b); c.state(hcomb(hcomb(a.alt * 4 + b.alt, hv(a.s)), hcomb(hcomb(a.i, b.i), hv(b.s))));
  rel(c, "choice-order", x, y, w, fmt("choice alternatives %d, %d", a.alt, b.alt)); c.event("choices");
  using Pc = best::choice<double, int>; double p = mk<double>(c.rng), q = mk<double>(c.rng); int i = mk<i32>(c.rng, 3), j = mk<i32>(c.rng, 3); bool u = c.rng.flip(), v = c.rng.flip();
  Pc s = u ? Pc(best::index<0>, p) : Pc(best::index<1>, i), t = v ? Pc(best::index<0>, q) : Pc(best::index<1>, j);
  rel(c, "choice-partial-order", s, t, u != v ? PO(int(!u) <=> int(!v)) : u ? p <=> q : PO(i <=> j), "choice<double, int>");
}
VH_WORKLOAD(result, 2000, 60000) {
  using R = best::result<int, best::str>; static const char* E[] = {"", "a", "b", "ab", "\xff"}; std::string pool[5] = {"", "a", "b", "ab", "z"};
  bool u = c.rng.flip(), v = c.rng.flip(); int i = mk<i32>(c.rng, 4), j = mk<i32>(c.rng, 4); size_t e = c.rng.below(5), f = c.rng.below(5);
  auto S = [&](size_t k) { return best::str(best::unsafe("test"), best::span<const char>(pool[k].data(), pool[k].size())); };
  R x = u ? R(best::ok(i)) : R(best::err(S(e))), y = v ? R(best::ok(j)) : R(best::err(S(f)));
  PO w = u != v ? PO(int(!u) <=> int(!v)) : u ? PO(i <=> j) : PO(pool[e].compare(pool[f]) <=> 0); c.state(hcomb(u * 2 + v, hcomb(hcomb(i, j), e * 5 + f)));
  std::string d = fmt("result ok=%d,%d %d %d %s %s", u, v, i, j, pool[e].c_str(), pool[f].c_str());
  rel(c, "result-order", x, y, w, d); c.event("results");
  if (v) { rel(c, "result-value-order", x, j, w, d); rel(c, "result-ok-order", x, best::ok(j), w, d); }
  else { rel(c, "result-error-order", x, S(f), w, d); rel(c, "result-err-order", x, best::err(S(f)), w, d); }
  rel(c, "result-okvoid-order", x, best::ok(), u ? PO::equivalent : PO::greater, d); rel(c, "result-errvoid-order", x, best::err(), u ? PO::less : PO::equivalent, d);
  best::result<void, double> p = u ? best::result<void, double>(best::ok()) : best::result<void, double>(best::err(double(i))), q = v ? best::result<void, double>(best::ok()) : best::result<void, double>(best::err(double(j)));
  rel(c, "result-void-order", p, q, u != v ? PO(int(!u) <=> int(!v)) : u ? PO::equivalent : double(i) <=> double(j), d);
}
VH_WORKLOAD(row, 2000, 60000) {
  auto l = [](std::initializer_list<PO> ps) { for (PO p : ps) if (p != 0) return p; return PO(PO::equivalent); };
  int a = mk<i32>(c.rng, 2), b = mk<i32>(c.rng, 2); u8 s = mk<u8>(c.rng, 2), t = mk<u8>(c.rng, 2); auto va = rv<i16>(c.rng, 3), vb = rv<i16>(c.rng, 3); if (c.rng.flip()) { a = b; } if (c.rng.flip()) s = t; if (c.rng.chance(1, 4)) va = vb;
  auto mkv = [](const std::vector<i16>& v) { return best::vec<i16>(best::span<const i16>(v.data(), v.size())); };
  using R = best::row<int, u8, best::vec<i16>>; R x(a, s, mkv(va)), y(b, t, mkv(vb)); PO w = l({a <=> b, s <=> t, lex(va, vb)});
  c.state(hcomb(hcomb(a, b), hcomb(s * 256 + t, hcomb(hv(va), hv(vb))))); c.event("rows");
  rel(c, "row-order", x, y, w, "row<int, u8, vec>");
  best::row<u8, int, void> p(s, a, best::bind), q(t, b, best::bind); rel(c, "row-void-order", p, q, l({s <=> t, a <=> b}), "row<u8, int, void>");
  double da = mk<double>(c.rng), db = mk<double>(c.rng); best::row<int, double> f(a, da), g(b, db); rel(c, "row-partial-order", f, g, l({a <=> b, da <=> db}), "row<int, double>");
  best::row<> e0, e1; rel(c, "row-empty", e0, e1, PO::equivalent, "row<>");
  best::row<const int&, i64> h(a, i64(s)), k(b, i64(t)); rel(c, "row-ref-order", h, k, l({a <=> b, s <=> t}), "row<const int&, i64>");
  best::row<i64, int> m{i64{a}, int{s}}; rel(c, "row-cross-order", m, best::row<int, i64>(b, i64(t)), l({a <=> b, s <=> t}), "row<i64,int> vs row<int,i64>");
}
VH_WORKLOAD(box, 1000, 20000) {
  int a = mk<i32>(c.rng, 4), b = mk<i32>(c.rng, 4); best::box<int> x(a), y(b); rel(c, "box-order", x, y, a <=> b, "box<int>"); rel(c, "box-value-order", x, b, a <=> b, "box<int> vs int"); c.state(hcomb(a, b)); c.event("boxes");
  Rev p = mk<Rev>(c.rng), q = mk<Rev>(c.rng); best::box<Rev> u(p), v(q); rel(c, "box-class-order", u, v, p <=> q, "box<Rev>");
}
VH_WORKLOAD(nested, 2000, 40000) {
  // vec<option<row<int, choice<void, u8>>>> against nested std models.
  using In = best::choice<void, u8>; using Rw = best::row<int, In>; using Op = best::option<Rw>; using M = std::optional<std::pair<int, std::optional<u8>>>;
  auto gen = [&] { std::vector<M> v; size_t n = c.rng.below(4); for (size_t i = 0; i < n; i++) { if (c.rng.chance(1, 4)) v.push_back({}); else v.push_back(std::pair<int, std::optional<u8>>{(int)c.rng.below(2) - 1, c.rng.flip() ? std::optional<u8>() : std::optional<u8>(c.rng.below(2) * 255)}); } return v; };
  auto a = gen(), b = c.rng.chance(1, 3) ? a : gen(); if (c.rng.flip() && !b.empty()) b.back() = {};
  auto cv = [](const std::vector<M>& m) { best::vec<Op> v; for (auto& e : m) { if (!e) v.push(Op(best::none)); else v.push(Op(Rw(e->first, e->second ? In(best::index<1>, *e->second) : In(best::index<0>)))); } return v; };
  auto ce = [](const M& x, const M& y) -> PO { if (!x || !y) return x.has_value() <=> y.has_value(); if (x->first != y->first) return x->first <=> y->first; if (!x->second || !y->second) return x->second.has_value() <=> y->second.has_value(); return *x->second <=> *y->second; };
  PO w = PO::equivalent; for (size_t i = 0; i < a.size() && i < b.size() && w == 0; i++) w = ce(a[i], b[i]); if (w == 0) w = a.size() <=> b.size();
  auto x = cv(a), y = cv(b); u64 h = a.size() * 8 + b.size(); for (auto* z : {&a, &b}) for (auto& e : *z) h = hcomb(h, e ? e->first * 1000 + (e->second ? *e->second + 1 : 0) : 99999); c.state(h);
  rel(c, "nested-order", x, y, w, fmt("vec<option<row<int, choice>>> sizes %zu %zu", a.size(), b.size())); c.event("nested");
  // Sorting-style transitivity on a third value.
  auto d = gen(); auto z = cv(d); bool ab = x <= y, bd = y <= z; if (ab && bd) VH_CHECK(x <= z, "transitivity", "x <= y <= z but not x <= z");
}
VH_WORKLOAD(text, 1500, 30000) {
  static const char* P[] = {"a", "b", "\xc3\xa9", "\xe7\x8c\xab", "\xf0\x9f\xa7\xb6", "", "\x7f", "A", "\xc2\x80"}; std::string a, b; size_t n = c.rng.below(5); for (size_t i = 0; i < n; i++) a += c.rng.pick(P); n = c.rng.below(3); b = c.rng.flip() ? a : ""; for (size_t i = 0; i < n; i++) b += c.rng.pick(P);
  auto S = [](const std::string& s) { return best::str(best::unsafe("test"), best::span<const char>(s.data(), s.size())); };
  PO w = a.compare(b) <=> 0; c.state(hcomb(hstr(a), hstr(b))); c.event("texts"); std::string d = show(a) + " vs " + show(b);
  rel(c, "str-order", S(a), S(b), w, d); best::strbuf x(S(a)), y(S(b)); rel(c, "strbuf-order", x, y, w, d); rel(c, "strbuf-str-order", x, S(b), w, d);
}
VH_WORKLOAD(ordering_values, 64, 64) {
  using best::ord; using best::partial_ord; static const PO P[] = {PO::less, PO::equivalent, PO::greater, PO::unordered}; static const ord O[] = {ord::less, ord::equal, ord::greater};
  size_t i = c.idx % 4, j = c.idx / 4 % 4; c.state(c.idx); c.eval(4); c.event("ordering_values");
  { int calls = 0; PO r = P[i]->*best::or_cmp([&] { calls++; return P[j]; }); VH_CHECK(r == (P[i] == 0 ? P[j] : P[i]) && calls == (P[i] == 0), "or_cmp-partial", "or_cmp(%s, %s) is %s with %d calls", pos(P[i]).c_str(), pos(P[j]).c_str(), pos(r).c_str(), calls); }
  if (i < 3 && j < 3) { int calls = 0; ord r = O[i]->*best::or_cmp([&] { calls++; return O[j]; }); VH_CHECK(r == (O[i] == 0 ? O[j] : O[i]) && calls == (O[i] == 0), "or_cmp", "or_cmp"); 
    PO m = O[i]->*best::or_cmp([&] { return P[j]; }); VH_CHECK(m == (O[i] == 0 ? P[j] : PO(O[i])), "or_cmp-mixed", "or_cmp mixed"); }
  VH_CHECK(ord(best::Less) == ord::less && ord(best::Equal) == ord::equal && ord(best::Greater) == ord::greater && PO(best::Less) == PO::less && PO(best::Equal) == PO::equivalent && PO(best::Greater) == PO::greater && PO(best::Unordered) == PO::unordered, "constants", "Less/Equal/Greater/Unordered convert to the wrong value");
  int arr[4]; long larr[1]; void* vp = arr + 1; (void)larr; int a = mk<i32>(c.rng, 4), b = mk<i32>(c.rng, 4);
  VH_CHECK(best::equal(a, b) == (a == b) && PO(best::compare(a, b)) == PO(a <=> b), "equal-compare", "best::equal/compare on ints");
  struct Op { int x; }; struct Lt { int x; bool operator==(const Lt&) const = default; bool operator<(const Lt& o) const { return x < o.x; } };
  VH_CHECK(!best::equal(Op{1}, 1) && PO(best::compare(Op{1}, 1)) == PO::unordered, "equal-compare", "incomparable types");
  VH_CHECK(PO(best::compare(Lt{a}, Lt{b})) == PO(a <=> b), "compare-fallback", "compare() falling back on <");
  VH_CHECK(best::equal(vp, arr + 1) && !best::equal(vp, arr) && PO(best::compare((char*)arr, arr + c.idx % 4)) == PO(size_t(0) <=> c.idx % 4), "equal-pointers", "pointers of different types");
}
// Compound values whose parts order in different ways: any number of them, in any arrangement.
namespace {
using so = std::strong_ordering; using wo = std::weak_ordering; using Le = std::remove_const_t<decltype(best::Less)>; using Eq = std::remove_const_t<decltype(best::Equal)>; using Gt = std::remove_const_t<decltype(best::Greater)>; using Uo = std::remove_const_t<decltype(best::Unordered)>;
template <int k> using Cat = std::tuple_element_t<k, std::tuple<so, wo, PO, Le, Eq, Gt, Uo>>; template <int k> using Std = std::tuple_element_t<k, std::tuple<so, wo, PO, so, so, so, PO>>;
template <int... k> constexpr bool common = std::is_same_v<best::common_ord<Cat<k>...>, std::common_comparison_category_t<Std<k>...>>;
// The index, in base 8, of a wrong combination of up to n categories; 0 when all are right (1 stands for the empty one).
template <int n, int... k> constexpr u64 commons() { u64 w = 0; if (!common<k...>) { w = 1; ((w = w * 8 + k), ...); return w; } if constexpr (sizeof...(k) < n) [&]<int... j>(std::integer_sequence<int, j...>) { ((w = w ? w : commons<n, k..., j>()), ...); }(std::make_integer_sequence<int, 7>{}); return w; }
struct Wk { int v; bool operator==(const Wk&) const = default; wo operator<=>(const Wk& o) const { return v <=> o.v; } };
template <class T> T part(Rng& g) { if constexpr (std::is_same_v<T, double> || std::is_same_v<T, float>) { static const T k[] = {T(0), T(-0.0), T(1), T(-1), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity()}; return g.pick(k); } else if constexpr (std::is_same_v<T, Wk>) return Wk{(int)g.below(2)}; else return T(g.below(2)); }
template <class... Ts> void mixed_row(Ctx& c, const char* what) {
  auto& g = c.rng; std::tuple<Ts...> a(part<Ts>(g)...), b = a; if (g.chance(4, 5)) [&]<size_t... i>(std::index_sequence<i...>) { ((g.chance(1, 3) ? void(std::get<i>(b) = part<Ts>(g)) : void()), ...); }(std::index_sequence_for<Ts...>{});
  best::row<Ts...> x = std::apply([](auto... v) { return best::row<Ts...>(v...); }, a), y = std::apply([](auto... v) { return best::row<Ts...>(v...); }, b);
  if constexpr (std::is_same_v<best::common_ord<std::compare_three_way_result_t<Ts>...>, std::common_comparison_category_t<std::compare_three_way_result_t<Ts>...>>) { PO w = PO::equivalent; [&]<size_t... i>(std::index_sequence<i...>) { ((w == 0 ? void(w = PO(std::get<i>(a) <=> std::get<i>(b))) : void()), ...); }(std::index_sequence_for<Ts...>{}); rel(c, "row-mixed-order", x, y, w, what); static_assert(sizeof(x) > 0); constexpr bool cat = std::is_same_v<decltype(x <=> y), std::common_comparison_category_t<std::compare_three_way_result_t<Ts>...>>; VH_CHECK(cat, "row-category", "%s orders with another category than its parts'", what); c.event(w == 0 ? "mixed_equal" : "mixed_rows"); } else VH_FAIL("row-mixed-order", "%s cannot be ordered", what);
}
template <class... Ts> void mixed_choice(Ctx& c, const char* what) {
  auto& g = c.rng; using C = best::choice<Ts...>; std::tuple<Ts...> a(part<Ts>(g)...), b = a; size_t i = g.below(sizeof...(Ts)), j = g.flip() ? i : g.below(sizeof...(Ts)); if (g.flip()) b = std::tuple<Ts...>(part<Ts>(g)...);
  auto mk = [](size_t n, auto& t) { std::optional<C> o; [&]<size_t... k>(std::index_sequence<k...>) { ((n == k ? void(o.emplace(best::index<k>, std::get<k>(t))) : void()), ...); }(std::index_sequence_for<Ts...>{}); return *o; }; C x = mk(i, a), y = mk(j, b);
  PO w = i <=> j; [&]<size_t... k>(std::index_sequence<k...>) { ((i == k && j == k ? void(w = PO(std::get<k>(a) <=> std::get<k>(b))) : void()), ...); }(std::index_sequence_for<Ts...>{});
  using O = best::common_ord<std::compare_three_way_result_t<Ts>...>; constexpr bool cat = std::is_same_v<O, std::common_comparison_category_t<std::compare_three_way_result_t<Ts>...>>; VH_CHECK(cat, "choice-category", "%s has no common category", what); if constexpr (cat) { rel(c, "choice-mixed-order", x, y, w, what); c.event("mixed_choices"); }
}
#define MROW(...) mixed_row<__VA_ARGS__>(c, "row<" #__VA_ARGS__ ">")
#define MCHOICE(...) mixed_choice<__VA_ARGS__>(c, "choice<" #__VA_ARGS__ ">")
}
VH_WORKLOAD(categories, 1, 1) { constexpr u64 w = commons<4>(); VH_CHECK(w == 0, "common_ord", "the common category of the octal digits after the first of %llo (0 strong, 1 weak, 2 partial, 3-6 Less, Equal, Greater, Unordered)", (unsigned long long)w); c.event("common_categories", 2801); c.eval(2801); c.state(1); 
  constexpr bool o = std::is_same_v<best::order_type<int, long>, so> && std::is_same_v<best::order_type<int, double>, PO> && std::is_same_v<best::order_type<Wk, Wk>, wo> && std::is_same_v<best::order_type<void, void>, so> && std::is_same_v<best::order_type<best::vec<double>, best::vec<double>>, PO> && std::is_same_v<best::order_type<best::option<int>, best::option<int>>, so> && std::is_same_v<best::order_type<const int&, int&&>, so>; VH_CHECK(o, "order_type", "the ordering type of some pair"); }
VH_WORKLOAD(mixed, 3000, 60000) {
  MROW(int, double, int); MROW(double, int, double); MROW(int, int, double, i64); MROW(double, u8, i16, float, int); MROW(int, u8, i16, double, bool, i64); MROW(bool, bool, bool, float);
  MCHOICE(int, double, float, int); MCHOICE(double, int, double); MCHOICE(int, i64, u8, float); MCHOICE(u8, i16, i64, bool, double, int); c.state(c.rng.next()); }
