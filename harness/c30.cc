// C30: the same seeded operations evaluated by the compiler and at run time. The oracle is agreement: every intermediate
// result of the compile-time evaluation (a constant recorded in the binary) against the run-time trace of the same seed;
// an operation that is no constant expression (undefined behaviour or a crash met by the evaluator) is a violation.
#include "vh.h"
#include "best/memory/span.h"
#include "best/memory/span_sort.h"
#include "best/memory/ptr.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/choice.h"
#include "best/container/row.h"
#include "best/math/bit.h"
#include "best/math/int.h"
#include "best/math/overflow.h"
#include "best/math/conv.h"
#include "best/iter/iter.h"
#include "best/iter/bounds.h"
#include "best/text/ascii.h"
#include "best/text/utf8.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/str.h"
#include "best/text/format.h"
#include "best/func/arrow.h"
#ifndef VH_CSEED
#define VH_CSEED 1
#endif
#ifndef VH_CASES
#define VH_CASES 24
#endif
#ifdef PART_A
#define PARTNS pa
#elif defined PART_B
#define PARTNS pb
#elif defined PART_C
#define PARTNS pc
#elif defined PART_D
#define PARTNS pd
#elif defined PART_E
#define PARTNS pe
#else
#define PARTNS pf
#endif
namespace PARTNS {
using namespace vh;
struct Tr {
  static constexpr int Max = 320;
  u64 v[Max] = {}; int n = 0; u64 h = 7;
  constexpr void raw(u64 x) { if (n < Max) v[n] = x; n++; h = (h ^ x) * 1099511628211ull + 1; }
  template <class T> constexpr void put(const T& x) {
    if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) raw((u64)(i64)x);
    else if constexpr (std::is_same_v<T, best::rune>) raw(x.to_int());
    else if constexpr (std::is_same_v<T, std::strong_ordering> || std::is_same_v<T, std::weak_ordering> || std::is_same_v<T, std::partial_ordering>) raw(x < 0 ? 1 : x == 0 ? 2 : x > 0 ? 3 : 4);
    else if constexpr (requires { x.ok(); x.err(); }) { if (x.ok().has_value()) { raw(0xb); if constexpr (requires { put(*x.ok()); }) if constexpr (!std::is_void_v<std::remove_cvref_t<decltype(*x.ok())>>) put(*x.ok()); } else { raw(0xe); if constexpr (requires { put(*x.err()); }) put(*x.err()); } }
    else if constexpr (requires { x.has_value(); *x; }) { raw(x.has_value() ? 0xa : 0xd); if (x.has_value()) put(*x); }
    else if constexpr (requires { x.as_codes(); }) { put(x.as_codes()); }
    else if constexpr (requires { x.types; x.first(); x.last(); x.size(); x.apply([](const auto&...) {}); }) { x.each([&](const auto& e) { put(e); }); }
    else if constexpr (requires { x.data().raw(); x.size(); }) { raw(x.size()); for (size_t i = 0; i < x.size(); i++) put(x.data().raw()[i]); }
    else if constexpr (requires { x.overflowed; }) { put(x.value); raw(x.overflowed); }
    else if constexpr (requires { x.size(); x[0]; }) { raw(x.size()); for (size_t i = 0; i < x.size(); i++) put(x[i]); }
    else x.trace(*this);
  }
};
template <int K> struct Op;  // Op<K>::run(Rng&, Tr&)
template <int K> constexpr Tr eval(u64 seed) { Rng r(seed); Tr t; Op<K>::run(r, t); return t; }
template <u64> struct Ic {};
constexpr u64 seed_of(int k, int i) { return hcomb(hcomb(VH_CSEED, 0x30), hcomb((u64)k, (u64)i)); }
static u64 opaque(u64 x) { volatile u64 v = x; return v; }

template <int K, int I> void one(Ctx& c, u64 idx) {
  if ((int)idx != I) return;
  constexpr u64 seed = seed_of(K, I);
#ifdef VH_DIAG  // shows why the compiler refuses
  static_assert(eval<K>(seed).n >= 0);
#endif
  Tr got = eval<K>(opaque(seed));
  c.eval(); c.event(Op<K>::name()); c.state(hcomb(seed, got.h)); c.event("results", (u64)got.n);
  if constexpr (requires { typename Ic<eval<K>(seed).h>; }) {
    static constexpr Tr want = eval<K>(seed);
    c.event("evaluated_by_the_compiler");
    if (want.n != got.n || want.h != got.h) { int i = 0; while (i < Tr::Max && i < want.n && i < got.n && want.v[i] == got.v[i]) i++; VH_FAIL("disagree", "%s, seed %llu: result %d of %d is %#llx at compile time and %#llx (of %d) at run time", Op<K>::name(), (unsigned long long)seed, i, want.n, (unsigned long long)(i < Tr::Max ? want.v[i] : 0), (unsigned long long)(i < Tr::Max ? got.v[i] : 0), got.n); }
  } else VH_FAIL(vh::fmt("not-constant:%s", Op<K>::name()).c_str(), "%s, seed %llu: runs, but the compiler cannot evaluate it (undefined behaviour or a crash in constant evaluation)", Op<K>::name(), (unsigned long long)seed);
  if (c.rng.chance(1, 400)) c.sample(vh::fmt("%s: %d results, hash %llx", Op<K>::name(), got.n, (unsigned long long)got.h));
}
template <int K, int... I> void all(Ctx& c, u64 idx, std::integer_sequence<int, I...>) { (one<K, I>(c, idx), ...); }
template <int... K> void kinds(Ctx& c, std::integer_sequence<int, K...>) { u64 k = c.idx / VH_CASES, i = c.idx % VH_CASES; ((k == (u64)K ? all<K>(c, i, std::make_integer_sequence<int, VH_CASES>{}) : (void)0), ...); }
#define OP(k, nm) template <> struct Op<k> { static const char* name() { return nm; } static constexpr void run(Rng& r, Tr& t); }; constexpr void Op<k>::run(Rng& r, Tr& t)

template <class T, int N> struct Arr { T a[N] = {}; size_t n = 0; constexpr best::span<T> s() { return best::span<T>(best::ptr<T>(a), n); } constexpr best::span<const T> cs() const { return best::span<const T>(best::ptr<const T>(a), n); } };
template <class T, int N = 24> constexpr Arr<T, N> arr(Rng& r, size_t max, int alpha, T base = {}) { Arr<T, N> x; x.n = r.below(max + 1); for (size_t i = 0; i < x.n; i++) x.a[i] = (T)(base + (T)r.below(alpha)); return x; }
template <class T> constexpr T edgy(Rng& r) { using U = std::make_unsigned_t<T>; constexpr int B = sizeof(T) * 8; U m = (U)~U(0); switch (r.below(5)) { case 0: return (T)(U)r.below(4); case 1: return (T)(U)(m - U(r.below(3))); case 2: return (T)(U)((U(1) << (B - 1)) + U(r.below(3)) - U(1)); case 3: return (T)(U)(r.next() >> (64 - 1 - r.below(63))); default: return (T)(U)r.next(); } }
// A user's type with its own meaning of equality and order.
struct Pt { i32 k = 0, id = 0; constexpr bool operator==(const Pt& o) const { return k == o.k; } constexpr std::strong_ordering operator<=>(const Pt& o) const { return k <=> o.k; } constexpr void trace(Tr& t) const { t.raw((u64)k); t.raw((u64)id); } };

#ifdef PART_A
template <class T> constexpr void search(Rng& r, Tr& t, int alpha, T base) {
  auto h = arr<T>(r, 20, alpha, base); Arr<T, 24> n; n.n = 1 + r.below(4); size_t at = r.below(h.n + 1); for (size_t i = 0; i < n.n; i++) n.a[i] = r.chance(4, 5) && at + i < h.n ? h.a[at + i] : (T)(base + (T)r.below(alpha));
  auto s = h.cs(), q = n.cs(); T e = n.a[0];
  t.put(s.find(q)); t.put(s.rfind(q)); t.put(s.contains(q)); t.put(s.find(e)); t.put(s.rfind(e)); t.put(s.contains(e));
  auto pred = [e](const T& x) { return x == e; }; t.put(s.find(pred)); t.put(s.rfind(pred)); t.put(s.contains(pred));
  t.put(s.starts_with(q)); t.put(s.ends_with(q)); t.put(s.strip_prefix(q)); t.put(s.strip_suffix(q));
  { auto u = s; t.put(u.consume_prefix(q)); t.put(u); t.put(u.consume_suffix(q)); t.put(u); }
  if (auto x = s.split_once(q)) { t.put(x->first()); t.put(x->second()); } if (auto x = s.rsplit_once(e)) { t.put(x->first()); t.put(x->second()); }
  { auto it = s.split(e); while (auto x = it.next()) t.put(*x); } { auto it = s.split(q); while (auto x = it.next()) t.put(x->size()); } { auto it = s.split(e); while (auto x = it.next_back()) t.put(x->size()); }
}
OP(0, "search_char") { search<char>(r, t, 3, 'a'); }
OP(1, "search_u8") { search<u8>(r, t, 3, 254); }
OP(2, "search_i8") { search<i8>(r, t, 3, -1); }
OP(3, "search_u16") { search<u16>(r, t, 3, 0xfe); }
OP(4, "search_int") { search<int>(r, t, 3, -1); }
OP(5, "search_u64") { search<u64>(r, t, 2, 0x0101010101010100); }
template <class T> constexpr void comparing(Rng& r, Tr& t, int alpha, T base) {
  auto a = arr<T>(r, 8, alpha, base), b = arr<T>(r, 8, alpha, base); if (r.flip()) { b = a; if (r.flip() && b.n) b.n--; else if (b.n && r.flip()) b.a[r.below(b.n)] = (T)(base + (T)r.below(alpha)); }
  auto x = a.cs(), y = b.cs(); t.put(x == y); t.put(x != y); t.put(x <=> y); t.put(y <=> x); t.put(x < y); t.put(x >= y); t.put(x == x); t.put(x <=> x);
  t.put(x == a.a); for (size_t i = 0; i <= x.size() && i < 4; i++) { t.put(x.at({.end = i})); t.put(x.at({.start = i})); } t.put(x.at({.start = 1, .count = 2})); t.put(x.at({.start = 2})); t.put(x.at({.end = 3})); t.put(x.at({.including_end = 3}));
  if (x.size()) { t.put(x[0]); t.put(x[{.start = x.size() - 1}]); } t.put(x.first()); t.put(x.last());
}
OP(6, "compare_char") { comparing<char>(r, t, 3, (char)0x7f); }
OP(7, "compare_u8") { comparing<u8>(r, t, 3, 0x7f); }
OP(8, "compare_i8") { comparing<i8>(r, t, 3, -1); }
OP(9, "compare_u16") { comparing<u16>(r, t, 3, 0xff); }
OP(10, "compare_int") { comparing<int>(r, t, 3, -1); }
OP(11, "compare_objects") {
  Arr<Pt, 24> a, b; a.n = r.below(7); for (size_t i = 0; i < a.n; i++) a.a[i] = {(i32)r.below(3), (i32)i}; b = a; for (auto& p : b.a) p.id += 50; if (b.n && r.flip()) b.a[r.below(b.n)].k = 1; if (b.n && r.flip()) b.n--;
  auto x = a.cs(), y = b.cs(); t.put(x == y); t.put(x <=> y); if (y.size()) { auto q = best::span<const Pt>(best::ptr<const Pt>(b.a), 1); t.put(x.find(q)); t.put(x.find(b.a[0])); t.put(x.starts_with(q)); t.put(x.ends_with(q)); t.put(x.contains(q)); t.put(x.strip_prefix(q)); }
}
constexpr int Kinds = 12;
#elif defined PART_B
template <class T> constexpr T elem(Rng& r, i32 i) { if constexpr (std::is_same_v<T, Pt>) return {(i32)r.below(5), i}; else return (T)r.below(9); }
template <class T> constexpr void sorting(Rng& r, Tr& t, size_t max) {
  Arr<T, 64> a; a.n = r.below(max + 1); for (size_t i = 0; i < a.n; i++) a.a[i] = elem<T>(r, (i32)i);
  auto key = [](const T& x) { if constexpr (std::is_same_v<T, Pt>) return -x.k; else return -(i64)x; };
  auto cmp = [](const T& x, const T& y) -> best::ord { if constexpr (std::is_same_v<T, Pt>) return y.k <=> x.k; else return y <=> x; };
  
  if constexpr (!std::is_same_v<T, Pt>) { { auto b = a; b.s().sort(); t.put(b.cs()); } { auto b = a; b.s().sort(key); t.put(b.cs()); } { auto b = a; b.s().sort(cmp); t.put(b.cs()); } }
  auto b = a; b.s().sort(); for (int k = 0; k < 3; k++) { T q = elem<T>(r, 0); auto x = b.cs().bisect(q); t.put(x.ok().has_value()); if (!x.ok().has_value()) t.put(*x.err()); }
}
OP(0, "sort_int") { sorting<int>(r, t, 24); }
OP(1, "sort_u8") { sorting<u8>(r, t, 24); }
OP(2, "sort_objects") { sorting<Pt>(r, t, 16); }
OP(3, "sort_longer") { Arr<u16, 64> a; a.n = 30 + r.below(34); for (size_t i = 0; i < a.n; i++) a.a[i] = (u16)r.below(30); a.s().sort(); t.put(a.cs()); }
template <class T> constexpr void moving(Rng& r, Tr& t) {
  Arr<T, 24> a; a.n = 1 + r.below(14); for (size_t i = 0; i < a.n; i++) a.a[i] = elem<T>(r, (i32)i);
  { auto b = a; b.s().reverse(); t.put(b.cs()); } { auto b = a; for (int k = 0; k < 4; k++) b.s().swap(r.below(b.n), r.below(b.n)); t.put(b.cs()); }
  { auto b = a; Arr<T, 24> o; o.n = b.n; o.s().copy_from(b.cs()); t.put(o.cs()); }
  { auto b = a; size_t m = r.below(b.n + 1); auto s = b.s(); if (auto x = s.take_first(m)) { t.put(*x); t.put(s); } if (auto x = s.take_last(r.below(s.size() + 1))) { t.put(*x); t.put(s); } }
  { auto b = a; auto s = b.s(); while (auto x = s.split_first()) { t.put(x->first()); s = x->second(); } } { auto s = a.cs(); while (auto x = s.split_last()) { t.put(x->first()); s = x->second(); } }
  { u64 sum = 0; for (auto& x : a.cs()) { sum = sum * 3; t.put(x); } t.put(sum); } t.put(a.cs().has_subarray(a.cs()));
  { auto p = best::ptr<T>(a.a); size_t i = r.below(a.n), j = r.below(a.n); t.put(*(p + i)); t.put(*(p + j)); t.put((p + i) - (p + j)); t.put((p + i) == (p + j)); t.put((p + i) <=> (p + j)); auto q = p + i; if (j > i) q += (ptrdiff_t)(j - i); t.put(*q); if (i || j) { q--; q++; } t.put(*q); t.put(*(p + (ptrdiff_t)(a.n - 1) - (ptrdiff_t)i)); }
}
OP(4, "move_int") { moving<int>(r, t); }
OP(5, "move_char") { moving<char>(r, t); }
OP(6, "move_objects") { moving<Pt>(r, t); }
OP(7, "iterate") {
  auto a = arr<int>(r, 12, 50); auto s = a.cs(); int k = 1 + (int)r.below(4); size_t n = r.below(9);
  { auto it = s.iter().map([k](const int& x) { return x * k; }).take(n); while (auto x = it.next()) t.put(*x); } { auto it = s.iter().rev().enumerate(); while (auto x = it.next()) { t.put(x->first()); t.put(x->second()); } }
  t.put(s.iter().count()); { auto l = s.iter().last(); t.put(l.has_value()); if (l) t.put(*l); } { auto h = s.iter().take(n).size_hint(); t.put(h.lower); t.put(h.upper); } int seen = 0; { auto it = s.iter().inspect([&](const int& x) { seen += x; }); while (it.next()) {} } t.put(seen);
  { auto it = s.iter(); bool f = true; while (true) { auto x = f ? it.next() : it.next_back(); if (!x) break; t.put(*x); f = r.flip(); } }
}
template <class I> constexpr void ranges(Rng& r, Tr& t) {
  I a = edgy<I>(r), b = edgy<I>(r); if (a > b) { I x = a; a = b; b = x; }
  best::int_range<I> x{.start = a, .end = b}, y{.start = a, .including_end = b}; t.put(x.iter().count()); t.put(x.iter().last()); t.put(y.iter().last()); { auto it = y.iter(); for (int i = 0; i < 12; i++) { t.put(i & 1 ? it.next() : it.next_back()); auto h = it.size_hint(); t.put(h.lower); t.put(h.upper); } }
  { auto it = x.iter(); for (int i = 0; i < 6; i++) t.put(it.next()); }
  size_t sz = r.below(20), st = r.below(24), cn = r.below(24); best::bounds bs[] = {{.start = st}, {.start = st, .count = cn}, {.end = cn}, {.including_end = cn}, {.start = st, .end = st + cn}, {.start = st, .including_end = st + cn}};
  for (auto& b : bs) t.put(b.try_compute_count(sz));
}
OP(8, "ranges_u8") { ranges<u8>(r, t); }
OP(9, "ranges_i8") { ranges<i8>(r, t); }
OP(10, "ranges_i32") { ranges<i32>(r, t); }
OP(11, "ranges_u64") { ranges<u64>(r, t); }
constexpr int Kinds = 12;
#elif defined PART_C
// Runes of a text, weighted to the boundaries of encodings.
constexpr u32 some_rune(Rng& r) { constexpr u32 k[] = {'a', 'b', ',', ' ', 'Z', '0', 0, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}; return r.chance(3, 5) ? k[r.below(4)] : r.chance(4, 5) ? k[r.below(20)] : 1 + (u32)r.below(0xd700); }
template <class E> struct Buf { using C = best::code<E>; C a[64] = {}; size_t n = 0; constexpr best::span<const C> s() const { return best::span<const C>(best::ptr<const C>(a), n); } constexpr void add(u32 v) { auto k = best::rune::from_int(v); if (!k) return; C tmp[8] = {}; auto x = k->encode(best::span<C>(best::ptr<C>(tmp), 8), E{}); if (x.ok().has_value()) { auto y = *x.ok(); for (size_t i = 0; i < y.size() && n < 56; i++) a[n++] = y[i]; } } };
template <class E> constexpr Buf<E> text_of(Rng& r, size_t max) { Buf<E> b; for (size_t k = r.below(max + 1); k--;) b.add(some_rune(r)); return b; }
template <class E> constexpr void texts(Rng& r, Tr& t) {
  auto a = text_of<E>(r, 12); Buf<E> n; for (size_t k = 1 + r.below(2); k--;) n.add(some_rune(r)); if (n.n == 0) n.add('a');
  using Text = best::text<E>; auto s = *Text::from(best::pretext<E>(a.s())), q = *Text::from(best::pretext<E>(n.s()));
  t.put(s.size()); for (auto x : s.runes()) t.put(x); for (auto x : s.rune_indices()) { t.put(x.first()); t.put(x.second()); }
  best::rune e = *best::rune::from_int(some_rune(r)); auto pred = [](best::rune x) { return x.is_ascii_punct(); };
  t.put(s.find(e)); t.put(s.find(q)); t.put(s.find(pred)); t.put(s.contains(e)); t.put(s.contains(q)); t.put(s.starts_with(q)); t.put(s.starts_with(e)); t.put(s.strip_prefix(q)); t.put(s.strip_prefix(e)); t.put(s.strip_prefix(pred));
  if (auto x = s.split_once(e)) { t.put(x->first()); t.put(x->second()); } if (auto x = s.split_once(q)) { t.put(x->first()); t.put(x->second()); }
  { auto it = s.split(e); while (auto x = it.next()) t.put(*x); } { auto it = s.split(q); while (auto x = it.next()) t.put(x->size()); }
  if constexpr (E::About.is_self_syncing) { t.put(s.rfind(e)); t.put(s.rfind(q)); t.put(s.rfind(pred)); t.put(s.ends_with(e)); t.put(s.strip_suffix(e)); t.put(s.strip_suffix(q)); if (auto x = s.rsplit_once(e)) { t.put(x->first()); t.put(x->second()); } auto it = s.runes(); while (auto x = it.next_back()) t.put(*x); for (size_t i = 0; i <= s.size() && i < 12; i++) { t.put(s.is_rune_boundary(i)); t.put(s.split_at(i).has_value()); } }
  auto b = a; if (b.n && r.flip()) b.a[r.below(b.n)] = (typename Buf<E>::C)'a'; best::pretext<E> p(b.s()), o(a.s()); t.put(p == o); t.put(p <=> o); t.put(s == e); t.put(s <=> e);
}
template <class E> constexpr void hostile(Rng& r, Tr& t) {  // any code units
  using C = best::code<E>; Buf<E> a = text_of<E>(r, 5); for (size_t k = r.below(4); k--;) if (a.n < 60) { size_t at = r.below(a.n + 1); for (size_t i = a.n++; i > at; i--) a.a[i] = a.a[i - 1]; constexpr u32 k[] = {0x80, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0xffffffff}; a.a[at] = (C)k[r.below(16)]; }
  best::pretext<E> p(a.s()); t.put(best::text<E>::from(p).has_value()); { auto x = best::text<E>::from_partial(p); t.put(x.first()); t.put(x.second()); } t.put(best::rune::validate(a.s(), E{}));
  for (auto x : p.runes()) t.put(x); { auto it = p.try_runes(); while (auto x = it.next()) { t.put(x->ok().has_value()); if (x->ok()) t.put(*x->ok()); else t.put(*x->err()); } }
  t.put(p.find(best::rune('a'))); t.put(p.contains(best::rune(','))); { auto it = p.split(best::rune(',')); while (auto x = it.next()) t.put(*x); } { auto d = best::rune::decode(a.s(), E{}); t.put(d); if constexpr (E::About.is_self_syncing) t.put(best::rune::undecode(a.s(), E{})); }
}
OP(0, "text_utf8") { texts<best::utf8>(r, t); }
OP(1, "text_utf16") { texts<best::utf16>(r, t); }
OP(2, "text_utf32") { texts<best::utf32>(r, t); }
OP(3, "text_ascii") { texts<best::ascii>(r, t); }
OP(4, "text_latin1") { texts<best::latin1>(r, t); }
OP(5, "hostile_utf8") { hostile<best::utf8>(r, t); }
OP(6, "hostile_utf16") { hostile<best::utf16>(r, t); }
OP(7, "hostile_utf32") { hostile<best::utf32>(r, t); }
OP(8, "hostile_wtf8") { hostile<best::wtf8>(r, t); }
OP(9, "hostile_ascii") { hostile<best::ascii>(r, t); }
constexpr int Kinds = 10;
#elif defined PART_D
constexpr u32 wild(Rng& r) { constexpr u32 k[] = {0, 9, 0x1f, 0x20, 0x2f, '0', '9', ':', '@', 'A', 'Z', '[', '`', 'a', 'z', '{', 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff}; return r.chance(2, 3) ? k[r.below(34)] : (u32)r.below(r.flip() ? 0x80 : 0x110100); }
OP(0, "runes") {
  for (int i = 0; i < 6; i++) { u32 v = wild(r); auto o = best::rune::from_int(v); t.put(o); t.put(best::rune::from_int((i32)v)); t.put(best::rune::from_int_allow_surrogates(v)); if (!o) continue; auto x = *o;
    t.put(x.is_ascii()); t.put(x.is_ascii_alpha()); t.put(x.is_ascii_alnum()); t.put(x.is_ascii_control()); t.put(x.is_ascii_digit()); t.put(x.is_ascii_hex()); t.put(x.is_ascii_lower()); t.put(x.is_ascii_upper()); t.put(x.is_ascii_punct()); t.put(x.is_ascii_space()); t.put(x.to_ascii_lower()); t.put(x.to_ascii_upper());
    u32 radix = 2 + (u32)r.below(35); t.put(x.to_digit(radix)); t.put(x.is_digit(radix)); t.put(best::rune::from_digit((u32)r.below(40), radix)); for (auto e : {1}) { t.put(x.size(best::utf8{})); t.put(x.size(best::utf16{})); t.put(x.size(best::utf32{})); t.put(x.size(best::ascii{})); t.put(x.size(best::latin1{})); }
    char b8[8] = {}; char16_t b16[4] = {}; t.put(x.encode(best::span<char>(best::ptr<char>(b8), r.below(5)), best::utf8{})); t.put(x.encode(best::span<char16_t>(best::ptr<char16_t>(b16), r.below(3)), best::utf16{})); }
}
template <class I> constexpr void parsing(Rng& r, Tr& t) {
  for (int k = 0; k < 5; k++) {
    char b[80] = {}; size_t n = 0; u32 radix = k == 0 ? 10 : 2 + (u32)r.below(35); if (r.chance(1, 3)) b[n++] = r.flip() ? '-' : '+'; if (r.chance(1, 4)) { b[n++] = '0'; if (r.flip()) b[n++] = "xbo9"[r.below(4)]; }
    using U = std::make_unsigned_t<I>; U v = (U)edgy<I>(r); if (r.flip() && std::is_signed_v<I>) v = U(0) - v; char d[70] = {}; int m = 0; do { d[m++] = "0123456789abcdefghijklmnopqrstuvwxyz"[v % radix]; v = (U)(v / radix); } while (v); while (m) b[n++] = d[--m]; if (r.chance(1, 6)) b[r.below(n)] = "_ Gz/:"[r.below(6)]; if (r.chance(1, 6)) b[n++] = '0'; if (r.chance(1, 12)) n = 0;
    best::pretext<best::utf8> p(best::span<const char>(best::ptr<const char>(b), n)); auto a = best::atoi<I>(p, radix); t.put(a.ok()); auto x = best::atoi_with_prefix<I>(p); t.put(x.ok()); auto y = best::atoi_with_sign<I>(p, true, radix); t.put(y.ok()); auto z = best::atoi_with_sign<I>(p, false, radix); t.put(z.ok()); t.raw(n);
  }
}
OP(1, "atoi_u8") { parsing<u8>(r, t); }
OP(2, "atoi_i8") { parsing<i8>(r, t); }
OP(3, "atoi_i32") { parsing<i32>(r, t); }
OP(4, "atoi_u64") { parsing<u64>(r, t); }
OP(5, "atoi_i64") { parsing<i64>(r, t); }
template <class A, class B> constexpr void arith(Rng& r, Tr& t) {
  for (int k = 0; k < 3; k++) {
    A a = edgy<A>(r); B b = edgy<B>(r); best::overflow<A> x(a); best::overflow<B> y(b);
    t.put(x + y); t.put(x - y); t.put(x * y); t.put(x & y); t.put(x | y); t.put(x ^ y); t.put(-x); t.put(~x); if (b != 0) { auto d = best::div(x, y); t.put(d.quot); t.put(d.rem); } t.put(x << y); t.put(x >> y); t.put(x << 3); t.put((x + y).checked()); t.put((x * 2 + y - 1).wrap()); t.put((x == y)); 
    t.put(best::int_cmp(a, b)); t.put(best::checked_cast<B>(a)); t.put(best::checked_cast<A>(b)); t.put(best::int_fits<B>(a)); t.put(best::signed_cmp(a, b)); t.put(best::unsigned_cmp(a, b)); t.put(best::to_signed(a)); t.put(best::to_unsigned(b));
    if constexpr (std::is_signed_v<A> == std::is_signed_v<B>) { t.put(best::min(a, b)); t.put(best::max(a, b)); t.put(best::saturating_add(a, b)); t.put(best::saturating_sub(a, b)); t.put(best::saturating_mul(a, b)); }
  }
}
OP(6, "arith_i8_u8") { arith<i8, u8>(r, t); }
OP(7, "arith_i16_i32") { arith<i16, i32>(r, t); }
OP(8, "arith_u32_i64") { arith<u32, i64>(r, t); }
OP(9, "arith_u64_u16") { arith<u64, u16>(r, t); }
OP(10, "arith_i64_i64") { arith<i64, i64>(r, t); }
template <class I> constexpr void bits(Rng& r, Tr& t) {
  for (int k = 0; k < 6; k++) { I a = edgy<I>(r); u32 s = (u32)r.below(r.chance(1, 5) ? 1000 : 70); t.put(best::count_zeros(a)); t.put(best::count_ones(a)); t.put(best::leading_zeros(a)); t.put(best::leading_ones(a)); t.put(best::trailing_zeros(a)); t.put(best::trailing_ones(a)); t.put(best::shift_left(a, s)); t.put(best::shift_right(a, s)); t.put(best::shift_sign(a, s)); t.put(best::rotate_left(a, s)); t.put(best::rotate_right(a, s));
    if constexpr (std::is_unsigned_v<I>) { t.put(best::is_pow2(a)); t.put(best::checked_next_pow2(a)); t.put(best::wrapping_next_pow2(a)); t.put(best::next_pow2_minus1(a)); t.put(best::bits_for(a)); } }
}
OP(11, "bits_u8") { bits<u8>(r, t); }
OP(12, "bits_i8") { bits<i8>(r, t); }
OP(13, "bits_u16") { bits<u16>(r, t); }
OP(14, "bits_i32") { bits<i32>(r, t); }
OP(15, "bits_u64") { bits<u64>(r, t); }
constexpr int Kinds = 16;
#elif defined PART_E
// A move-only object with a destructor that counts.
struct Mo { int* live; int v; constexpr Mo(int* l, int v) : live(l), v(v) { ++*live; } constexpr Mo(Mo&& o) : live(o.live), v(o.v) { o.v = -1; ++*live; } constexpr Mo& operator=(Mo&& o) { v = o.v; o.v = -1; return *this; } constexpr ~Mo() { --*live; } constexpr bool operator==(const Mo& o) const { return v == o.v; } constexpr void trace(Tr& t) const { t.raw((u64)v); } };
struct Cp { int* live; int v; constexpr Cp(int* l, int v) : live(l), v(v) { ++*live; } constexpr Cp(const Cp& o) : live(o.live), v(o.v) { ++*live; } constexpr Cp& operator=(const Cp& o) { v = o.v; return *this; } constexpr ~Cp() { --*live; } constexpr bool operator==(const Cp& o) const { return v == o.v; } constexpr void trace(Tr& t) const { t.raw((u64)v); } };
OP(0, "option_int") {
  best::option<int> a, b = (int)r.below(9), s[3] = {best::none, 3, (int)r.below(4)}; for (int k = 0; k < 10; k++) { auto& x = s[r.below(3)]; auto& y = s[r.below(3)]; switch (r.below(9)) { case 0: x = y; break; case 1: x = best::none; break; case 2: x = (int)r.below(9); break; case 3: t.put(best::option<best::as_auto<decltype(*x)>>(std::exchange(x, best::none))); break; case 4: t.put(x == y); t.put(x <=> y); break; case 5: t.put(x.map([](const auto& v) { return v + 1; })); break; case 6: t.put(x.value_or(77)); break; case 7: x.emplace((int)r.below(5)); break; default: t.put(x | y); t.put(x & y); t.put(x ^ y); break; } t.put(x); }
  t.put(a); t.put(b); t.put(b.then([](const auto& v) { return v > 4 ? best::option<char>((char)v) : best::option<char>(); })); t.put(b.filter([](const auto& v) { return (v & 1) == 1; })); t.put(b.ok_or(5)); t.put(a.ok_or(6));
}
template <class T> constexpr void option_of(Rng& r, Tr& t) {
  int live = 0; { best::option<T> s[3]; for (int k = 0; k < 12; k++) { auto& x = s[r.below(3)]; auto& y = s[r.below(3)]; switch (r.below(6)) { case 0: if (&x != &y) x = std::move(y); break; case 1: x = best::none; break; case 2: x.emplace(&live, (int)r.below(50)); break; case 3: { auto z = best::option<best::as_auto<decltype(*x)>>(std::exchange(x, best::none)); t.put(z); break; } case 4: t.put(x == y); break; default: if constexpr (std::is_same_v<T, Cp>) { auto z = y; if (&x != &y) x = z; } else { best::option<T> z = std::move(y); t.put(z); y = std::move(z); } break; } t.put(x); t.put(live); } } t.put(live);
}
OP(1, "option_moved") { option_of<Mo>(r, t); }
OP(2, "option_copied") { option_of<Cp>(r, t); }
OP(3, "option_ref") { int a = 1, b = 2; best::option<int&> x, y = a, z = b; for (int k = 0; k < 8; k++) { switch (r.below(5)) { case 0: x = y; break; case 1: y = z; break; case 2: if (x) ++*x; break; case 3: z = best::none; break; default: z = r.flip() ? a : b; break; } t.put(a); t.put(b); t.put(x.has_value()); t.put(y.has_value() ? &*y == &a : 9); t.put(x == y); } }
OP(4, "result") { best::result<int, char> s[3] = {best::ok(1), best::err('x'), best::ok((int)r.below(4))}; for (int k = 0; k < 10; k++) { auto& x = s[r.below(3)]; auto& y = s[r.below(3)]; switch (r.below(6)) { case 0: x = y; break; case 1: x = best::ok((int)r.below(9)); break; case 2: x = best::err((char)('a' + r.below(4))); break; case 3: t.put(x == y); t.put(x <=> y); break; case 4: t.put(x.map([](const auto& v) { return (long)v * 3; })); t.put(x.map_err([](const auto& e) { return (int)e + 1; })); break; default: t.put(x.ok()); t.put(x.err()); break; } t.put(x); } }
using Ch = best::choice<int, char, long>;
constexpr void put(Tr& t, const Ch& c) { t.put(c.which()); c.index_match([&](best::index_t<0>, const int& v) { t.put(v); }, [&](best::index_t<1>, const char& v) { t.put(v); }, [&](best::index_t<2>, const long& v) { t.put(v); }); }
OP(5, "choice") { Ch s[3] = {Ch(best::index<0>, 1), Ch(best::index<1>, 'c'), Ch(best::index<2>, 9L)}; for (int k = 0; k < 12; k++) { auto& x = s[r.below(3)]; auto& y = s[r.below(3)]; switch (r.below(7)) { case 0: x = y; break; case 1: x.emplace(best::index<0>, (int)r.below(9)); break; case 2: x.emplace(best::index<1>, (char)r.below(99)); break; case 3: x.emplace(best::index<2>, (long)r.below(9)); break; case 4: t.put(x == y); t.put(x <=> y); break; case 5: t.put(x.at(best::index<0>)); t.put(x.at(best::index<2>)); break; default: t.put(x.match([](const int& v) { return 1 + v; }, [](const char& v) { return 2 + v; }, [](const long& v) { return 3 + (int)v; })); break; } put(t, x); } }
template <class T> constexpr void choice_of(Rng& r, Tr& t) {
  int live = 0; { using C = best::choice<T, int, T>; C s[3] = {C(best::index<1>, 1), C(best::index<0>, &live, 5), C(best::index<2>, &live, 6)}; for (int k = 0; k < 12; k++) { auto& x = s[r.below(3)]; auto& y = s[r.below(3)]; switch (r.below(6)) { case 0: if (&x != &y) x = std::move(y); break; case 1: x.emplace(best::index<0>, &live, (int)r.below(9)); break; case 2: x.emplace(best::index<1>, (int)r.below(99)); break; case 3: x.emplace(best::index<2>, &live, (int)r.below(9)); break; case 4: t.put(x == y); break; default: { C z = std::move(y); t.put(z.which()); y = std::move(z); } } t.put(x.which()); t.put(live); t.put(y == y); } } t.put(live);
}
OP(6, "choice_moved") { choice_of<Mo>(r, t); }
OP(7, "choice_copied") { choice_of<Cp>(r, t); }
OP(8, "row") {
  best::row<int, char, long> a((int)r.below(5), (char)r.below(5), (long)r.below(3)), b((int)r.below(5), (char)r.below(5), (long)r.below(3)); if (r.flip()) b[best::index<0>] = a[best::index<0>]; t.put(a == b); t.put(a <=> b); t.put(a.first()); t.put(a.second()); t.put(a.last()); t.put(a[best::index<1>]);
  auto all = [&](const auto& x) { x.each([&](const auto& e) { t.put(e); }); }; all(a + b); all(a.push(7)); all(a.insert(8, best::index<1>)); all(a.remove(best::index<0>)); all(a.update((short)3, best::index<2>)); all(a.gather(best::vals<size_t(2), size_t(0)>)); all(a[best::vals<best::bounds{.start = 1}>]); t.put(a.apply([](const auto&... x) { return (0 + ... + (int)x); })); all(a.splice(b, best::vals<best::bounds{.start = 1, .count = 1}>)); a = b; all(a); t.put(a == b);
}
OP(9, "row_moved") { int live = 0; { best::row<Mo, int> a(Mo(&live, (int)r.below(9)), 4), b(Mo(&live, 8), 5); t.put(live); auto c = std::move(a); t.put(c[best::index<0>]); t.put(live); auto d = std::move(c) + std::move(b); d.each([&](const auto& e) { t.put(e); }); t.put(live); a = best::row<Mo, int>(Mo(&live, 3), 1); t.put(a[best::index<0>]); } t.put(live); }
OP(10, "order") { for (int k = 0; k < 4; k++) { int a = (int)r.below(3), b = (int)r.below(3); t.put(best::compare(a, b)); t.put(best::equal(a, b)); best::ord o = a <=> b; t.put(o); t.put(o->*best::or_cmp([&] { return b <=> 1; })); } double d[] = {0.0, -0.0, 1.5, -2.0, __builtin_nan("")}; double x = d[r.below(5)], y = d[r.below(5)]; t.put(best::compare(x, y)); t.put(best::equal(x, y)); }
constexpr int Kinds = 11;
#else
// Objects built by the compiler and used at run time: they equal the ones built at run time.
template <int K> struct Mk;
#define MK(k, nm) template <> struct Mk<k> { static constexpr auto make(Rng& r); }; constexpr auto Mk<k>::make(Rng& r)
MK(0, "option") { return r.flip() ? best::option<int>((int)r.below(100)) : best::option<int>(); }
MK(1, "niche option") { return r.flip() ? best::option<best::rune>(*best::rune::from_int(65 + (u32)r.below(26))) : best::option<best::rune>(); }
MK(2, "choice") { using C = best::choice<int, char, i64>; switch (r.below(3)) { case 0: return C(best::index<0>, (int)r.next()); case 1: return C(best::index<1>, (char)r.below(100)); default: return C(best::index<2>, (i64)r.next()); } }
MK(3, "result") { using R = best::result<u16, i64>; return r.flip() ? R(best::ok((u16)r.next())) : R(best::err((i64)r.next())); }
MK(4, "row") { return best::row<u8, i64, char>((u8)r.next(), (i64)r.next(), (char)r.below(128)); }
MK(5, "overflow") { return best::overflow<i16>((i16)r.next()) * (i16)r.next(); }
MK(6, "nested") { using R = best::row<best::option<char>, best::result<int, char>>; return best::option<R>(R(best::option<char>((char)r.below(90)), best::result<int, char>(best::ok((int)r.below(5))))); }
MK(7, "range") { return (i32)(r.below(5)); }
constexpr int MKinds = 8;
template <int K> constexpr auto make(u64 seed) { Rng r(seed); return Mk<K>::make(r); }
template <int K, int I> void object(Ctx& c) {
  constexpr u64 seed = seed_of(100 + K, I); static constexpr auto fixed = make<K>(seed); static constinit auto mut = make<K>(seed); auto live = make<K>(opaque(seed));
  c.eval(); c.event("objects"); c.state(hcomb(seed, K));
  VH_CHECK(fixed == live && live == fixed, "object", "object kind %d seed %llu built by the compiler differs from the one built at run time", K, (unsigned long long)seed);
  auto copy = fixed; VH_CHECK(copy == live, "object-copy", "copy of the compile-time object kind %d differs", K);
  mut = live; VH_CHECK(mut == fixed, "object-assign", "assigning to the compile-time object kind %d", K);
}
template <int K, int... I> void objects(Ctx& c, std::integer_sequence<int, I...>) { u64 i = c.idx / MKinds; ((i == (u64)I ? object<K, I>(c) : (void)0), ...); }
template <int... K> void mkinds(Ctx& c, std::integer_sequence<int, K...>) { ((c.idx % MKinds == (u64)K ? objects<K>(c, std::make_integer_sequence<int, VH_CASES>{}) : (void)0), ...); }
VH_WORKLOAD(compiled_objects, MKinds * VH_CASES, MKinds * VH_CASES) { mkinds(c, std::make_integer_sequence<int, MKinds>{}); }
// Texts and spans of literals, compared and searched at run time.
static constexpr best::str Lits[] = {"", "a", "hello, world", "h\u00e9llo", "\u20ac", "x\U0001f600y", "a,b,,c"};
static constexpr best::str16 Lits16[] = {u"", u"a", u"hello, world", u"h\u00e9llo", u"\u20ac", u"x\U0001f600y", u"a,b,,c"};
constexpr size_t lit_runes(best::str s) { size_t n = 0; for (auto r : s.runes()) { (void)r; n++; } return n; }
static constexpr size_t Counts[] = {lit_runes(Lits[0]), lit_runes(Lits[1]), lit_runes(Lits[2]), lit_runes(Lits[3]), lit_runes(Lits[4]), lit_runes(Lits[5]), lit_runes(Lits[6])};
VH_WORKLOAD(literals, 7 * 7, 7 * 7) {
  size_t i = (size_t)opaque(c.idx % 7), j = (size_t)opaque(c.idx / 7); c.eval(); c.event("literals"); c.state(hcomb(i, j));
  VH_CHECK(lit_runes(Lits[i]) == Counts[i], "literal", "literal %zu has %zu runes at run time, %zu at compile time", i, lit_runes(Lits[i]), Counts[i]);
  VH_CHECK((Lits[i] == Lits[j]) == (i == j) && (Lits[i] == Lits16[j]) == (i == j) && (Lits16[i] == Lits16[j]) == (i == j), "literal-equal", "literals %zu and %zu", i, j);
}
OP(0, "tap_arrow") { t.raw(r.below(3)); best::option<int> x = (int)r.below(3); t.put(x); best::layout l = best::layout::of<int>(), m = best::layout::array<short>(r.below(9)); t.put(l.size()); t.put(m.size()); t.put(m.align()); t.put(m.fits_in(l)); t.put(l == m); t.put(best::layout::of_struct<char, int, short>().size()); t.put(best::layout::of_union<char, int, short>().align()); }
constexpr int Kinds = 1;
#endif
#define CAT(a, b) CAT2(a, b)
#define CAT2(a, b) a##b
#define WL(n, q, th) VH_WORKLOAD(n, q, th)
WL(CAT(agree_, PARTNS), Kinds * VH_CASES, Kinds * VH_CASES) { kinds(c, std::make_integer_sequence<int, Kinds>{}); }
}  // namespace PARTNS
