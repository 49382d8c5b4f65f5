// C13: encodings. Every rune through every encoding into exact-size heap buffers (so that a byte too many is seen), and
// malformed input of every shape, against Unicode's well-formedness tables written out independently.
#include "vh.h"
#include "best/text/ascii.h"
#include "best/text/encoding.h"
#include "best/text/rune.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"
#include <optional>
using namespace vh;
using best::encoding_error; using best::rune;

namespace {
template <class C> using V = std::vector<C>;
struct Dec { i64 r; size_t n; bool trunc; };  // r < 0: malformed (trunc: a proper prefix of something well-formed)
bool surr(u32 r) { return r >= 0xd800 && r <= 0xdfff; }
// -- reference encodings ------------------------------------------------------------------------------------------
template <bool wobbly> struct U8 {
  using code = char; static bool can(u32 r) { return r < 0x110000 && (wobbly || !surr(r)); }
  static V<char> enc(u32 r) { V<u8> o; if (r < 0x80) o = {(u8)r}; else if (r < 0x800) o = {u8(0xc0 + r / 64), u8(0x80 + r % 64)}; else if (r < 0x10000) o = {u8(0xe0 + r / 4096), u8(0x80 + r / 64 % 64), u8(0x80 + r % 64)}; else o = {u8(0xf0 + r / 262144), u8(0x80 + r / 4096 % 64), u8(0x80 + r / 64 % 64), u8(0x80 + r % 64)}; return V<char>(o.begin(), o.end()); }
  static Dec dec(const char* p, size_t n) {  // Unicode table 3-7
    if (!n) return {-1, 0, true}; auto b = [&](size_t i) { return (u8)p[i]; }; u8 l = b(0); if (l < 0x80) return {l, 1, false}; size_t k; u8 lo = 0x80, hi = 0xbf;
    if (l >= 0xc2 && l <= 0xdf) k = 2; else if (l >= 0xe0 && l <= 0xef) { k = 3; if (l == 0xe0) lo = 0xa0; if (l == 0xed && !wobbly) hi = 0x9f; } else if (l >= 0xf0 && l <= 0xf4) { k = 4; if (l == 0xf0) lo = 0x90; if (l == 0xf4) hi = 0x8f; } else return {-1, 0, false};
    u32 v = k == 2 ? l & 31 : k == 3 ? l & 15 : l & 7; for (size_t i = 1; i < k; i++) { if (i >= n) return {-1, 0, true}; u8 x = b(i); if (x < (i == 1 ? lo : 0x80) || x > (i == 1 ? hi : 0xbf)) return {-1, 0, false}; v = v * 64 + (x & 63); } return {v, k, false};
  }
  static bool lead(char c) { return ((u8)c & 0xc0) != 0x80; }
};
struct U16 {
  using code = char16_t; static bool can(u32 r) { return r < 0x110000 && !surr(r); }
  static V<char16_t> enc(u32 r) { if (r < 0x10000) return {(char16_t)r}; r -= 0x10000; return {(char16_t)(0xd800 + r / 1024), (char16_t)(0xdc00 + r % 1024)}; }
  static Dec dec(const char16_t* p, size_t n) { if (!n) return {-1, 0, true}; u32 a = p[0]; if (!surr(a)) return {a, 1, false}; if (a >= 0xdc00) return {-1, 0, false}; if (n < 2) return {-1, 0, true}; u32 b = p[1]; if (b < 0xdc00 || b > 0xdfff) return {-1, 0, false}; return {(i64)((a - 0xd800) * 1024 + (b - 0xdc00) + 0x10000), 2, false}; }
  static bool lead(char16_t c) { return !(c >= 0xdc00 && c <= 0xdfff); }
};
struct U32 { using code = char32_t; static bool can(u32 r) { return r < 0x110000 && !surr(r); } static V<char32_t> enc(u32 r) { return {r}; } static Dec dec(const char32_t* p, size_t n) { if (!n) return {-1, 0, true}; return can(p[0]) ? Dec{(i64)p[0], 1, false} : Dec{-1, 0, false}; } static bool lead(char32_t) { return true; } };
template <u32 max> struct B1 { using code = char; static bool can(u32 r) { return r <= max; } static V<char> enc(u32 r) { return {(char)(u8)r}; } static Dec dec(const char* p, size_t n) { if (!n) return {-1, 0, true}; return (u8)*p <= max ? Dec{(u8)*p, 1, false} : Dec{-1, 0, false}; } static bool lead(char) { return true; } };
template <class E> struct RefOf; template <> struct RefOf<best::utf8> : U8<false> {}; template <> struct RefOf<best::wtf8> : U8<true> {}; template <> struct RefOf<best::utf16> : U16 {}; template <> struct RefOf<best::utf32> : U32 {}; template <> struct RefOf<best::ascii> : B1<0x7f> {}; template <> struct RefOf<best::latin1> : B1<0xff> {};
template <class R, class C> Dec rdec_back(const C* p, size_t n) { for (size_t k = 1; k <= 4 && k <= n; k++) { Dec d = R::dec(p + n - k, k); if (d.r >= 0 && d.n == k) return d; } return {-1, 0, false}; }
template <class E> const char* nm() { if constexpr (std::is_same_v<E, best::utf8>) return "utf8"; else if constexpr (std::is_same_v<E, best::wtf8>) return "wtf8"; else if constexpr (std::is_same_v<E, best::utf16>) return "utf16"; else if constexpr (std::is_same_v<E, best::utf32>) return "utf32"; else if constexpr (std::is_same_v<E, best::ascii>) return "ascii"; else return "latin1"; }
template <class C> std::string hex(const C* p, size_t n) { std::string s; for (size_t i = 0; i < n && i < 24; i++) s += fmt("%s%x", i ? " " : "", (unsigned)(std::make_unsigned_t<C>)p[i]); return s; }
template <> std::string hex(const char16_t* p, size_t n) { std::string s; for (size_t i = 0; i < n && i < 24; i++) s += fmt("%s%x", i ? " " : "", (unsigned)p[i]); return s; }
template <> std::string hex(const char32_t* p, size_t n) { std::string s; for (size_t i = 0; i < n && i < 24; i++) s += fmt("%s%x", i ? " " : "", (unsigned)p[i]); return s; }
// An exact-size heap block per length.
template <class C> struct Exact { C* p; size_t n; explicit Exact(size_t n) : p((C*)malloc(n * sizeof(C) + !n)), n(n) {} Exact(const V<C>& v) : Exact(v.size()) { if (n) memcpy(p, v.data(), n * sizeof(C)); } ~Exact() { free(p); } Exact(const Exact&) = delete; best::span<const C> in() const { return {p, n}; } best::span<C> out() { return {p, n}; } };
template <class C> Exact<C>& scratch(size_t n) { static Exact<C> b[9] = {Exact<C>(0), Exact<C>(1), Exact<C>(2), Exact<C>(3), Exact<C>(4), Exact<C>(5), Exact<C>(6), Exact<C>(7), Exact<C>(8)}; return b[n]; }

// One decode from the front and one from the back of exactly these units, from a block of exactly that size.
template <class E> void read(Ctx& c, const typename E::code* p, size_t n, const E& e = {}) {
  using R = RefOf<E>; using C = typename E::code; c.eval(2); const char* N = nm<E>();
  best::span<const C> in{p, n}; Dec d = R::dec(p, n); auto r = rune::decode(&in, e);
  if (d.r >= 0) { bool good = r.ok().has_value() && r.ok()->to_int() == (u32)d.r; VH_CHECK(good, fmt("%s-decode", N).c_str(), "%s: decoding {%s} did not give U+%04llX", N, hex(p, n).c_str(), (unsigned long long)d.r); VH_CHECK(!good || (in.size() == n - d.n && in.data().raw() == p + d.n), fmt("%s-decode-advance", N).c_str(), "%s: decoding {%s} consumed %zu units", N, hex(p, n).c_str(), n - in.size()); c.event("decoded"); }
  else { VH_CHECK(r.err().has_value(), fmt("%s-decode-accepts", N).c_str(), "%s: decoding {%s} gave U+%04X", N, hex(p, n).c_str(), r.ok() ? r.ok()->to_int() : 0); if (d.trunc) { VH_CHECK(!r.err() || *r.err() == encoding_error::OutOfBounds, fmt("%s-decode-error", N).c_str(), "%s: truncated {%s} was not reported as out of bounds", N, hex(p, n).c_str()); c.event("truncated"); } else { c.event("malformed"); }
    VH_CHECK(in.size() == n && in.data().raw() == p, fmt("%s-decode-advance-on-error", N).c_str(), "%s: failing to decode {%s} moved the input", N, hex(p, n).c_str()); if (n && sizeof(C) * n >= 4) VH_CHECK(d.trunc || !r.err() || *r.err() == encoding_error::Invalid, fmt("%s-decode-error", N).c_str(), "%s: malformed {%s} was reported as out of bounds", N, hex(p, n).c_str()); }
  best::span<const C> bk{p, n}; Dec b = rdec_back<R>(p, n); auto u = rune::undecode(&bk, e);
  if (b.r >= 0) { bool good = u.ok().has_value() && u.ok()->to_int() == (u32)b.r; VH_CHECK(good, fmt("%s-undecode", N).c_str(), "%s: decoding {%s} from the end did not give U+%04llX", N, hex(p, n).c_str(), (unsigned long long)b.r); VH_CHECK(!good || (bk.size() == n - b.n && bk.data().raw() == p), fmt("%s-undecode-advance", N).c_str(), "%s: decoding {%s} from the end consumed %zu units", N, hex(p, n).c_str(), n - bk.size()); c.event("undecoded"); }
  else { VH_CHECK(u.err().has_value(), fmt("%s-undecode-accepts", N).c_str(), "%s: decoding {%s} from the end gave U+%04X", N, hex(p, n).c_str(), u.ok() ? u.ok()->to_int() : 0); VH_CHECK(bk.size() == n && bk.data().raw() == p, fmt("%s-undecode-advance-on-error", N).c_str(), "%s: failing to decode {%s} from the end moved the input", N, hex(p, n).c_str()); if (!n) VH_CHECK(!u.err() || *u.err() == encoding_error::OutOfBounds, fmt("%s-undecode-error", N).c_str(), "%s: empty input", N); c.event("undecode_rejected"); }
}
template <class E> void copy_read(Ctx& c, const typename E::code* p, size_t n) { using C = typename E::code; if (n <= 8) { auto& b = scratch<C>(n); if (n) memcpy(b.p, p, n * sizeof(C)); read<E>(c, b.p, n); } else { Exact<C> b(V<C>(p, p + n)); read<E>(c, b.p, n); } }
// Whole input: validation, and every boundary.
template <class E> void whole(Ctx& c, const V<typename E::code>& v, const E& e = {}) {
  using R = RefOf<E>; using C = typename E::code; Exact<C> b(v); const char* N = nm<E>(); size_t at = 0, runes = 0; std::vector<bool> bound(v.size() + 1, false); while (at < v.size()) { Dec d = R::dec(v.data() + at, v.size() - at); if (d.r < 0) break; bound[at] = true; at += d.n; runes++; }
  bool ok = at == v.size(); bound[v.size()] = true; bool got = rune::validate(b.in(), e); c.eval(); VH_CHECK(got == ok, fmt("%s-validate", N).c_str(), "%s: validation %s {%s}", N, got ? "accepts" : "rejects", hex(v.data(), v.size()).c_str()); c.event(ok ? "valid_inputs" : "invalid_inputs"); c.state(hbytes(v.data(), v.size() * sizeof(C), hstr(N)));
  auto in = b.in(); size_t steps = 0; bool bad = false; while (!in.is_empty()) { if (!rune::decode(&in, e)) { bad = true; break; } if (++steps > v.size()) break; } VH_CHECK(bad == !ok && steps == runes, fmt("%s-decode-all", N).c_str(), "%s: decoding {%s} to the end gave %zu runes%s, not %zu", N, hex(v.data(), v.size()).c_str(), steps, bad ? " and an error" : "", runes);
  if (ok) { auto bk = b.in(); size_t m = 0; while (!bk.is_empty() && rune::undecode(&bk, e)) m++; VH_CHECK(m == runes && bk.is_empty(), fmt("%s-undecode-all", N).c_str(), "%s: decoding {%s} backwards gave %zu runes, not %zu", N, hex(v.data(), v.size()).c_str(), m, runes);
    for (size_t i = 0; i <= v.size(); i++) { bool g = rune::is_boundary(b.in(), i, e); VH_CHECK(g == bound[i], fmt("%s-boundary", N).c_str(), "%s: position %zu of {%s} is%s a boundary", N, i, hex(v.data(), v.size()).c_str(), g ? "" : " not"); c.event("boundaries"); } for (size_t i : {v.size() + 1, v.size() + 2, v.size() * 2 + 5, ~(size_t)0}) VH_CHECK(!rune::is_boundary(b.in(), i, e), fmt("%s-boundary-outside", N).c_str(), "%s: position %zu of %zu units is a boundary", N, i, v.size()); }
}
// One rune through one encoding.
template <class E> void write(Ctx& c, u32 r, bool all, const E& e = {}) {
  using R = RefOf<E>; using C = typename E::code; const char* N = nm<E>(); auto ro = rune::from_int_allow_surrogates(r); if (!ro) { VH_FAIL("rune", "U+%04X is no rune", r); return; } rune x = *ro; bool can = R::can(r); V<C> w = can ? R::enc(r) : V<C>{}; size_t k = w.size();
  VH_CHECK(k <= E::About.max_codes_per_rune, fmt("%s-about", N).c_str(), "%s: max_codes_per_rune", N); auto sz = x.size(e); VH_CHECK(can ? sz.ok() == k : sz.err() == encoding_error::Invalid, fmt("%s-size", N).c_str(), "%s: size of U+%04X", N, r);
  size_t m = all ? 5 : (can ? k : 4); for (size_t n = all ? 0 : m; n <= m; n++) {
    auto& b = scratch<C>(n); memset(b.p, 0x5a, n * sizeof(C)); auto out = b.out(); auto res = x.encode(&out, e); c.eval();
    if (can && n >= k) { VH_CHECK(res.ok().has_value() && res.ok()->size() == k && res.ok()->data().raw() == b.p && !memcmp(b.p, w.data(), k * sizeof(C)), fmt("%s-encode", N).c_str(), "%s: U+%04X encoded as {%s}", N, r, hex(b.p, n).c_str()); VH_CHECK(out.size() == n - k && out.data().raw() == b.p + k, fmt("%s-encode-advance", N).c_str(), "%s: U+%04X into %zu units left %zu", N, r, n, out.size()); for (size_t i = k * sizeof(C); i < n * sizeof(C); i++) if (((u8*)b.p)[i] != 0x5a) VH_FAIL(fmt("%s-encode-extra", N).c_str(), "%s: U+%04X wrote past its %zu units", N, r, k); c.event("encoded"); }
    else { VH_CHECK(res.err().has_value(), fmt("%s-encode-accepts", N).c_str(), "%s: U+%04X fitted %zu units", N, r, n); VH_CHECK(out.size() == n && out.data().raw() == b.p, fmt("%s-encode-advance-on-error", N).c_str(), "%s: U+%04X into %zu units", N, r, n); for (size_t i = 0; i < n * sizeof(C); i++) if (((u8*)b.p)[i] != 0x5a) { VH_FAIL(fmt("%s-encode-partial", N).c_str(), "%s: U+%04X written partially into %zu units", N, r, n); break; }
      if (res.err() && can) VH_CHECK(*res.err() == encoding_error::OutOfBounds, fmt("%s-encode-error", N).c_str(), "%s: U+%04X into %zu units was called invalid", N, r, n); if (res.err() && !can && n >= 4) VH_CHECK(*res.err() == encoding_error::Invalid, fmt("%s-encode-error", N).c_str(), "%s: U+%04X into %zu units was called out of bounds", N, r, n); c.event(can ? "encode_too_small" : "encode_unencodable"); }
  }
  if (can) { auto byval = scratch<C>(4).out(); auto rv = x.encode(byval, e); VH_CHECK(rv.ok() && rv.ok()->size() == k, fmt("%s-encode", N).c_str(), "%s: U+%04X", N, r); copy_read<E>(c, w.data(), k); if (all) { for (size_t n = 0; n < k; n++) { copy_read<E>(c, w.data(), n); copy_read<E>(c, w.data() + n, k - n); }
      V<C> ext = w; ext.push_back((C)c.rng.next()); ext.insert(ext.begin(), (C)c.rng.next()); copy_read<E>(c, ext.data(), k + 2); copy_read<E>(c, ext.data(), k + 1); copy_read<E>(c, ext.data() + 1, k + 1); } }
}
template <class F> void encs(F&& f) { f(best::utf8{}); f(best::wtf8{}); f(best::utf16{}); f(best::utf32{}); f(best::ascii{}); f(best::latin1{}); }
bool edgy(u32 r) { for (u32 k : {0u, 0x80u, 0x100u, 0x800u, 0xd800u, 0xdc00u, 0xe000u, 0x10000u, 0x40000u, 0x100000u, 0x110000u}) if (r + 64 >= k && r < k + 64) return true; return (r & 0xff) >= 0xfe; }
u32 rnd_rune(Rng& g) { switch (g.below(6)) { case 0: return g.below(0x80); case 1: return g.below(0x800); case 2: return g.below(0x10000); case 3: return 0xd7f0 + g.below(0x820); case 4: { static const u32 k[] = {0, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}; return g.pick(k); } default: return g.below(0x110000); } }
}  // namespace

VH_WORKLOAD(every_rune, 1088, 1088) { for (u32 i = 0; i < 1024; i++) { u32 r = (u32)c.idx * 1024 + i; bool all = c.thorough || edgy(r) || r % 61 == c.rng.below(61); encs([&](auto e) { write<decltype(e)>(c, r, all); }); c.state(r); c.event("runes"); } }
// Every short byte sequence with an arbitrary first byte.
VH_WORKLOAD(short_bytes, 256, 256) {
  static const u8 K[] = {0x00, 0x41, 0x42, 0x5f, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xff}; auto go = [&](V<char> v) { copy_read<best::utf8>(c, v.data(), v.size()); copy_read<best::wtf8>(c, v.data(), v.size()); bool a = rune::validate<best::utf8>({v.data(), v.size()}); size_t at = 0; while (at < v.size()) { Dec d = U8<false>::dec(v.data() + at, v.size() - at); if (d.r < 0) break; at += d.n; } VH_CHECK(a == (at == v.size()), "utf8-validate", "utf8: validation %s {%s}", a ? "accepts" : "rejects", hex(v.data(), v.size()).c_str()); c.event("short_sequences"); };
  char l = (char)c.idx; copy_read<best::ascii>(c, &l, 1); copy_read<best::latin1>(c, &l, 1); go({l}); for (int b = 0; b < 256; b++) { go({l, (char)b}); c.state(c.idx * 256 + b); } for (u8 b : K) for (u8 d : K) { go({l, (char)b, (char)d}); if (c.thorough || (c.idx >= 0xe0 && c.idx < 0xf8) || c.idx % 16 == 1) for (u8 f : K) { go({l, (char)b, (char)d, (char)f}); if (c.thorough && c.idx >= 0xc0) for (u8 g : {0x41, 0x80, 0xbf, 0xc2}) go({l, (char)b, (char)d, (char)f, (char)g}); } }
}
// Every 16-bit unit alone and before/after representatives of each class; 32-bit units at the edges.
VH_WORKLOAD(short_units, 256, 256) {
  static const char16_t K[] = {0, 'A', 0x7f, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xffff};
  for (u32 i = 0; i < 256; i++) { char16_t u = (char16_t)(c.idx * 256 + i); char16_t v[3] = {u, 0, 0}; copy_read<best::utf16>(c, v, 1); for (char16_t k : K) { char16_t a[] = {u, k}, b[] = {k, u}; copy_read<best::utf16>(c, a, 2); copy_read<best::utf16>(c, b, 2); if (i % 16 == 0) for (char16_t k2 : K) { char16_t t[] = {k2, u, k}; copy_read<best::utf16>(c, t, 3); whole<best::utf16>(c, {k2, u, k}); } } c.event("short_sequences"); }
  for (int i = 0; i < 64; i++) { char32_t u = c.rng.flip() ? c.rng.edge<u32>() : rnd_rune(c.rng); copy_read<best::utf32>(c, &u, 1); whole<best::utf32>(c, {u}); whole<best::utf32>(c, {'a', u, 'b'}); }
}
// Longer inputs: runs of well-formed runes, some then damaged.
VH_WORKLOAD(inputs, 6000, 60000) {
  encs([&](auto e) { using E = decltype(e); using R = RefOf<E>; using C = typename E::code; V<C> v; size_t n = c.rng.len(24); bool asc = c.rng.chance(1, 4); for (size_t i = 0; i < n; i++) { u32 r = asc ? c.rng.below(128) : rnd_rune(c.rng); if (!R::can(r)) r &= 0x7f; auto w = R::enc(r); v.insert(v.end(), w.begin(), w.end()); }
    if (c.rng.chance(3, 5)) for (size_t k = 1 + c.rng.below(2); k-- && !v.empty();) { size_t at = c.rng.below(v.size()); switch (c.rng.below(6)) { case 0: v.erase(v.begin() + at); break; case 1: v[at] = (C)c.rng.next(); break; case 2: v[at] ^= (C)(1u << c.rng.below(8 * sizeof(C))); break; case 3: v.resize(at); break; case 4: v.erase(v.begin(), v.begin() + at); break; default: v.insert(v.begin() + at, (C)(c.rng.flip() ? 0x80 + c.rng.below(128) : c.rng.next())); } }
    whole<E>(c, v); copy_read<E>(c, v.data(), v.size()); c.event("long_inputs"); });
}
// What the encodings say about themselves holds for pairs of runes.
VH_WORKLOAD(about, 4000, 40000) {
  encs([&](auto e) { using E = decltype(e); using R = RefOf<E>; using C = typename E::code; V<u32> a, b; for (size_t i = c.rng.len(4); i-- > 0;) { u32 r = rnd_rune(c.rng); if (R::can(r)) { a.push_back(r); b.push_back(r); } } for (auto* s : {&a, &b}) for (size_t i = c.rng.len(2); i-- > 0;) { u32 r = rnd_rune(c.rng); if (R::can(r)) s->push_back(r); }
    auto enc = [&](const V<u32>& s) { V<std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, u8, std::conditional_t<sizeof(C) == 2, u16, u32>>>> o; for (u32 r : s) { C buf[4]; auto w = rune::from_int_allow_surrogates(r)->encode(best::span<C>(buf, 4), e); if (!w.ok()) { VH_FAIL("about-encode", "%s: U+%04X", nm<E>(), r); return o; } for (size_t i = 0; i < w.ok()->size(); i++) o.push_back((decltype(o[0]))buf[i]); } return o; };
    auto x = enc(a), y = enc(b); c.eval(); if (E::About.is_lexicographic) VH_CHECK((a <=> b) == (x <=> y), "about-lexicographic", "%s is not lexicographic", nm<E>()); c.event("orders"); c.state(hcomb(hbytes(a.data(), a.size() * 4), hbytes(b.data(), b.size() * 4)));
    u32 r = rnd_rune(c.rng); C buf[8]; bool ok = rune::from_int_allow_surrogates(r)->encode(best::span<C>(buf, E::About.max_codes_per_rune), e).ok().has_value(); if (E::About.is_universal && !surr(r)) VH_CHECK(ok, "about-universal", "%s: U+%04X", nm<E>(), r); if (surr(r)) VH_CHECK(ok == E::About.allows_surrogates, "about-surrogates", "%s: surrogate U+%04X encodes: %d", nm<E>(), r, ok); });
}
