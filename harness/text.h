// Ideal strings (rune sequences), independent encoders, and texts of every encoding made from them in exact-size blocks.
#pragma once
#include "vh.h"
#include "best/text/ascii.h"
#include "best/text/format.h"
#include "best/text/str.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"

namespace tx {
using namespace vh;
using Runes = std::vector<u32>;
// An encoding with a parameter: two values of the type encode differently.
struct keyed final {
  u32 key = 0x40; using code = char32_t;
  static constexpr best::encoding_about About{.max_codes_per_rune = 1, .is_self_syncing = true, .is_lexicographic = false, .is_universal = true};
  constexpr bool is_boundary(best::span<const char32_t> in, size_t i) const { return i <= in.size(); }
  constexpr best::result<void, best::encoding_error> encode(best::span<char32_t>* out, best::rune r) const { if (r.is_unpaired_surrogate()) return best::encoding_error::Invalid; if (out->is_empty()) return best::encoding_error::OutOfBounds; (*out)[0] = r.to_int() ^ key; *out = (*out)[{.start = 1}]; return best::ok(); }
  constexpr best::result<best::rune, best::encoding_error> decode(best::span<const char32_t>* in) const { if (in->is_empty()) return best::encoding_error::OutOfBounds; auto r = best::rune::from_int((u32)((*in)[0] ^ key)); if (!r) return best::encoding_error::Invalid; *in = (*in)[{.start = 1}]; return *r; }
  constexpr best::result<best::rune, best::encoding_error> undecode(best::span<const char32_t>* in) const { if (in->is_empty()) return best::encoding_error::OutOfBounds; auto r = best::rune::from_int((u32)((*in)[in->size() - 1] ^ key)); if (!r) return best::encoding_error::Invalid; *in = (*in)[{.end = in->size() - 1}]; return *r; }
  constexpr bool operator==(const keyed&) const = default;
};
template <class E> constexpr const char* ename() { if constexpr (std::is_same_v<E, best::utf8>) return "utf8"; else if constexpr (std::is_same_v<E, best::wtf8>) return "wtf8"; else if constexpr (std::is_same_v<E, best::utf16>) return "utf16"; else if constexpr (std::is_same_v<E, best::utf32>) return "utf32"; else if constexpr (std::is_same_v<E, best::ascii>) return "ascii"; else if constexpr (std::is_same_v<E, best::latin1>) return "latin1"; else return "keyed"; }
inline bool surr(u32 r) { return r >= 0xd800 && r <= 0xdfff; }
template <class E> bool can(u32 r) { if (r >= 0x110000) return false; if constexpr (std::is_same_v<E, best::ascii>) return r < 128; else if constexpr (std::is_same_v<E, best::latin1>) return r < 256; else if constexpr (std::is_same_v<E, best::wtf8>) return true; else return !surr(r); }
template <class E> E make_enc(int k) { if constexpr (std::is_same_v<E, keyed>) return keyed{k ? 0x55u : 0x40u}; else return E{}; }
template <class E> std::vector<typename E::code> enc1(u32 r, const E& e) {
  using C = typename E::code;
  if constexpr (std::is_same_v<E, keyed>) return {(C)(r ^ e.key)}; else if constexpr (sizeof(C) == 4 || std::is_same_v<E, best::ascii> || std::is_same_v<E, best::latin1>) return {(C)r};
  else if constexpr (sizeof(C) == 2) { if (r < 0x10000) return {(C)r}; r -= 0x10000; return {(C)(0xd800 + r / 1024), (C)(0xdc00 + r % 1024)}; }
  else { if (r < 0x80) return {(C)r}; if (r < 0x800) return {(C)(0xc0 + r / 64), (C)(0x80 + r % 64)}; if (r < 0x10000) return {(C)(0xe0 + r / 4096), (C)(0x80 + r / 64 % 64), (C)(0x80 + r % 64)}; return {(C)(0xf0 + r / 262144), (C)(0x80 + r / 4096 % 64), (C)(0x80 + r / 64 % 64), (C)(0x80 + r % 64)}; }
}
template <class E> std::vector<typename E::code> encn(const Runes& rs, const E& e = {}) { std::vector<typename E::code> o; for (u32 r : rs) { auto w = enc1(r, e); o.insert(o.end(), w.begin(), w.end()); } return o; }
inline std::string show(const Runes& r) { std::string s = "["; for (size_t i = 0; i < r.size() && i < 40; i++) s += r[i] >= 0x20 && r[i] < 0x7f ? std::string(1, (char)r[i]) : vh::fmt("<%X>", r[i]); return s + "]"; }
// A text over an exact-size heap block, with the position of every rune.
template <class E> struct Txt {
  using C = typename E::code; E e; Runes r; std::vector<size_t> off; C* p; size_t n;
  Txt(const Runes& rs, int key = 0) : e(make_enc<E>(key)), r(rs) { std::vector<C> v; off.push_back(0); for (u32 x : r) { auto w = enc1(x, e); v.insert(v.end(), w.begin(), w.end()); off.push_back(v.size()); } n = v.size(); p = (C*)malloc(n * sizeof(C) + !n); if (n) memcpy(p, v.data(), n * sizeof(C)); }
  ~Txt() { free(p); } Txt(const Txt&) = delete;
  best::span<const C> span() const { return {p, n}; }
  best::pretext<E> pre() const { return best::pretext<E>(span(), e); }
  best::text<E> text() const { return best::text<E>(best::unsafe("encoded by the harness"), pre()); }
  Runes sub(size_t a, size_t b) const { return Runes(r.begin() + a, r.begin() + b); }
};
inline best::rune rune(u32 r) { return *best::rune::from_int_allow_surrogates(r); }
inline u64 hash(const Runes& r) { return hbytes(r.data(), r.size() * 4); }
}  // namespace tx
