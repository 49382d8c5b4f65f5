// The documented formatting rules for values, written independently of the library.
#pragma once
#include "text.h"
namespace fr {
using namespace vh; using best::format_spec;
inline std::string u(u32 r) { auto w = tx::enc1<best::utf8>(tx::surr(r) ? 0xfffd : r, {}); return std::string(w.begin(), w.end()); }
inline std::string rep(u32 r, size_t n) { std::string s; while (n--) s += u(r); return s; }
struct Spec { format_spec s; u32 fill = ' '; int al = -1; u32 width = 0; i64 prec = -1; char m = 0; };
inline std::string pad(const Spec& s, std::string body, size_t runes, int def) { if (runes >= s.width) return body; size_t p = s.width - runes; int a = s.al < 0 ? def : s.al; size_t l = a == 0 ? 0 : a == 1 ? p / 2 : p; return rep(s.fill, l) + body + rep(s.fill, p - l); }
inline std::string show(const Spec& s) { return vh::fmt("{fill %X align %d%s%s width %u prec %lld method %c%s}", s.fill, s.al, s.s.alt ? " #" : "", s.s.sign_aware_padding ? " 0" : "", s.width, (long long)s.prec, s.m ? s.m : '-', s.s.debug ? " ?" : ""); }
inline std::string want_int(const Spec& s, i128 v) {
  unsigned base = s.m == 'b' ? 2 : s.m == 'o' ? 8 : s.m == 'x' || s.m == 'X' ? 16 : 10; u128 a = v < 0 ? -(u128)v : (u128)v; std::string d; do { d.insert(d.begin(), (s.m == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[(unsigned)(a % base)]); a /= base; } while (a);
  std::string p = v < 0 ? "-" : ""; if (s.s.alt) p += base == 2 ? "0b" : base == 8 ? "0" : base == 16 ? "0x" : ""; size_t n = p.size() + d.size();
  if (s.s.sign_aware_padding && n < s.width) return p + std::string(s.width - n, '0') + d; return pad(s, p + d, n, 2);
}
inline std::string esc(u32 r) { switch (r) { case '\'': return "\\'"; case '"': return "\\\""; case '\\': return "\\\\"; case 0: return "\\0"; case 7: return "\\a"; case 8: return "\\b"; case 12: return "\\f"; case 10: return "\\n"; case 13: return "\\r"; case 9: return "\\t"; case 11: return "\\v"; case 0x200d: return "\\u200D"; } if (r < 32 || r == 127) return vh::fmt("\\x%02x", r); return u(r); }
inline size_t runes_of(const std::string& s) { size_t n = 0; for (char ch : s) n += (ch & 0xc0) != 0x80; return n; }
// Quoted output: the documentation does not say whether it is padded; accept either, but nothing else.
inline bool quoted_ok(const Spec& s, const std::string& got, const std::string& q) { return got == q || got == pad(s, q, runes_of(q), 0); }
}  // namespace fr
