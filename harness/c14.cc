// C14: runes. Every integer around and inside the Unicode range, and every radix, against tables written from the
// ASCII/Unicode definitions (C locale ctype, plain arithmetic); escapes are read back by an independent unescaper.
#include "vh.h"
#include "best/text/format.h"
#include "best/text/rune.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include "best/text/utf8.h"
#include <ctype.h>
using namespace vh;
using best::rune;

namespace {
bool surr(u32 r) { return r >= 0xd800 && r <= 0xdfff; }
std::string utf8(u32 r) { std::string o; if (r < 0x80) o += (char)r; else if (r < 0x800) { o += (char)(0xc0 + r / 64); o += (char)(0x80 + r % 64); } else if (r < 0x10000) { o += (char)(0xe0 + r / 4096); o += (char)(0x80 + r / 64 % 64); o += (char)(0x80 + r % 64); } else { o += (char)(0xf0 + r / 262144); o += (char)(0x80 + r / 4096 % 64); o += (char)(0x80 + r / 64 % 64); o += (char)(0x80 + r % 64); } return o; }
template <class T> std::string str(const T& t) { return std::string(t.data(), t.size()); }
// The code point a C++ character literal with this body denotes, or -1.
i64 unescape(const std::string& s) {
  if (s.empty()) return -1; if (s[0] != '\\') { for (u32 l = 1; l <= 4; l++) if (s.size() == l) { u8 a = s[0]; u32 v = l == 1 ? a : a & (0x7f >> l); for (u32 i = 1; i < l; i++) v = v * 64 + ((u8)s[i] & 63); return utf8(v) == s ? (i64)v : -1; } return -1; }
  if (s.size() < 2) return -1; auto num = [&](size_t from, int base, size_t min, size_t max) -> i64 { if (s.size() - from < min || s.size() - from > max) return -1; char* e; i64 v = strtoll(s.c_str() + from, &e, base); return *e || !isxdigit((u8)s[from]) ? -1 : v; };
  switch (s[1]) { case 'x': return num(2, 16, 1, 8); case 'u': return num(2, 16, 4, 4); case 'U': return num(2, 16, 8, 8); case '0' ... '7': return num(1, 8, 1, 3); }
  if (s.size() != 2) return -1; switch (s[1]) { case 'a': return 7; case 'b': return 8; case 't': return 9; case 'n': return 10; case 'v': return 11; case 'f': return 12; case 'r': return 13; case '\'': case '"': case '\\': case '?': return s[1]; } return -1;
}
void one(Ctx& c, u32 r, bool fmts) {
  c.eval(); auto a = rune::from_int(r), b = rune::from_int((i32)r), s = rune::from_int_allow_surrogates(r), t = rune::from_int_allow_surrogates((i32)r); bool uni = r < 0x110000, ok = uni && !surr(r);
  VH_CHECK(a.has_value() == ok && b.has_value() == ok, "from_int", "from_int(%#x): %d %d", r, a.has_value(), b.has_value()); VH_CHECK(s.has_value() == uni && t.has_value() == uni, "from_int_allow_surrogates", "from_int_allow_surrogates(%#x)", r);
  c.event(ok ? "scalar_values" : uni ? "surrogates" : "not_runes"); if (!s || !t || (ok && (!a || !b))) return; rune x = *s; if (ok) VH_CHECK(a->to_int() == r && b->to_int() == r && *a == x, "value", "%#x", r); VH_CHECK(x.to_int() == r && (u32)x == r && *t == x, "value", "%#x", r);
  bool asc = r < 128; auto is = [&](bool got, bool want, const char* what) { VH_CHECK(got == want, what, "U+%04X: %s is %d", r, what, got); };
  is(x.is_ascii(), asc, "is_ascii"); is(x.is_ascii_alpha(), asc && isalpha(r), "is_ascii_alpha"); is(x.is_ascii_alnum(), asc && isalnum(r), "is_ascii_alnum"); is(x.is_ascii_control(), asc && iscntrl(r), "is_ascii_control"); is(x.is_ascii_digit(), asc && isdigit(r), "is_ascii_digit"); is(x.is_ascii_hex(), asc && isxdigit(r), "is_ascii_hex"); is(x.is_ascii_lower(), asc && islower(r), "is_ascii_lower"); is(x.is_ascii_upper(), asc && isupper(r), "is_ascii_upper"); is(x.is_ascii_punct(), asc && ispunct(r), "is_ascii_punct"); is(x.is_ascii_space(), r == ' ' || r == '\t' || r == '\n' || r == '\f' || r == '\r', "is_ascii_space");
  is(x.is_unpaired_surrogate(), surr(r), "is_unpaired_surrogate"); is(x.is_low_surrogate(), r >= 0xdc00 && r <= 0xdfff, "is_low_surrogate"); is(x.is_high_surrogate(), r >= 0xd800 && r <= 0xdbff, "is_high_surrogate");
  u32 lo = asc ? tolower(r) : r, up = asc ? toupper(r) : r; VH_CHECK(x.to_ascii_lower().to_int() == lo, "to_ascii_lower", "U+%04X -> U+%04X", r, x.to_ascii_lower().to_int()); VH_CHECK(x.to_ascii_upper().to_int() == up, "to_ascii_upper", "U+%04X -> U+%04X", r, x.to_ascii_upper().to_int());
  best::option<rune> o = x; VH_CHECK(o.has_value() && *o == x && !(o == best::none), "option", "U+%04X in an option", r);
  auto digit = [&](u32 radix) { i32 v = !asc ? -1 : isdigit(r) ? (i32)r - '0' : isalpha(r) ? tolower(r) - 'a' + 10 : -1; if (v >= (i32)radix) v = -1; auto d = x.to_digit(radix); VH_CHECK(v < 0 ? !d : d == (u32)v, "to_digit", "U+%04X in radix %u: %d", r, radix, d ? (int)*d : -1); VH_CHECK(x.is_digit(radix) == (v >= 0), "is_digit", "U+%04X in radix %u", r, radix); };
  if (asc) { for (u32 radix = 2; radix <= 36; radix++) digit(radix); VH_CHECK(x.to_digit() == x.to_digit(10) && x.is_digit() == x.is_digit(10), "to_digit", "default radix"); c.event("radixes", 35); } else digit(2 + c.rng.below(35));
  if (ok && fmts) {
    std::string self = utf8(r), esc = str(best::format("{}", x.escaped())); i64 back = unescape(esc); VH_CHECK(back == (i64)r, "escaped", "U+%04X is escaped as %s", r, show(esc).c_str()); bool needs = (asc && iscntrl(r)) || r == '\'' || r == '"' || r == '\\'; if (needs) { VH_CHECK(esc.size() > 1 && esc[0] == '\\', "escaped", "U+%04X is not escaped", r); c.event("escapes"); } if (asc && !needs) VH_CHECK(esc == self, "escaped", "U+%04X is escaped needlessly as %s", r, show(esc).c_str());
    std::string f = str(best::format("{}", x)), q = str(best::format("{:?}", x)), qq = str(best::format("{:q}", x)); VH_CHECK(f == self, "format", "U+%04X formats as %s", r, show(f).c_str()); VH_CHECK(q == "'" + esc + "'" && qq == q, "format-debug", "U+%04X formats as %s, %s", r, show(q).c_str(), show(qq).c_str()); c.event("formats", 3);
  }
}
}  // namespace

VH_WORKLOAD(every_rune, 1100, 1100) { for (u32 i = 0; i < 1024; i++) { u32 r = (u32)c.idx * 1024 + i; one(c, r, c.thorough || r < 0x400 || r % 37 == c.rng.below(37) || (r & 0xff) == 0xff || (r >= 0x2000 && r < 0x2100)); c.state(r); } }
VH_WORKLOAD(integers, 400, 4000) { for (int i = 0; i < 256; i++) { u32 r = c.rng.edge<u32>(); one(c, r, c.rng.chance(1, 8)); c.state(r); } }
VH_WORKLOAD(digits, 37, 37) {
  u32 radix = (u32)c.idx; if (radix < 2) radix = 36; for (u32 n = 0; n < 300; n++) { auto d = rune::from_digit(n, radix); u32 want = n < 10 ? '0' + n : 'a' + n - 10; VH_CHECK(n < radix ? (d.has_value() && d->to_int() == want) : !d, "from_digit", "digit %u in radix %u: U+%04X", n, radix, d ? d->to_int() : 0); if (n < radix && d) VH_CHECK(d->to_digit(radix) == n && d->to_ascii_upper().to_digit(radix) == n, "digit-round-trip", "digit %u in radix %u", n, radix); c.event("digits"); c.eval(); }
  for (int i = 0; i < 50; i++) { u32 n = c.rng.edge<u32>(); auto d = rune::from_digit(n, radix); VH_CHECK(d.has_value() == (n < radix), "from_digit", "digit %u in radix %u", n, radix); } c.state(radix); if (radix == 10) for (u32 n = 0; n < 20; n++) VH_CHECK(rune::from_digit(n) == rune::from_digit(n, 10), "from_digit", "default radix");
}
VH_WORKLOAD(bad_radix, 24, 120) {
  u32 radix = c.idx == 0 ? 37 : c.idx == 1 ? ~0u : 37 + c.rng.below(c.rng.flip() ? 100 : 0xffffff00u), n = c.rng.below(40); rune x = *rune::from_int((u32)c.rng.below(128)); c.state(hcomb(radix, n)); c.event("death_children", 3);
  VH_MUST_CRASH("radix-crash", fmt("from_digit(%u, %u)", n, radix), { (void)rune::from_digit(n, radix); }); VH_MUST_CRASH("radix-crash", fmt("to_digit(%u)", radix), { (void)x.to_digit(radix); }); VH_MUST_CRASH("radix-crash", fmt("is_digit(%u)", radix), { (void)x.is_digit(radix); });
}
VH_WORKLOAD(pairs, 4000, 40000) {
  auto mk = [&] { u32 v; do v = c.rng.flip() ? c.rng.below(0x80) : c.rng.edge<u32>() & 0x1fffff; while (v >= 0x110000); return v; }; u32 a = mk(), b = c.rng.chance(1, 5) ? a : mk(); rune x = *rune::from_int_allow_surrogates(a), y = *rune::from_int_allow_surrogates(b); c.eval(); c.state(hcomb(a, b));
  VH_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "compare", "U+%04X with U+%04X", a, b); best::option<rune> ox = x, oy = y; VH_CHECK((ox == oy) == (a == b) && (ox == best::option<rune>()) == false && (best::option<rune>() == oy) == false, "compare-options", "U+%04X with U+%04X", a, b); rune z = x; z = y; VH_CHECK(z == y, "assign", "U+%04X", b); ox = best::none; VH_CHECK(!ox.has_value() && (ox == oy) == false, "compare-options", "empty"); VH_CHECK(rune().to_int() == 0 && rune::Replacement.to_int() == 0xfffd, "constants", "constants"); c.event("comparisons");
}
