// C20: integer parsing against a big-number reading of the numeral, in every encoding and string form.
#include "text.h"
#include "best/math/conv.h"
#include "best/text/strbuf.h"
#ifdef PART_A
#define PARTNS pa
#elif defined PART_B
#define PARTNS pb
#else
#define PARTNS pc
#endif
namespace PARTNS {
using namespace tx;
template <class I> const char* iname() { static std::string s = vh::fmt("%s%zu", std::is_signed_v<I> ? "i" : "u", sizeof(I) * 8); return s.c_str(); }
struct Want { bool ok; bool neg; u128 mag; };
static int digit(u32 r) { if (r >= '0' && r <= '9') return r - '0'; if (r >= 'a' && r <= 'z') return r - 'a' + 10; if (r >= 'A' && r <= 'Z') return r - 'A' + 10; return 99; }
static Want read_digits(const Runes& r, size_t at, bool neg, int radix) {
  if (at == r.size()) return {false, neg, 0};
  u128 m = 0;
  for (; at < r.size(); at++) { int d = digit(r[at]); if (d >= radix) return {false, neg, 0}; m = m * radix + d; if (m > ((u128)1 << 70)) m = (u128)1 << 70; }
  return {true, neg, m};
}
static bool sign(const Runes& r, size_t& at) { if (at < r.size() && r[at] == '-') { at++; return true; } if (at < r.size() && r[at] == '+') at++; return false; }
static Want want_plain(const Runes& r, int radix) { size_t at = 0; bool n = sign(r, at); return read_digits(r, at, n, radix); }
static Want want_prefix(const Runes& r) {
  size_t at = 0; bool n = sign(r, at);
  if (r.size() == at + 1 && r[at] == '0') return {true, n, 0};
  if (at < r.size() && r[at] == '0') {
    u32 c = at + 1 < r.size() ? r[at + 1] : 0;
    if (c == 'x') return read_digits(r, at + 2, n, 16);
    if (c == 'b') return read_digits(r, at + 2, n, 2);
    if (c == 'o') return read_digits(r, at + 2, n, 8);
    return read_digits(r, at + 1, n, 8);
  }
  return read_digits(r, at, n, 10);
}
template <class I> bool fits(const Want& w) {
  u128 hi = std::is_signed_v<I> ? ((u128)1 << (sizeof(I) * 8 - 1)) - 1 : ((u128)1 << (sizeof(I) * 8)) - 1;
  u128 lo = std::is_signed_v<I> ? hi + 1 : 0;
  return w.ok && (w.neg ? w.mag <= lo : w.mag <= hi);
}
template <class I> void judge(Ctx& c, const char* key, const auto& got, const Want& w, const Runes& r, int radix, const char* form) {
  bool ok = fits<I>(w);
  c.event(ok ? "accepted" : w.ok ? "out_of_range" : "not_numerals");
  if (ok && w.neg) c.event("negatives");
  VH_CHECK(got.ok().has_value() == ok, key, "%s<%s>(%s, radix %d) as %s: %s but must be %s", key, iname<I>(), tx::show(r).c_str(), radix, form, got.ok().has_value() ? "accepted" : "an error", ok ? "accepted" : "an error");
  VH_CHECK(got.err().has_value() == !ok, key, "%s<%s>(%s): neither value nor error", key, iname<I>(), tx::show(r).c_str());
  if (!ok) return;
  i128 v = w.neg ? -(i128)w.mag : (i128)w.mag;
  i128 g = (i128)*got.ok();
  VH_CHECK(g == v, key, "%s<%s>(%s, radix %d) as %s: got %lld, must be %lld", key, iname<I>(), tx::show(r).c_str(), radix, form, (long long)g, (long long)v);
}
template <class I> void one(Ctx& c, const Runes& r, int radix) {
  Want wp = want_plain(r, radix), wx = want_prefix(r), wn = read_digits(r, 0, true, radix), wq = read_digits(r, 0, false, radix);
  c.state(hcomb(tx::hash(r), hcomb(radix, sizeof(I) * 2 + std::is_signed_v<I>))); c.eval();
  auto all = [&](const auto& s, const char* form) {
    c.event(form);
    judge<I>(c, "atoi", best::atoi<I>(s, radix), wp, r, radix, form);
    if (radix == 10) judge<I>(c, "atoi", best::atoi<I>(s), wp, r, radix, form);
    judge<I>(c, "prefix", best::atoi_with_prefix<I>(s), wx, r, 0, form);
    judge<I>(c, "sign", best::atoi_with_sign<I>(s, true, radix), wn, r, radix, form);
    judge<I>(c, "sign", best::atoi_with_sign<I>(s, false, radix), wq, r, radix, form);
  };
  auto enc = [&](auto e) {
    using E = decltype(e);
    for (u32 x : r) if (!can<E>(x)) return;
    Txt<E> t(r, c.rng.below(2));
    switch (c.rng.below(3)) {
      case 0: all(t.pre(), "pretexts"); break;
      case 1: all(t.text(), "texts"); break;
      case 2: if constexpr (std::is_default_constructible_v<best::textbuf<E>> && !std::is_same_v<E, keyed>) { best::textbuf<E> b(t.text()); all(b, "textbufs"); } else all(t.text(), "texts"); break;
    }
    c.event(ename<E>());
  };
#ifdef PART_A
  enc(best::utf8{}); enc(best::utf16{});
  if (r.size() == 4 || r.size() == 2) { bool nul = false; for (u32 x : r) nul |= x == 0 || x > 127; if (!nul) {
    if (r.size() == 4) { const char a[5] = {(char)r[0], (char)r[1], (char)r[2], (char)r[3], 0}; const char16_t b[5] = {(char16_t)r[0], (char16_t)r[1], (char16_t)r[2], (char16_t)r[3], 0}; all(a, "arrays"); all(b, "arrays"); }
    else { const char a[3] = {(char)r[0], (char)r[1], 0}; all(a, "arrays"); } } }
#elif defined PART_B
  enc(best::utf32{}); enc(best::ascii{});
#else
  enc(best::latin1{}); enc(keyed{}); enc(best::wtf8{});
#endif
}
// A string near the limits of the type, or damaged, or junk.
template <class I> Runes gen(Ctx& c, int radix) {
  auto& g = c.rng; Runes r;
  auto put = [&](u128 m) { Runes d; do { int x = m % radix; d.push_back(x < 10 ? '0' + x : (g.flip() ? 'a' : 'A') + x - 10); m /= radix; } while (m); r.insert(r.end(), d.rbegin(), d.rend()); };
  auto lead = [&] { if (g.chance(1, 4)) { size_t n = g.len(g.chance(1, 8) ? 90 : 5); for (size_t i = 0; i < n; i++) r.push_back('0'); } };
  auto sg = [&] { switch (g.below(5)) { case 0: case 1: r.push_back('-'); break; case 2: r.push_back('+'); break; default: break; } };
  switch (g.below(8)) {
    case 0: case 1: { // a value at the boundary of the type, give or take
      sg(); lead();
      u128 hi = std::is_signed_v<I> ? (u128)1 << (sizeof(I) * 8 - 1) : (u128)1 << (sizeof(I) * 8);
      i128 v = (i128)hi + g.range(-3, 3); put((u128)v); break;
    }
    case 2: { sg(); lead(); I v = g.edge<I>(); put(v < 0 ? -(u128)(i128)v : (u128)v); break; }
    case 3: { // a short numeral: the length around the digits that always fit
      sg(); size_t n = g.range(0, 2 * sizeof(I) + 2); int top = g.chance(1, 3) ? 1 : 0;
      for (size_t i = 0; i < n; i++) { int x = top ? radix - 1 : g.below(radix); r.push_back(x < 10 ? '0' + x : (g.flip() ? 'a' : 'A') + x - 10); } break;
    }
    case 4: { sg(); static const char* pre[] = {"0x", "0b", "0o", "0", "0X", "00", "0x0", "0b2", "0o8", ""}; for (const char* p = g.pick(pre); *p; p++) r.push_back(*p);
      u128 v = g.chance(1, 3) ? (u128)(std::make_unsigned_t<I>)g.edge<I>() : g.below(1000); int rx[] = {16, 2, 8, 10}; int R = g.pick(rx); Runes d; do { int x = v % R; d.push_back(x < 10 ? '0' + x : 'a' + x - 10); v /= R; } while (v); r.insert(r.end(), d.rbegin(), d.rend()); break; }
    case 5: { size_t n = g.len(8); static const u32 al[] = {'0', '1', '9', 'a', 'f', 'g', 'z', 'Z', '-', '+', 'x', 'b', 'o', ' ', '_', '.', 0, '/', ':', '@', '[', '`', '{', 0xe9, 0x3b1, 0x1f600, 0x7f, 0xff10}; for (size_t i = 0; i < n; i++) r.push_back(g.pick(al)); break; }
    case 6: { sg(); sg(); lead(); put(g.below(300)); break; }
    default: { sg(); lead(); u128 v = (u128)g.next() << g.below(8); put(v >> g.below(64)); break; }
  }
  if (!r.empty() && g.chance(1, 6)) { static const u32 junk[] = {' ', '-', '+', 'z', '9', 0, '.', 'x', 0xe9, 0x1f600, ':', '/', '`', '@'}; size_t i = g.below(r.size() + 1); if (g.flip()) r.insert(r.begin() + i, g.pick(junk)); else r[g.below(r.size())] = g.pick(junk); }
  return r;
}
template <class I> void round(Ctx& c) { for (int k = 0; k < 4; k++) { int rx[] = {2, 3, 8, 10, 10, 16, 16, 15, 17, 36}; int radix = c.rng.chance(1, 3) ? c.rng.range(2, 36) : c.rng.pick(rx); one<I>(c, gen<I>(c, radix), radix); } }
static void work(Ctx& c) {
  round<i8>(c); round<u8>(c); round<i16>(c); round<u16>(c); round<i32>(c); round<u32>(c); round<i64>(c); round<u64>(c); round<long long>(c); round<unsigned long long>(c); round<char>(c);
}
#ifdef PART_A
VH_WORKLOAD(numerals_a, 2500, 40000) { work(c); }
// Every 8-bit and (in slices) 16-bit value in every radix, with each sign.
VH_WORKLOAD(all_small, 35, 35) {
  int radix = c.idx + 2;
  auto num = [&](unsigned m) { Runes d; do { int x = m % radix; d.insert(d.begin(), x < 10 ? '0' + x : 'a' + x - 10); m /= radix; } while (m); return d; };
  for (int v = -300; v <= 600; v++) for (int s = 0; s < 3; s++) {
    Runes r = num(v < 0 ? -v : v); if (v < 0) r.insert(r.begin(), '-'); else if (s == 1) r.insert(r.begin(), '+'); else if (s == 2) r.insert(r.begin(), '-');
    Want w = want_plain(r, radix); Txt<best::utf8> t(r);
    judge<i8>(c, "atoi", best::atoi<i8>(t.text(), radix), w, r, radix, "8-bit"); judge<u8>(c, "atoi", best::atoi<u8>(t.text(), radix), w, r, radix, "8-bit"); c.eval(2); c.event("small_values");
  }
  for (int v = -33000; v <= 66000; v += c.thorough ? 1 : 1 + (int)c.rng.below(40)) {
    Runes r = num(v < 0 ? -v : v); if (v < 0) r.insert(r.begin(), '-'); Want w = want_plain(r, radix); Txt<best::utf8> t(r);
    judge<i16>(c, "atoi", best::atoi<i16>(t.text(), radix), w, r, radix, "16-bit"); judge<u16>(c, "atoi", best::atoi<u16>(t.text(), radix), w, r, radix, "16-bit"); c.eval(2); c.event("small_values");
  }
}
#elif defined PART_B
VH_WORKLOAD(numerals_b, 2500, 40000) { work(c); }
#else
VH_WORKLOAD(numerals_c, 2000, 30000) { work(c); }
#endif
}  // namespace PARTNS
