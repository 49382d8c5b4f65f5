// C17: formatting of values. Every value/spec pair is formatted through the runtime-spec interface (a formattable wrapper)
// and compared with text built by the harness from the documented rules.
#include "fmtref.h"
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/text/strbuf.h"
#include "best/math/conv.h"
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cstddef>
using namespace vh; using namespace fr; using tx::Runes; using tx::Txt; using best::format_spec;

namespace c17 {
template <class T> struct With { const format_spec& s; const T& v; With(const format_spec& s, const T& v) : s(s), v(v) {} friend void BestFmt(auto& f, const With& w) { f.format(w.s, w.v); } };
template <class T> std::string fm(const format_spec& s, const T& v) { best::strbuf o = best::format("{:?}", With<T>(s, v)); return std::string(o.data(), o.size()); }
Spec gen(Ctx& c, const char* methods, bool prec, bool debug) {
  Spec o; auto& g = c.rng; if (g.flip()) { o.width = g.chance(1, 40) ? 1000 : (u32)g.len(150); o.s.width = o.width; }
  if (g.flip()) { o.al = (int)g.below(3); o.s.alignment = o.al == 0 ? format_spec::Left : o.al == 1 ? format_spec::Center : format_spec::Right; static const u32 F[] = {' ', '*', '0', '<', '-', 'x', 0xe9, 0x4e00, 0x1f600}; o.fill = F[g.below(9)]; o.s.fill = tx::rune(o.fill); }
  else if (g.flip()) o.s.sign_aware_padding = true; if (g.flip()) o.s.alt = true; if (debug && g.chance(1, 3)) o.s.debug = true;
  if (prec && g.flip()) { o.prec = (i64)g.len(20); o.s.prec = (u32)o.prec; }
  if (methods && g.flip()) { o.m = methods[g.below(strlen(methods))]; o.s.method = tx::rune(o.m); } return o;
}
void eq(Ctx& c, const char* key, const Spec& s, const std::string& got, const std::string& want, const std::string& v) { c.eval(); VH_CHECK(got == want, key, "%s with %s printed \"%s\", not \"%s\"", v.c_str(), show(s).c_str(), vh::show(got).c_str(), vh::show(want).c_str()); if (s.width && runes_of(want) == s.width) c.event("padded_outputs"); c.state(hcomb(hstr(want), hcomb(hstr(key), s.width * 64 + (s.al + 1) * 16 + s.m))); }

template <class I> void ints(Ctx& c, const char* name) {
  for (int k = 0; k < 12; k++) { I v = c.rng.edge<std::conditional_t<std::is_same_v<I, char>, i8, I>>(); if (k == 0) v = std::numeric_limits<I>::min(); if (k == 1) v = std::numeric_limits<I>::max(); auto s = gen(c, "boxX", false, true); auto got = fm(s.s, v); auto want = want_int(s, (i128)v); eq(c, name, s, got, want, vh::fmt("%s %lld", name, (long long)v)); c.event("ints"); if (v == std::numeric_limits<I>::min()) c.event("minimums");
    if (s.width == 0 && !s.s.alt) { auto back = best::atoi<I>(best::strbuf(best::str(best::unsafe("ascii"), best::span<const char>(got.data(), got.size()))), s.m == 'b' ? 2 : s.m == 'o' ? 8 : s.m ? 16 : 10); VH_CHECK(back.ok() && *back.ok() == v, "round-trip", "%s %lld printed as %s reads back differently", name, (long long)v, got.c_str()); c.event("round_trips"); } }
}
u32 anyrune(Rng& g) { static const u32 A[] = {'a', 'Z', '"', '\'', '\\', 0, 7, 8, 9, 10, 11, 12, 13, 27, 31, 127, 0x80, 0x9f, 0xe9, 0x7ff, 0x800, 0x200d, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}; return g.flip() ? A[g.below(27)] : 0x20 + g.below(0x5f); }
template <class E> void strings(Ctx& c) {
  Runes r; for (size_t i = c.rng.len(30); i--;) { u32 x = anyrune(c.rng); r.push_back(tx::can<E>(x) ? x : 'y'); } Txt<E> h(r, (int)c.rng.below(2));
  for (int k = 0; k < 6; k++) { auto s = gen(c, "q", true, true); std::string q = "\"", p; for (u32 x : r) q += esc(x); q += "\""; size_t n = s.prec >= 0 && (size_t)s.prec < r.size() ? (size_t)s.prec : r.size(); for (size_t i = 0; i < n; i++) p += u(r[i]);
    std::string got = k % 3 == 0 ? fm(s.s, h.pre()) : k % 3 == 1 ? fm(s.s, h.text()) : fm(s.s, best::textbuf<E>(h.text())); std::string what = tx::ename<E>() + tx::show(r); c.event("strings");
    if (s.m == 'q' || s.s.debug) { VH_CHECK(quoted_ok(s, got, q), "quoted", "%s with %s printed \"%s\", not \"%s\"", what.c_str(), show(s).c_str(), vh::show(got).c_str(), vh::show(q).c_str()); c.event("quoted"); c.state(hcomb(hstr(got), 77)); c.eval(); }
    else { if (s.prec >= 0 && n < r.size()) c.event("cut_by_precision"); eq(c, "string", s, got, pad(s, p, n, 0), what); } }
}
}  // namespace c17
using namespace c17;

VH_WORKLOAD(integers, 2500, 60000) { ints<char>(c, "char"); ints<signed char>(c, "signed char"); ints<unsigned char>(c, "unsigned char"); ints<short>(c, "short"); ints<unsigned short>(c, "unsigned short"); ints<int>(c, "int"); ints<unsigned>(c, "unsigned"); ints<long>(c, "long"); ints<unsigned long>(c, "unsigned long"); ints<long long>(c, "long long"); ints<unsigned long long>(c, "unsigned long long"); std::byte b{(u8)c.rng.next()}; auto s = gen(c, "boxX", false, true); eq(c, "byte", s, fm(s.s, b), want_int(s, (int)b), "byte"); }
// Every value of the small types in every radix.
VH_WORKLOAD(small_integers, 4, 4) { const char* ms = "\0boxX"; for (int m = 0; m < 5; m++) for (int alt = 0; alt < 2; alt++) { Spec s; s.m = ms[m]; if (m) s.s.method = tx::rune(ms[m]); s.s.alt = alt; for (int v = (int)c.idx * 16384; v < (int)(c.idx + 1) * 16384; v++) { if (v < 256) { eq(c, "i8", s, fm(s.s, (signed char)v), want_int(s, (signed char)v), vh::fmt("i8 %d", (signed char)v)); eq(c, "u8", s, fm(s.s, (unsigned char)v), want_int(s, v), vh::fmt("u8 %d", v)); } if (v % 3 == m % 3) eq(c, "i16", s, fm(s.s, (short)v), want_int(s, (short)v), vh::fmt("i16 %d", (short)v)); else eq(c, "u16", s, fm(s.s, (unsigned short)v), want_int(s, v), vh::fmt("u16 %d", v)); c.event("small_ints"); } } }
VH_WORKLOAD(strings8, 1500, 40000) { strings<best::utf8>(c); strings<best::wtf8>(c); strings<best::ascii>(c); strings<best::latin1>(c); }
VH_WORKLOAD(strings16, 1500, 40000) { strings<best::utf16>(c); strings<best::utf32>(c); strings<tx::keyed>(c); }
VH_WORKLOAD(runes, 3000, 60000) {
  u32 r = c.rng.flip() ? anyrune(c.rng) : (u32)c.rng.below(0x110000); if (tx::surr(r)) r = 'k'; auto s = gen(c, "q", false, true); auto got = fm(s.s, tx::rune(r)); c.event("runes"); bool q = s.m == 'q' || s.s.debug; auto chk = [&](const std::string& got, const char* what) { if (q) VH_CHECK(quoted_ok(s, got, "'" + esc(r) + "'"), "quoted-rune", "%s %X with %s printed \"%s\"", what, r, show(s).c_str(), vh::show(got).c_str()); else eq(c, "rune", s, got, pad(s, u(r), 1, 0), vh::fmt("%s %X", what, r)); }; chk(got, "rune");
  if (!s.m) { if (r < 0x10000) chk(fm(s.s, (char16_t)r), "char16_t"); if (r < 0x80) chk(fm(s.s, (char8_t)r), "char8_t"); chk(fm(s.s, (char32_t)r), "char32_t"); u32 bad = 0x110000 + (u32)(c.rng.flip() ? c.rng.below(0xffef0000) : c.rng.below(0x2000)); auto g = fm(s.s, (char32_t)bad); if (!s.width) VH_CHECK(g == vh::fmt(q ? "'<U+%X>'" : "<U+%X>", bad), "char32_t", "char32_t %X printed \"%s\"", bad, g.c_str()); c.event("code_unit_values"); }
  bool b = c.rng.flip(); auto bs = gen(c, nullptr, false, true); eq(c, "bool", bs, fm(bs.s, b), pad(bs, b ? "true" : "false", b ? 4 : 5, 0), "bool"); c.event("bools");
}
VH_WORKLOAD(pointers, 600, 10000) {
  int x[4]; Spec s = gen(c, "p", false, true); s.s.width = s.width = 0; u64 a = (u64)&x[c.rng.below(4)]; if (c.rng.chance(1, 4)) a = c.rng.next() >> c.rng.below(64); std::string want = vh::fmt("0x%llx", (unsigned long long)a); c.event("pointers");
  eq(c, "raw-pointer", s, fm(s.s, (int*)a), a || s.m == 'p' ? want : "nullptr", "int*"); eq(c, "void-pointer", s, fm(s.s, (const void*)a), a || s.m == 'p' ? want : "nullptr", "void*"); eq(c, "ptr", s, fm(s.s, best::ptr<int>((int*)a)), want, "ptr");
  { best::ptr<int[]> sp = best::span<int>(x, c.rng.below(5)).data() == nullptr ? best::ptr<int[]>() : best::ptr<int[]>(); (void)sp; }
  int v = (int)c.rng.edge<i32>(); best::box<int> b(v); Spec t = gen(c, "boxXp", false, true); if (t.m == 'p') eq(c, "box-pointer", [&] { auto z = t; z.width = 0; z.s.width = 0; return z; }(), fm([&] { auto z = t.s; z.width = 0; return z; }(), b), vh::fmt("0x%llx", (unsigned long long)b.as_ptr().raw()), "box"); else eq(c, "box", t, fm(t.s, b), want_int(t, v), "box<int>"); c.event("boxes");
  // Pointers to characters print the string they point to; the address on request.
  Runes r; for (size_t i = c.rng.len(12); i--;) r.push_back(1 + c.rng.below(126)); auto k = tx::encn<best::utf8>(r); k.push_back(0); auto k2 = tx::encn<best::utf16>(r); k2.push_back(0); auto k4 = tx::encn<best::utf32>(r); k4.push_back(0); std::string plain, q = "\""; for (u32 z : r) plain += u(z), q += esc(z); q += "\""; auto want2 = s.s.debug ? q : plain; const char* p8 = k.data(); const char16_t* p16 = k2.data(); const char32_t* p32 = k4.data();
  if (s.m != 'p') { eq(c, "c-string", s, fm(s.s, p8), want2, "const char*"); eq(c, "c-string16", s, fm(s.s, p16), want2, "const char16_t*"); eq(c, "c-string32", s, fm(s.s, p32), want2, "const char32_t*"); } else eq(c, "c-string", s, fm(s.s, p8), vh::fmt("0x%llx", (unsigned long long)p8), "const char*"); c.event("c_strings");
}
VH_WORKLOAD(collections, 1500, 30000) {
  best::vec<int> v; std::vector<int> m; for (size_t i = c.rng.len(8); i--;) { int x = c.rng.edge<i32>(); v.push(x); m.push_back(x); } Spec s = gen(c, "boxX", false, true); s.s.alt = false; auto list = [&](auto f) { std::string o = "["; for (size_t i = 0; i < m.size(); i++) { if (i) o += ", "; o += f(m[i]); } return o + "]"; }; auto want = list([&](int x) { return want_int(s, x); }); eq(c, "vec", s, fm(s.s, v), want, "vec<int>"); eq(c, "span", s, fm(s.s, v.as_span()), want, "span<int>"); eq(c, "std::vector", s, fm(s.s, m), want, "std::vector<int>"); if (m.size() >= 3) { std::array<int, 3> a{m[0], m[1], m[2]}; m.resize(3); eq(c, "std::array", s, fm(s.s, a), list([&](int x) { return want_int(s, x); }), "std::array<int, 3>"); }
  best::vec<best::strbuf> w; std::vector<Runes> rs; for (size_t i = c.rng.len(5); i--;) { Runes r; for (size_t j = c.rng.len(8); j--;) r.push_back(anyrune(c.rng)); Txt<best::utf8> h(r); w.push(best::strbuf(h.text())); rs.push_back(r); } Spec t = gen(c, "q", true, true); t.s.alt = false; bool q = t.m == 'q' || t.s.debug; if (q) t.s.width = t.width = 0; std::string o = "["; for (size_t i = 0; i < rs.size(); i++) { if (i) o += ", "; if (q) { o += '"'; for (u32 x : rs[i]) o += esc(x); o += '"'; } else { size_t n = t.prec >= 0 && (size_t)t.prec < rs[i].size() ? (size_t)t.prec : rs[i].size(); std::string p; for (size_t j = 0; j < n; j++) p += u(rs[i][j]); o += pad(t, p, n, 0); } } o += "]"; eq(c, "vec-of-strings", t, fm(t.s, w), o, "vec<strbuf>"); c.event("collections");
  c.sample(want);
}
// The documented interface through literal templates.
VH_WORKLOAD(literals, 3, 6) {
  auto is = [&](const best::strbuf& s, const char* w) { VH_CHECK(s.size() == strlen(w) && !memcmp(s.data(), w, s.size()), "literal", "got %.*s, not %s", (int)s.size(), s.data(), w); c.event("literal_templates"); c.eval(); };
  is(best::format("{:5}|{:<5}|{:^6}|{:>5}|{:x>4}", "ab", "ab", "ab", "ab", "ab"), "ab   |ab   |  ab  |   ab|xxab"); is(best::format("{:.2}|{:.0}|{:5.1}|{:>5.3}|{:.9}", "abcd", "abcd", "abcd", "abcd", "abcd"), "ab||a    |  abc|abcd");
  is(best::format("{}|{:?}|{:6}|{:>6}", true, false, true, false), "true|false|true  | false"); is(best::format("{}|{:?}|{:q}|{:3}|{:*^4}", best::rune('x'), best::rune('\''), best::rune('\n'), best::rune('y'), best::rune('z')), "x|'\\''|'\\n'|y  |*z**");
  is(best::format("{}|{}|{}|{}", std::numeric_limits<i8>::min(), std::numeric_limits<i16>::min(), std::numeric_limits<i32>::min(), std::numeric_limits<i64>::min()), "-128|-32768|-2147483648|-9223372036854775808"); is(best::format("{:x}|{:#b}|{:+<6}|{:06}|{:#06x}", std::numeric_limits<i8>::min(), (i8)-2, -5, -5, -5), "-80|-0b10|-5++++|-00005|-0x005");
  is(best::format("{:?}|{}", u"a\"b", U"caf\u00e9"), "\"a\\\"b\"|caf\xc3\xa9"); is(best::format("{}|{:3}|{}", u'a', U'b', u8'c'), "a|b  |c"); best::vec<int> v; v.push(1); v.push(-2); is(best::format("{}|{:?}|{:03}|{:x}", v, v, v, v), "[1, -2]|[1, -2]|[001, -02]|[1, -2]"); int* n = nullptr; is(best::format("{}|{:p}|{:?}", n, n, n), "nullptr|0x0|nullptr");
}
// Printing: the same bytes as best::format, on the right stream, in order, whatever they are.
struct Capture {
  int fd, was, tmp; FILE* f;
  Capture(int n, FILE* s) : fd(n), f(s) { fflush(f); was = dup(fd); char t[] = "c17-XXXXXX"; tmp = mkstemp(t); unlink(t); dup2(tmp, fd); }
  std::string stop() { fflush(f); dup2(was, fd); close(was); std::string o; lseek(tmp, 0, SEEK_SET); char b[4096]; for (ssize_t n; (n = read(tmp, b, sizeof b)) > 0;) o.append(b, (size_t)n); close(tmp); return o; }
};
VH_WORKLOAD(printed, 1200, 30000) {
  auto& g = c.rng; std::string want[2], got[2]; Capture out(1, stdout), err(2, stderr);
  auto add = [&](int to, bool ln, const best::strbuf& s) { want[to].append(s.data(), s.size()); if (ln) want[to] += '\n'; };
  for (int k = 0, n = 1 + (int)g.below(6); k < n; k++) {
    Runes r; for (size_t j = g.chance(1, 12) ? g.below(9000) : g.len(40); j--;) r.push_back(g.chance(1, 10) ? 0 : anyrune(g)); Txt<best::utf8> h(r); best::strbuf s(h.text()); i64 v = g.edge<i64>(); best::option<int> o; if (g.flip()) o = (int)v;
    bool ln = g.flip(); int to = g.flip();
#define GO(...) do { add(to, ln, best::format(__VA_ARGS__)); to ? ln ? best::eprintln(__VA_ARGS__) : best::eprint(__VA_ARGS__) : ln ? best::println(__VA_ARGS__) : best::print(__VA_ARGS__); } while (0)
    switch (g.below(6)) { case 0: GO("{}", s); break; case 1: GO("{:?} {1:x} {0}", s, v); break; case 2: if (ln) { add(to, true, best::strbuf()); to ? best::eprintln() : best::println(); } else { to ? best::eprint() : best::print(); } break; case 3: GO("plain\n"); break; case 4: GO("{:>9} {:?} {{}}", v, o); break; default: GO("{}{}{}", s, v, s); c.event("printed_long"); }
#undef GO
    c.event(to ? "printed_to_stderr" : "printed_to_stdout");
  }
  got[0] = out.stop(); got[1] = err.stop();
  for (int i = 0; i < 2; i++) VH_CHECK(got[i] == want[i], i ? "eprint" : "print", "%zu bytes on %s, not the %zu expected: %s, not %s", got[i].size(), i ? "stderr" : "stdout", want[i].size(), show(got[i]).substr(0, 200).c_str(), show(want[i]).substr(0, 200).c_str());
  c.eval(); c.state(hcomb(hstr(want[0]), hstr(want[1])));
}
