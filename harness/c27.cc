// C27: crashes of every kind happen in forked children; what they print, how they end and whether anything ran afterwards is
// compared with the message, line and thread the harness knows.
#include <pthread.h>
#include <sys/mman.h>
#include <thread>
#include "vh.h"
#include "best/text/utf8.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/ascii.h"
#include "best/container/row.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/vec.h"
#include "best/math/overflow.h"
#include "best/memory/allocator.h"
#include "best/memory/layout.h"
#include "best/memory/span.h"
#include "best/text/format.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include "best/log/wtf.h"
namespace h27 {
using namespace vh;
struct Raw { best::strbuf s; explicit Raw(best::strbuf s) : s(std::move(s)) {} Raw(const Raw&) = default; friend void BestFmt(auto& f, const Raw& r) { f.write(r.s); } };
static int* AFTER;  // shared with the children
// The whole standard error of a crash.
static std::string expected(const std::string& thread, const std::string& file, unsigned line, const std::string& msg) { return "\x1b[31mlibbest: thread '" + thread + "' crashed at " + file + ":" + std::to_string(line) + "\n\x1b[0m\x1b[31mlibbest: " + msg + "\n\x1b[0m"; }
static std::string own_name() { char b[64]; pthread_getname_np(pthread_self(), b, sizeof b); return b; }
static void judge(Ctx& c, const char* key, const std::string& what, const std::function<void()>& f, const std::string& thread, const std::string& file, int line, const std::string& msg, bool in_thread) {
  if (!AFTER) AFTER = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *AFTER = 0; DeathInfo d = in_child([&] { auto run = [&] { if (!thread.empty()) pthread_setname_np(pthread_self(), thread.c_str()); f(); *AFTER = 1; }; if (in_thread) { std::thread t(run); t.join(); } else run(); });
  std::string name = thread.empty() ? own_name() : thread; HeapPause hp; c.event(in_thread ? "in_threads" : "in_main"); c.eval(); c.state(hcomb(hstr(what), hstr(msg)));
  if (d.kind != Death::Crashed) { VH_FAIL(key, "%s: %s with status %d, must crash with status 128: %s", what.c_str(), d.kind == Death::Survived ? "went on" : "ended abnormally", d.status, d.err.substr(0, 1200).c_str()); return; }
  VH_CHECK(!*AFTER, key, "%s: the code after the crash ran", what.c_str());
  if (line > 0) { std::string w = expected(name, file, (unsigned)line, msg); if (d.err != w) { size_t i = 0; while (i < d.err.size() && i < w.size() && d.err[i] == w[i]) i++; VH_FAIL(key, "%s: printed %zu bytes, must be %zu; different from byte %zu on: %s, must be %s", what.c_str(), d.err.size(), w.size(), i, show(d.err.substr(i > 40 ? i - 40 : 0, 200)).c_str(), show(w.substr(i > 40 ? i - 40 : 0, 200)).c_str()); } }
  else { std::string a = "\x1b[31mlibbest: thread '" + name + "' crashed at ", b = "\n\x1b[0m\x1b[31mlibbest: " + msg + "\n\x1b[0m"; bool ok = d.err.compare(0, a.size(), a) == 0 && d.err.size() >= a.size() + b.size() && d.err.compare(d.err.size() - b.size(), b.size(), b) == 0; if (!ok) VH_FAIL(key, "%s: printed %zu bytes %s ... %s, must be %s...%s", what.c_str(), d.err.size(), show(d.err.substr(0, 150)).c_str(), show(d.err.size() > 150 ? d.err.substr(d.err.size() - 150) : "").c_str(), show(a).c_str(), show(b.size() > 300 ? b.substr(b.size() - 300) : b).c_str()); }
  c.event("crashes"); if (msg.size() >= 512) c.event("long_messages"); if (msg.size() >= 4096) c.event("very_long_messages"); }
static best::strbuf sb(const std::string& s) { return best::strbuf(*best::str::from(best::span<const char>(s.data(), s.size()))); }
static size_t length(Rng& g) { static const size_t e[] = {0, 1, 400, 470, 480, 490, 500, 505, 509, 510, 511, 512, 513, 514, 600, 1023, 1024, 1025, 4095, 4096, 8192, 65536}; return g.flip() ? g.pick(e) + g.below(3) : g.below(g.flip() ? 600 : 5000); }
static std::string text(Rng& g, size_t n, bool alnum) { std::string s; while (s.size() < n) { if (alnum) s += "abcXYZ0189_-+% {}$"[g.below(18)]; else switch (g.below(12)) { case 0: s += "%s%n%d"; break; case 1: s += "é"; break; case 2: s += "🐈"; break; case 3: s += '\n'; break; case 4: s += '\0'; break; case 5: s += "{}"; break; default: s += (char)('a' + g.below(26)); } } return s; }
static std::string thread_name(Rng& g) { static const std::string n[] = {"", "main", "worker-1", "exactly15chars!", "x", "é", "with space", "%s%n"}; return g.pick(n); }
VH_WORKLOAD(wtf_messages, 700, 12000) {
  auto& g = c.rng; std::string s = text(g, length(g), false), t = thread_name(g); bool th = g.chance(1, 3); int n = g.edge<int>(); i64 big = g.edge<i64>(); bool b = g.flip(); best::strbuf S = sb(s); std::string a = text(g, g.below(40), true); best::strbuf A = sb(a); int line = 0; const char* F = __FILE__;
  auto go = [&](const char* what, const std::string& msg, int ln, std::function<void()> f) { judge(c, "wtf", vh::fmt("%s with %zu bytes", what, s.size()), f, t, F, ln, msg, th); c.event("wtfs"); };
  switch (g.below(7)) {
    case 0: line = __LINE__; go("wtf(\"{}\")", s.empty() ? "explicit call to best::wtf()" : s, line, [&] { best::wtf("{}", S); }); break;
    case 1: line = __LINE__; go("wtf(three arguments)", "<" + s + "|" + std::to_string(n) + "|" + (b ? "true" : "false") + ">", line, [&] { best::wtf("<{}|{}|{}>", S, n, b); }); break;
    case 2: line = __LINE__; go("wtf()", "explicit call to best::wtf()", line, [&] { best::wtf(); }); break;
    case 3: line = __LINE__; go("wtf(literal)", "literal { message } with %s and %n", line, [&] { best::wtf("literal {{ message }} with %s and %n"); }); break;
    case 4: line = __LINE__; go("wtf(twice the same)", s + s + std::to_string(big), line, [&] { best::wtf("{0}{0}{1}", S, big); }); break;
    case 5: line = __LINE__; go("wtf(quoted)", "\"" + a + "\" in [" + std::to_string(n) + ", " + std::to_string(n) + "]", line, [&] { best::vec<int> v = {n, n}; best::wtf("{:?} in {:?}", A, v); }); break;
    default: line = __LINE__; go("wtf(from deep inside)", s.empty() ? "explicit call to best::wtf()" : s, line, [&] { best::vec<int> v = {1, 2, 3}; for (auto& x : v) { best::option<int> o = x; o.map([&](auto&&) -> int { best::wtf("{}", S); }); } }); break;
  }
  if (g.chance(1, 50)) c.sample(vh::fmt("wtf at line %d, %zu bytes, thread '%s'", line, s.size(), t.c_str()));
}
// Errors of results are printed with what they contain.
VH_WORKLOAD(result_errors, 300, 5000) {
  auto& g = c.rng; std::string t = thread_name(g); bool th = g.chance(1, 3), alnum = g.flip(); std::string s = text(g, length(g), alnum);
  if (alnum) { best::result<int, best::strbuf> r = best::err(sb(s)); judge(c, "result", vh::fmt("unwrapping an error string of %zu bytes", s.size()), [&] { int x = *r; (void)x; }, t, "", 0, "unwrapped a best::err(\"" + s + "\")", th); }
  else if (g.flip()) { best::result<int, Raw> r = best::err(Raw(sb(s))); judge(c, "result", vh::fmt("unwrapping an error of %zu bytes", s.size()), [&] { int x = *r; (void)x; }, t, "", 0, "unwrapped a best::err(" + s + ")", th); }
  else { best::result<best::strbuf, Raw> r = best::err(Raw(sb(s))); judge(c, "result", vh::fmt("arrow of an error of %zu bytes", s.size()), [&] { size_t x = r->size(); (void)x; }, t, "", 0, "unwrapped a best::err(" + s + ")", th); }
  c.event("results");
}
// Contract violations name the line of the caller and the numbers involved.
#define AT(what, msg, ...) do { total++; if (c.idx % 40 == which++ % 40 || which - 1 == pick) { judge(c, "location", what, [&] { __VA_ARGS__; }, t, __FILE__, __LINE__, msg, th); c.event("locations"); } } while (0)
#define MSG(what, msg, ...) do { total++; if (c.idx % 40 == which++ % 40 || which - 1 == pick) { judge(c, "message", what, [&] { __VA_ARGS__; }, t, "", 0, msg, th); c.event("other_messages"); } } while (0)
template <class T> static void keep(T&&) {}
VH_WORKLOAD(contracts, 160, 4000) {
  auto& g = c.rng; std::string t = thread_name(g); bool th = g.chance(1, 4); u64 which = 0, total = 0, pick = g.below(40);
  size_t n = g.below(20), i = n + g.below(g.flip() ? 3 : 1000000); if (g.chance(1, 6)) i = SIZE_MAX - g.below(3); auto z = [](size_t x) { return std::to_string(x); };
  best::vec<int> v; for (size_t k = 0; k < n; k++) v.push((int)k); best::span<int> sp = v; std::string txt(n, 'q'); best::str st = *best::str::from(best::span<const char>(txt.data(), txt.size()));
  AT("vec[" + z(i) + "] of " + z(n), "bounds-check failed: " + z(i) + " (start) >= " + z(n) + " (len)", keep(v[i]));
  AT("span[" + z(i) + "] of " + z(n), "bounds-check failed: " + z(i) + " (start) >= " + z(n) + " (len)", keep(sp[i]));
  size_t s = n + 1 + g.below(50), e = g.below(n + 1), e2 = n + 1 + g.below(99);
  AT("span[{.start}]", "bounds-check failed: " + z(s) + " (start) > " + z(n) + " (len)", keep(sp[{.start = s}]));
  AT("vec[{.start}]", "bounds-check failed: " + z(s) + " (start) > " + z(n) + " (len)", keep(v[{.start = s}]));
  AT("text[{.start}]", "bounds-check failed: " + z(s) + " (start) > " + z(n) + " (len)", keep(st[{.start = s}]));
  if (n) { size_t e1 = 1 + g.below(n), e0 = g.below(e1); AT("span[{.start, .end}]", "bounds-check failed: " + z(e1) + " (start) > " + z(e0) + " (end)", keep(sp[{.start = e1, .end = e0}])); }
  AT("span[{.end}]", "bounds-check failed: " + z(e2) + " (end) > " + z(n) + " (len)", keep(sp[{.end = e2}]));
  AT("text[{.end}]", "bounds-check failed: " + z(e2) + " (end) > " + z(n) + " (len)", keep(st[{.end = e2}]));
  AT("span[{.including_end}]", "bounds-check failed: " + z(e2) + " (end) >= " + z(n) + " (len)", keep(sp[{.including_end = e2}]));
  AT("span[{.start, .count}]", "bounds-check failed: " + z(e) + " + " + z(n + 2) + " (start + count) > " + z(n) + " (len)", keep(sp[{.start = e, .count = n + 2}]));
  { best::option<int> o; AT("option.value()", "unwrapped a best::none", keep(o.value())); AT("option.value()", "unwrapped a best::none", keep(best::option<best::strbuf>().value())); MSG("*option", "unwrapped a best::none", keep(*o)); best::option<best::strbuf> ob; MSG("option->", "unwrapped a best::none", keep(ob->size())); }
  { best::choice<int, bool, best::strbuf> ch(best::index<1>, true); MSG("choice[index<0>]", "attempted access of incorrect variant of best::choice; 0 != 1", keep(ch[best::index<0>])); MSG("choice[index<2>]", "attempted access of incorrect variant of best::choice; 2 != 1", keep(ch[best::index<2>])); }
  { int x = g.edge<int>(); AT("overflow.strict()", "arithmetic overflow", keep((best::overflow(INT32_MAX) + 1).strict())); AT("overflow / 0", "division by zero", keep(best::div(x, 0))); }
  if (n) { size_t a = g.below(n); AT("span.swap(good, " + z(i) + ")", "bounds-check failed: " + z(i) + " (start) >= " + z(n) + " (len)", sp.swap(a, i)); AT("span.swap(" + z(i) + ", good)", "bounds-check failed: " + z(i) + " (start) >= " + z(n) + " (len)", sp.swap(i, a)); }
  if (n != 5) { AT("a span of the wrong size", "bounds-check failed: expected exactly 5 elements, got " + z(n), best::span<int, 5> f(sp.data(), sp.size()); keep(f)); }
  { best::strbuf u = sb("aé🐈z"); best::str us = u; struct { size_t a, b; } cut[] = {{2, 3}, {0, 2}, {4, 7}, {1, 4}, {5, 8}, {3, 6}}; auto k = cut[g.below(6)]; AT("slicing through a character", "string slice operation sliced through the middle of a character: {.start = " + z(k.a) + ", .end = " + z(k.b) + "}", keep(us[{.start = k.a, .end = k.b}])); }
  { u32 radix = 37 + (u32)g.below(1000); MSG("rune::from_digit", "from_digit() radix too large: " + z(radix) + " > 36", keep(best::rune::from_digit(1, radix))); }
  { MSG("a null dereference", "dereferenced a null `best::ptr`", best::ptr<int> p = nullptr; keep(*p)); }
  c.event("contract_rounds"); (void)total;
}
}  // namespace h27
