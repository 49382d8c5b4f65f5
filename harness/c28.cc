// C28: best::ioerr against the C library's own tables.
#include <cerrno>
#include <cstring>
#include <thread>
#include "vh.h"
#include "best/io/ioerr.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/text/format.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
namespace h28 {
using namespace vh;
static std::string S(best::str s) { return std::string(s.data(), s.size()); }
template <class T> static std::string shown(const T& v) { best::strbuf s = best::format("{}", v); return std::string(s.data(), s.size()); }
template <class T> static std::string dbg(const T& v) { best::strbuf s = best::format("{:?}", v); return std::string(s.data(), s.size()); }
// Every name the platform's headers give to the number.
static std::vector<std::string> names(int n) {
  std::vector<std::string> r; if (const char* a = strerrorname_np(n)) if (n) r.push_back(a); if (r.empty()) return r;
  if (n == EWOULDBLOCK) { r.push_back("EWOULDBLOCK"); r.push_back("EAGAIN"); } if (n == EDEADLOCK) { r.push_back("EDEADLOCK"); r.push_back("EDEADLK"); } if (n == ENOTSUP) { r.push_back("ENOTSUP"); r.push_back("EOPNOTSUPP"); } return r; }
static void judge(Ctx& c, int n) {
  best::ioerr e(n); auto all = names(n); std::string msg; { HeapPause hp; msg = strerror(n); }
  c.eval(); c.state(hcomb(1, (u64)(u32)n)); c.event(all.empty() ? "unknown_numbers" : "known_numbers");
  VH_CHECK(e.raw() == n && int(e) == n && e == n, "raw", "ioerr(%d) reports number %d", n, e.raw());
  best::option<best::str> name = e.name(), m = e.message(); std::string want;
  if (all.empty()) { VH_CHECK(name.is_empty() && m.is_empty(), "unknown", "ioerr(%d) is unknown to the platform but has the name %s and the message %s", n, name ? S(*name).c_str() : "(none)", m ? S(*m).c_str() : "(none)"); want = vh::fmt("Error %d: <unknown error>", n); }
  else {
    VH_CHECK(name.has_value() && std::find(all.begin(), all.end(), S(*name)) != all.end(), "name", "ioerr(%d) is named %s, must be %s", n, name ? S(*name).c_str() : "(none)", all[0].c_str());
    VH_CHECK(m.has_value() && S(*m) == msg, "message", "ioerr(%d) has the message %s, must be '%s'", n, m ? S(*m).c_str() : "(none)", msg.c_str());
    want = vh::fmt("Error %d: (%s), %s", n, S(*name).c_str(), msg.c_str()); }
  VH_CHECK(shown(e) == want, "printed", "ioerr(%d) prints as '%s', must be '%s'", n, shown(e).c_str(), want.c_str());
  VH_CHECK(dbg(e) == want, "printed", "ioerr(%d) prints (debug) as '%s', must be '%s'", n, dbg(e).c_str(), want.c_str());
  best::option<best::ioerr> o(e), none; VH_CHECK(o.has_value() && (*o).raw() == n, "option", "option(ioerr(%d)) holds %s", n, o ? std::to_string((*o).raw()).c_str() : "nothing");
  VH_CHECK(!none.has_value() && none.is_empty(), "option", "an empty option<ioerr> claims to hold %d", none.has_value() ? (*none).raw() : 0);
  VH_CHECK(dbg(o) == "option(" + want + ")", "printed", "option(ioerr(%d)) prints as '%s', must be 'option(%s)'", n, dbg(o).c_str(), want.c_str());
  VH_CHECK(o == best::option<best::ioerr>(best::ioerr(n)) && o != none, "option", "options of ioerr(%d) compare wrongly", n);
  { best::option<best::ioerr> moved = std::move(o); VH_CHECK(moved.has_value() && moved->raw() == n, "option", "moving option(ioerr(%d)) lost it", n); moved.reset(); VH_CHECK(moved.is_empty(), "option", "reset option of ioerr(%d) still has a value", n); moved.emplace(n); VH_CHECK(moved.has_value() && moved->raw() == n, "option", "emplacing ioerr(%d) gives %s", n, moved ? "another" : "nothing"); }
  { best::ioresult<best::strbuf> r = best::err(e); VH_CHECK(!r.is_ok() && r.err().has_value() && (*r.err()).raw() == n, "result", "an ioresult of ioerr(%d) does not hold it", n); VH_CHECK(dbg(r) == "err(" + want + ")", "printed", "err(ioerr(%d)) prints as '%s'", n, dbg(r).c_str()); r = best::ioresult<best::strbuf>(best::ok(best::strbuf("fine"))); VH_CHECK(r.is_ok(), "result", "an ioresult assigned a value is not ok"); }
  { best::vec<best::ioerr> v = {e, best::ioerr(ENOENT), e}; best::vec<best::ioerr> w = v; VH_CHECK(w.size() == 3 && w[0].raw() == n && w[1].raw() == ENOENT && w[2].raw() == n, "raw", "a copied list of ioerr(%d) differs", n); VH_CHECK(dbg(v) == "[" + want + ", Error 2: (ENOENT), No such file or directory, " + want + "]", "printed", "a list of ioerr(%d) prints as '%s'", n, dbg(v).c_str()); }
}
static int number(Rng& g) { switch (g.below(4)) { case 0: return 1 + (int)g.below(140); case 1: return 120 + (int)g.below(40); case 2: { int x = g.edge<int>(); return x > 0 ? x : 1 + (x == INT_MIN ? INT_MAX - 1 : -x - (x == 0 ? 0 : 1)); } default: return (int)(1 + g.below(0x7fffffff)); } }
// Every number up to 700, and then others.
VH_WORKLOAD(every_small_number, 70, 70) { for (int n = 1 + (int)c.idx * 10; n <= (int)c.idx * 10 + 10; n++) judge(c, n); if (c.idx < 3) c.sample(shown(best::ioerr(1 + (int)c.idx * 10))); }
VH_WORKLOAD(numbers, 1500, 40000) { judge(c, number(c.rng)); }
VH_WORKLOAD(pairs, 600, 10000) {
  auto& g = c.rng; for (int k = 0; k < 8; k++) { int a = number(g), b = g.chance(1, 3) ? a : g.flip() ? number(g) : a == INT_MAX ? a - 1 : a + 1; best::ioerr x(a), y(b); c.eval(); c.event("pairs");
    VH_CHECK((x == y) == (a == b) && (x != y) == (a != b), "equal", "ioerr(%d) == ioerr(%d) is %d", a, b, x == y); VH_CHECK((x == b) == (a == b), "equal", "ioerr(%d) == %d is %d", a, b, x == b);
    VH_CHECK((x < y) == (a < b), "equal", "ioerr(%d) < ioerr(%d) is %d", a, b, x < y); best::option<best::ioerr> p(x), q(y); VH_CHECK((p == q) == (a == b), "equal", "option(ioerr(%d)) == option(ioerr(%d)) is %d", a, b, p == q);
    y = x; VH_CHECK(y.raw() == a, "raw", "assigning ioerr(%d) gives %d", a, y.raw()); c.state(hcomb(2, hcomb((u32)a, (u32)b))); }
}
// The current error is that of the calling thread.
VH_WORKLOAD(current, 400, 6000) {
  auto& g = c.rng; int mine = g.chance(1, 5) ? 0 : number(g), theirs = g.chance(1, 5) ? 0 : number(g); c.eval(); c.state(hcomb(3, hcomb((u32)mine, (u32)theirs)));
  auto look = [&](int n, const char* who) { errno = n; best::ioresult<> r = best::ioerr::current(); int after = errno; errno = 0; VH_CHECK(after == n, "current", "looking at the current error %d left errno %d", n, after); if (n == 0) VH_CHECK(r.is_ok(), "current", "%s: no error is current but ioerr::current() reports one", who); else VH_CHECK(!r.is_ok() && (*r.err()).raw() == n, "current", "%s: the current error is %d but ioerr::current() reports %s", who, n, r.is_ok() ? "none" : std::to_string((*r.err()).raw()).c_str()); c.event("current_errors"); };
  look(mine, "this thread"); errno = mine; std::thread t([&] { look(theirs, "another thread"); }); t.join(); errno = mine; best::ioresult<> r = best::ioerr::current(); errno = 0; VH_CHECK(r.is_ok() == (mine == 0), "current", "the error of another thread replaced this thread's");
  // Real failures of the system.
  { FILE* f = fopen(g.flip() ? "/nonexistent/x" : "/proc", "w"); int e = errno; best::ioresult<> q = best::ioerr::current(); if (!f) { VH_CHECK(!q.is_ok() && (*q.err()).raw() == e, "current", "fopen failed with %d, current() differs", e); c.event("real_failures"); } else fclose(f); errno = 0; }
}
VH_WORKLOAD(not_errors, 40, 400) {
  auto& g = c.rng; int n = c.idx == 0 ? 0 : c.idx == 1 ? INT_MIN : c.idx == 2 ? -1 : -(int)g.below(0x7fffffff); DeathInfo d = in_child([&] { best::ioerr e(n); (void)e; }); c.eval(); c.event("rejected_numbers"); c.state(hcomb(4, (u32)n)); HeapPause hp;
  VH_CHECK(d.kind == Death::Crashed && d.err.find("best::ioerr must be positive: got " + std::to_string(n)) != std::string::npos, "nonpositive", "ioerr(%d) must crash: %s", n, d.err.substr(0, 300).c_str());
}
}  // namespace h28
