// C35: the unit test library. Global tests whose bodies follow a seeded scenario are run, in forked children, through
// run_all() and through the real test application; what the run printed, returned and executed is compared with the scenario.
#include <sys/mman.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include "vh.h"
#include "best/cli/app.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/test/test.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
using namespace vh;
namespace h35 {
struct Step { int kind, type, op; i64 a, b; int msg; };
struct Failure { std::string where, a, b, msg, word; };
struct Scenario { std::vector<Step> steps; };
struct Shared { int order[256], n, wrong; char why[400]; int passed[32]; };
static Shared* SH; static std::vector<Scenario> SC; constexpr int N = 14;
static std::vector<std::vector<Failure>> WANT;  // per test
static std::string S(best::str s) { return std::string(s.data(), s.size()); }
struct Opaque { i64 v; constexpr bool operator==(const Opaque&) const = default; constexpr auto operator<=>(const Opaque&) const = default; };
static std::string WHERE(int line) { return fmt("c35.cc:%d", line); }
template <class T> static std::string dbg(const T& v) { best::strbuf s = best::format("{:?}", v); return S(s); }
static void got(bool have, bool want, const Step& s, const char* what) { if (have != want && !SH->wrong++) snprintf(SH->why, sizeof SH->why, "%s(%lld, %lld) of type %d returned %d, must be %d", what, (long long)s.a, (long long)s.b, s.type, have, want); }
static const char* OPS[] = {"expect_eq", "expect_ne", "expect_lt", "expect_le", "expect_gt", "expect_ge"};
static bool judge(int op, auto a, auto b) { switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
static std::string note(const Step& s) { return s.msg == 1 ? "plain words" : s.msg == 2 ? fmt("args %lld and \"t\"", (long long)s.a) : ""; }
// One comparison, as a test body would write it: `line` is where the call is written.
#define CMP1(t, name, A, B, s, want, line) ((s).msg == 0 ? (line = __LINE__, (t).name(A, B)) : (s).msg == 1 ? (line = __LINE__, (t).name(A, B, "plain words")) : (line = __LINE__, (t).name(A, B, "args {} and {:?}", (s).a, best::str("t"))))
#define CMP(A, B, want) do { int line = 0; bool w = (want), r; switch (s.op) { case 0: r = CMP1(t, expect_eq, A, B, s, w, line); break; case 1: r = CMP1(t, expect_ne, A, B, s, w, line); break; case 2: r = CMP1(t, expect_lt, A, B, s, w, line); break; case 3: r = CMP1(t, expect_le, A, B, s, w, line); break; case 4: r = CMP1(t, expect_gt, A, B, s, w, line); break; default: r = CMP1(t, expect_ge, A, B, s, w, line); } if (real) got(r, w, s, OPS[s.op]); if (!w) out.push_back({WHERE(line), dbg(best::make_formattable(A)), dbg(best::make_formattable(B)), note(s), OPS[s.op]}); } while (0)
// A stand-in which records where the calls are written, so that the expectations come from the same lines.
struct Dry { template <class... X> bool expect(bool c, const X&...) { return c; } template <class... X> void fail(const X&...) {}
#define D(n) template <class A, class B, class... X> bool n(const A&, const B&, const X&...) { return true; }
  D(expect_eq) D(expect_ne) D(expect_lt) D(expect_le) D(expect_gt) D(expect_ge) };
static best::strbuf text(i64 v) { return best::format("s{}é", v); }
template <bool real> static void play(auto& t, const Scenario& sc, std::vector<Failure>& out) {
  for (const Step& s : sc.steps) switch (s.kind) {
    case 0: { bool c = s.a < s.b; int line; bool r = s.msg == 0 ? (line = __LINE__, t.expect(c)) : s.msg == 1 ? (line = __LINE__, t.expect(c, "plain words")) : (line = __LINE__, t.expect(c, "args {} and {:?}", s.a, best::str("t"))); if (real) got(r, c, s, "expect"); if (!c) out.push_back({WHERE(line), "", "", note(s), "expect"}); break; }
    case 1: { int line; if (s.msg == 0) { line = __LINE__; t.fail(); } else if (s.msg == 1) { line = __LINE__; t.fail("plain words"); } else { line = __LINE__; t.fail("args {} and {:?}", s.a, best::str("t")); } out.push_back({WHERE(line), "", "", note(s), "failed"}); break; }
    default: switch (s.type) {
      case 0: CMP((int)s.a, (int)s.b, judge(s.op, s.a, s.b)); break;
      case 1: { short a = (short)s.a; long long b = s.b; CMP(a, b, judge(s.op, s.a, s.b)); break; }
      case 2: { double a = s.a == 3 ? NAN : (double)s.a / 2, b = s.b == 4 ? NAN : (double)s.b / 2; CMP(a, b, judge(s.op, a, b)); break; }
      case 3: { best::strbuf a = text(s.a), b = text(s.b); CMP(a.as_text(), b.as_text(), judge(s.op, S(a), S(b))); break; }
      case 4: { best::vec<int> a, b; std::vector<int> x, y; for (int i = 0; i < s.a % 4; i++) { a.push(i); x.push_back(i); } for (int i = 0; i < s.b % 4; i++) { b.push(i); y.push_back(i); } CMP(a, b, judge(s.op, x, y)); break; }
      case 5: { best::option<int> a, b; std::optional<int> x, y; if (s.a % 3) { a = (int)s.a; x = (int)s.a; } if (s.b % 3) { b = (int)s.b; y = (int)s.b; } CMP(a, b, judge(s.op, x, y)); break; }
      case 6: { Opaque a{s.a}, b{s.b}; CMP(a, b, judge(s.op, s.a, s.b)); break; }
      default: { best::row<int, bool> a((int)(s.a / 3), s.a % 3 == 0), b((int)(s.b / 3), s.b % 3 == 0); CMP(a, b, judge(s.op, std::make_tuple(s.a / 3, s.a % 3 == 0), std::make_tuple(s.b / 3, s.b % 3 == 0))); break; }
    }
  }
}
static void body(best::test& t, int i) { if (SH->n < 256) SH->order[SH->n] = i; SH->n++; std::vector<Failure> out; if (i < (int)SC.size()) play<true>(t, SC[i], out); }
}  // namespace h35
#define T35(name, i) best::test name = [](auto& t) { h35::body(t, i); }; static constexpr int line_##name = __LINE__;
T35(Alpha, 0) T35(AlphaBeta, 1) T35(Beta, 2) T35(Gamma1, 3) T35(Gamma11, 4) T35(gamma111, 5)
T35(x_Alpha_y, 6)
T35(Z, 7)
T35(Zz, 8)
T35(AVeryLongNameOfATestWhichGoesOnAndOnForQuiteSomeTimeSoThatNothingShortFitsAnywhereInline, 9)
namespace suite { T35(Alpha, 10) T35(Inner, 11) namespace deep { T35(Beta, 12) } }
best::test Last([](best::test& t) { h35::body(t, 13); });
namespace h35 {
static best::test* TESTS[] = {&::Alpha, &::AlphaBeta, &::Beta, &::Gamma1, &::Gamma11, &::gamma111, &::x_Alpha_y, &::Z, &::Zz, &::AVeryLongNameOfATestWhichGoesOnAndOnForQuiteSomeTimeSoThatNothingShortFitsAnywhereInline, &suite::Alpha, &suite::Inner, &suite::deep::Beta, &::Last};
static const char* NAMES[] = {"Alpha", "AlphaBeta", "Beta", "Gamma1", "Gamma11", "gamma111", "x_Alpha_y", "Z", "Zz", "AVeryLongNameOfATestWhichGoesOnAndOnForQuiteSomeTimeSoThatNothingShortFitsAnywhereInline", "Alpha", "Inner", "Beta", "Last"};
static std::string plain(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') i++; continue; } r += s[i]; } return r; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; size_t at = 0; while (at < s.size()) { size_t e = s.find('\n', at); if (e == std::string::npos) e = s.size(); r.push_back(s.substr(at, e - at)); at = e + 1; } return r; }
static void plan(Rng& g) {
  SC.assign(N, {}); WANT.assign(N, {}); int mood = (int)g.below(4);
  for (int i = 0; i < N; i++) { int n = (int)g.below(6); if (mood == 0 || (mood == 1 && i != (int)g.below(N))) { while (n--) { i64 a = g.range(-5, 20); SC[i].steps.push_back({2, 0, 0, a, a, (int)g.below(3)}); } } else while (n--) { i64 a = g.range(0, 12), b = g.below(3) ? g.range(0, 12) : a; SC[i].steps.push_back({(int)(g.below(8) ? g.below(8) ? 2 : 0 : 1), (int)g.below(8), (int)g.below(6), a, b, (int)g.below(3)}); if (mood == 2 && SC[i].steps.back().kind == 1 && g.flip()) SC[i].steps.back().kind = 2; }
    Dry d; play<false>(d, SC[i], WANT[i]); }
}
static std::string filter(Rng& g) { static const char* odd[] = {"nothing like it", "Alpha", "Beta", "1", "gamma", "Gamma", "z", "Zz", "_", "suite", "deep", "LastLast", "é"}; if (g.flip()) return odd[g.below(13)]; std::string n = NAMES[g.below(N)]; size_t at = g.below(n.size()), len = 1 + g.below(n.size() - at); return n.substr(at, len); }
static std::string name_of(int i) { return S(TESTS[i]->name()); }
static std::vector<int> chosen(const std::vector<std::string>& skip, const std::vector<std::string>& keep) { std::vector<int> r; for (int i = 0; i < N; i++) { bool in = keep.empty(); for (auto& k : keep) if (name_of(i).find(k) != std::string::npos) in = true; for (auto& k : skip) if (name_of(i).find(k) != std::string::npos) in = false; if (in) r.push_back(i); } return r; }
// The transcript of a run against the scenario.
static void judge_run(Ctx& c, const std::string& what, const std::string& err, const std::vector<int>& sel) {
  std::vector<std::string> ls = lines(plain(err)); size_t at = 0; std::vector<int> ok, bad; for (int i : sel) (WANT[i].empty() ? ok : bad).push_back(i);
  VH_CHECK(SH->n == (int)sel.size(), "executed", "%s: %d tests were executed, %zu are selected", what.c_str(), SH->n, sel.size()); for (size_t i = 0; i < sel.size() && (int)i < SH->n; i++) VH_CHECK(SH->order[i] == sel[i], "executed", "%s: test %d (%s) ran as number %zu, must be test %d (%s)", what.c_str(), SH->order[i], name_of(SH->order[i]).c_str(), i, sel[i], name_of(sel[i]).c_str());
  VH_CHECK(!SH->wrong, "returned", "%s: %s", what.c_str(), SH->why);
  auto find = [&](auto pred) { while (at < ls.size() && !pred(ls[at])) at++; return at < ls.size(); };
  auto banner = [](const std::string& l) { return l.rfind("[ ", 0) == 0 && l.size() > 3 && l.substr(l.size() - 2) == " ]"; };
  for (int i : sel) {
    std::string start = "[ TEST: " + name_of(i) + " ]"; if (!find(banner) || ls[at] != start) { VH_FAIL("transcript", "%s: after %s, the line %s, must be %s", what.c_str(), i == sel[0] ? "nothing" : "the previous test", at < ls.size() ? show(ls[at]).c_str() : "(end)", start.c_str()); return; }
    size_t from = ++at; if (!find(banner)) { VH_FAIL("transcript", "%s: no verdict for %s", what.c_str(), name_of(i).c_str()); return; }
    std::string verdict = fmt("[ %s: %s ]", WANT[i].empty() ? "Ok" : "FAIL", name_of(i).c_str()); VH_CHECK(ls[at] == verdict, "verdict", "%s: %s is reported as %s, must be %s (%zu failures)", what.c_str(), name_of(i).c_str(), show(ls[at]).c_str(), verdict.c_str(), WANT[i].size());
    std::string text; size_t fails = 0; for (size_t k = from; k < at; k++) { text += ls[k] + "\n"; fails += ls[k].rfind("failed ", 0) == 0; } at++;
    VH_CHECK(fails == WANT[i].size(), "failures", "%s: %zu failures of %s are reported, must be %zu: %s", what.c_str(), fails, name_of(i).c_str(), WANT[i].size(), show(text.substr(0, 800)).c_str()); if (WANT[i].empty()) VH_CHECK(text.empty(), "noise", "%s: %s printed %s", what.c_str(), name_of(i).c_str(), show(text).c_str());
    size_t p = 0; for (auto& f : WANT[i]) for (const std::string& part : {f.word, f.where, f.a, f.b, f.msg}) { size_t q = text.find(part, p); if (q == std::string::npos) { VH_FAIL("report", "%s: the report of %s lacks %s (of %s at %s: %s, %s, %s): %s", what.c_str(), name_of(i).c_str(), show(part).c_str(), f.word.c_str(), f.where.c_str(), f.a.c_str(), f.b.c_str(), f.msg.c_str(), show(text.substr(0, 1500)).c_str()); p = text.size(); break; } p = q + part.size(); }
    c.event("failures", WANT[i].size()); c.event(WANT[i].empty() ? "passed_tests" : "failed_tests");
  }
  if (!find(banner) || ls[at] != "[ RESULTS ]") { VH_FAIL("transcript", "%s: no results, but %s", what.c_str(), at < ls.size() ? show(ls[at]).c_str() : "(end)"); return; } at++;
  std::vector<std::string> rest, want; for (; at < ls.size(); at++) if (!ls[at].empty()) rest.push_back(ls[at]);
  if (!ok.empty()) { want.push_back(fmt("passed %zu test(s)", ok.size())); for (int i : ok) want.push_back(" * " + name_of(i)); } if (!bad.empty()) { want.push_back(fmt("failed %zu test(s)", bad.size())); for (int i : bad) want.push_back(" * " + name_of(i)); }
  std::string r, w; for (auto& l : rest) r += l + "\n"; for (auto& l : want) w += l + "\n"; VH_CHECK(r == w, "results", "%s: the results are %s, must be %s", what.c_str(), show(r).c_str(), show(w).c_str());
}
static DeathInfo run(const std::function<void()>& f) { memset(SH, 0, sizeof *SH); return in_child([&] { on_exit([](int st, void*) { fflush(nullptr); _exit(st); }, nullptr); f(); }); }
static std::string joined(const std::vector<std::string>& l) { std::string s; for (auto& x : l) s += "[" + show(x) + "] "; return s; }
static best::strbuf B(const std::string& s) { return *best::strbuf::from(best::span<const char>(s.data(), s.size())); }
VH_WORKLOAD(run_all, 500, 10000) {
  auto& g = c.rng; plan(g); std::vector<std::string> skip, keep; if (g.below(3) == 0) for (int n = (int)g.below(3); n--;) skip.push_back(g.below(12) ? filter(g) : ""); if (g.below(3) == 0) for (int n = (int)g.below(4); n--;) keep.push_back(g.below(12) ? filter(g) : ""); std::vector<int> sel = chosen(skip, keep); bool pass = true; for (int i : sel) pass &= WANT[i].empty();
  DeathInfo d = run([&] { best::test::flags f; for (auto& s : skip) f.skip.push(B(s)); for (auto& s : keep) f.filters.push(B(s)); bool r = best::test::run_all(f); exit(r ? 10 : 11); });
  std::string what = fmt("skipping %s keeping %s", joined(skip).c_str(), joined(keep).c_str()); VH_CHECK(d.status == (pass ? 10 : 11), "outcome", "%s: run_all() gives %d, must be %d: %s", what.c_str(), d.status, pass ? 10 : 11, d.err.substr(0, 1500).c_str()); judge_run(c, what, d.err, sel);
  c.eval(sel.size()); c.event("runs"); c.event(pass ? "all_passed" : "some_failed"); if (sel.empty()) c.event("nothing_selected"); if (!skip.empty()) c.event("skips"); if (!keep.empty()) c.event("filters"); u64 h = hstr(what); for (auto& w : WANT) for (auto& f : w) h = h * 31 + hstr(f.where + f.a + f.b + f.msg); c.state(h);
}
VH_WORKLOAD(test_app, 300, 6000) {
  auto& g = c.rng; plan(g); std::vector<std::string> skip, keep, line = {"the-tests"}; for (int n = (int)g.below(5); n--;) { std::string f = filter(g); if (g.flip()) { skip.push_back(f); if (g.flip()) line.push_back("--skip=" + f); else { line.push_back("--skip"); line.push_back(f); } } else { keep.push_back(f); line.push_back(f); } } std::vector<int> sel = chosen(skip, keep); bool pass = true; for (int i : sel) pass &= WANT[i].empty();
  DeathInfo d = run([&] { std::vector<char*> v; for (auto& s : line) v.push_back(const_cast<char*>(s.c_str())); v.push_back(nullptr); best::app::start((int)line.size(), v.data()); });
  std::string what = joined(line); VH_CHECK(d.status == !pass, "exit-status", "%s: exit status %d, must be %d: %s", what.c_str(), d.status, !pass, d.err.substr(0, 1500).c_str()); judge_run(c, what, d.err, sel); c.eval(sel.size()); c.event("app_runs"); c.event(pass ? "exit_0" : "exit_1"); c.state(hstr(what) + sel.size());
}
VH_WORKLOAD(single_runs, 300, 6000) {
  auto& g = c.rng; plan(g); int n = 1 + (int)g.below(12); std::vector<int> which; bool bare = g.flip(); for (int i = 0; i < n; i++) which.push_back((int)g.below(N)); std::vector<Scenario> keep = SC; std::vector<int> want; for (int k = 0; k < n; k++) want.push_back((k % 3 == 2 && bare) || WANT[which[k]].empty());
  DeathInfo d = run([&] { for (int k = 0; k < n; k++) { if (k % 3 == 2 && bare) { SC = std::vector<Scenario>(N); } else SC = keep; SH->passed[k] = TESTS[which[k]]->run(); } exit(0); });
  VH_CHECK(d.status == 0, "abnormal", "status %d: %s", d.status, d.err.substr(0, 1500).c_str()); VH_CHECK(SH->n == n && !SH->wrong, "executed", "%d runs of %d; %s", SH->n, n, SH->why); for (int k = 0; k < n; k++) VH_CHECK(SH->passed[k] == want[k] && SH->order[k] == which[k], "run", "run %d of %d, of %s, gives %d, must be %d", k, n, name_of(which[k]).c_str(), SH->passed[k], want[k]);
  c.eval((u64)n); c.event("single_runs", (u64)n); u64 h = (u64)n; for (int k : which) h = h * 31 + (u64)k; c.state(h * 2 + bare);
}
VH_WORKLOAD(identities, 1, 1) {
  int ls[N] = {line_Alpha, line_AlphaBeta, line_Beta, line_Gamma1, line_Gamma11, line_gamma111, line_x_Alpha_y, line_Z, line_Zz, line_AVeryLongNameOfATestWhichGoesOnAndOnForQuiteSomeTimeSoThatNothingShortFitsAnywhereInline, suite::line_Alpha, suite::line_Inner, suite::deep::line_Beta, 0};
  for (int i = 0; i < N; i++) { std::string n = name_of(i); c.eval(); c.event("names"); VH_CHECK(i < 10 || i == 13 ? n == NAMES[i] : n.find(NAMES[i]) != std::string::npos && n.find("suite") != std::string::npos, "name", "the test %s is named %s", NAMES[i], n.c_str()); best::location l = TESTS[i]->where(); std::string f = S(l.file()); VH_CHECK((!ls[i] || (int)l.line() == ls[i]) && f.size() >= 6 && f.substr(f.size() - 6) == "c35.cc", "where", "the test %s is said to be at %s:%d, not line %d", NAMES[i], f.c_str(), (int)l.line(), ls[i]); for (int k = 0; k < i; k++) VH_CHECK(name_of(k) != n, "name", "two tests are named %s", n.c_str()); c.state(hstr(n)); }
}
// A test in a translation unit that the program happens to initialize before the library's own one. It is made only in a
// fresh process that asks for it, so that the other runs are not affected.
}  // namespace h35
alignas(best::test) char EarlyBird[sizeof(best::test)];
namespace h35 {
static int early_runs;
__attribute__((constructor(200))) static void make_early() { if (getenv("H35_EARLY")) new (EarlyBird) best::test([](best::test&) { early_runs++; }); }
VH_WORKLOAD(registered_early, 1, 1) {
  if (getenv("H35_EARLY")) { plan(c.rng); best::test::flags f; (void)best::test::run_all(f); fflush(nullptr); _exit(SH->n != N ? 20 : early_runs == 1 ? 10 : early_runs == 0 ? 11 : 12); }
  DeathInfo d = in_child([&] { setenv("H35_EARLY", "1", 1); char* v[] = {(char*)"early", (char*)"--workload", (char*)"registered_early", (char*)"--from", (char*)"0", (char*)"--to", (char*)"1", nullptr}; execv("/proc/self/exe", v); _exit(30); });
  c.eval(); c.event("early_processes"); if (d.status == 11) VH_FAIL("registered-before-the-library", "a test that is initialized before best/test/test.cc is never run"); else VH_CHECK(d.status == 10, "early-registration", "a test that is initialized before best/test/test.cc: status %d: %s", d.status, d.err.substr(0, 600).c_str());
}
static struct Init { Init() { SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } } init;
}  // namespace h35
