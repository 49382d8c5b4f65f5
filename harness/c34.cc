// C34: applications. Each case declares an app in a forked child and starts it with a generated command line; what ran,
// with which arguments, what was printed and the exit status are compared with what the signature and the line demand.
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
#include "vh.h"
#include "best/cli/app.h"
#include "best/cli/cli.h"
#include "best/container/result.h"
#include "best/container/vec.h"
#include "best/log/location.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
using namespace vh;
namespace h34 {
struct Flags {
  bool loud = false; int num = 7; best::vec<int> many; best::option<best::strbuf> word; best::vec<best::strbuf> rest;
  constexpr friend auto BestReflect(auto& m, Flags*) {
    return m.infer().with(best::cli::app{.about = "an app"}).with(&Flags::loud, best::cli::flag{.letter = 'l', .help = "be loud"}).with(&Flags::num, best::cli::flag{.letter = 'n', .arg = "N", .help = "a number"}).with(&Flags::many, best::cli::flag{.letter = 'm', .arg = "M", .help = "more"})
      .with(&Flags::word, best::cli::flag{.letter = 'w', .arg = "W", .help = "a word"}).with(&Flags::rest, best::cli::positional{.name = "REST", .help = "the rest"});
  }
};
struct Err { int code; friend void BestFmt(auto& f, const Err& e) { f.format("E#{}", e.code); } constexpr friend void BestFmtQuery(auto& q, Err*) { q.supports_width = true; } };
// What the child reports, in memory shared with it.
struct Log { int runs, argc, done, extra; char exe[256]; char args[16][256]; int len[16]; int elen; bool loud; int num; int many; char word[256]; int wlen; };
static Log* LOG; static int RET; static int MODE;
static std::string S(best::pretext<best::wtf8> s) { return std::string((const char*)s.data(), s.size()); }
static void put(char* to, int& n, const std::string& s) { n = (int)s.size(); memcpy(to, s.data(), std::min<size_t>(s.size(), 255)); }
static void seen() {
  LOG->runs++; put(LOG->exe, LOG->elen, S(best::app::exe())); auto a = best::app::argv(); LOG->argc = (int)a.size(); for (size_t i = 0; i < a.size() && i < 16; i++) put(LOG->args[i], LOG->len[i], S(a[i]));
}
static void seen(Flags& f) { seen(); LOG->loud = f.loud; LOG->num = f.num; LOG->many = (int)f.many.size(); unsigned s = 0; for (int x : f.many) s = s * 31 + (unsigned)x; for (auto& r : f.rest) for (unsigned char ch : std::string((const char*)r.data(), r.size()) + "\n") s = s * 31 + ch; LOG->extra = (int)s; if (f.word) put(LOG->word, LOG->wlen, std::string(f.word->data(), f.word->size())); else LOG->wlen = -1; }
static void v0() { seen(); LOG->done++; } static int i0() { seen(); LOG->done++; return RET; } static best::result<int, Err> r0() { seen(); LOG->done++; if (MODE) return best::err(Err{RET}); return best::ok(RET); }
static void v1(Flags& f) { seen(f); LOG->done++; } static int i1(Flags& f) { seen(f); LOG->done++; return RET; } static best::result<void, Err> r1(Flags& f) { seen(f); LOG->done++; if (MODE) return best::err(Err{RET}); return best::ok(); }
struct Run { DeathInfo d; std::string out; };
static Run run(const std::function<void()>& f) {
  memset(LOG, 0, sizeof *LOG); int m = memfd_create("out", 0); Run r;
  r.d = in_child([&] { dup2(m, 1); on_exit([](int st, void*) { fflush(nullptr); _exit(st); }, nullptr); f(); });
  off_t n = lseek(m, 0, SEEK_END); r.out.resize((size_t)n); if (n) { lseek(m, 0, SEEK_SET); size_t at = 0; while (at < (size_t)n) { ssize_t k = read(m, &r.out[at], (size_t)n - at); if (k <= 0) break; at += (size_t)k; } } close(m); return r;
}
static void start(const std::vector<std::string>& line) { std::vector<char*> v; for (auto& s : line) v.push_back(const_cast<char*>(s.c_str())); v.push_back(nullptr); best::app::start((int)line.size(), v.data()); }
static std::string joined(const std::vector<std::string>& l) { std::string s; for (auto& x : l) s += "[" + show(x) + "] "; return s; }
static bool sane(const Run& r) { return r.d.err.find("Sanitizer") == std::string::npos && r.d.err.find("runtime error") == std::string::npos && r.d.status < 1000; }
static std::string word(Rng& g) { std::string s; int n = (int)g.below(g.below(6) ? 8 : 120); bool wild = g.below(3) == 0; while (n--) s += (char)(wild ? 1 + g.below(255) : "abcXYZ019-= _.é"[g.below(14)]); return s; }
static void same_line(Ctx& c, const std::vector<std::string>& line, const Run& r) {
  std::string exe = line.empty() ? "" : line[0]; size_t n = line.empty() ? 0 : line.size() - 1;
  VH_CHECK(std::string(LOG->exe, (size_t)LOG->elen) == exe, "exe", "%s: exe() is %s", joined(line).c_str(), show(std::string(LOG->exe, (size_t)LOG->elen)).c_str()); VH_CHECK((size_t)LOG->argc == n, "argv", "%s: argv() has %d elements", joined(line).c_str(), LOG->argc);
  for (size_t i = 0; i < n && i < 16; i++) VH_CHECK(std::string(LOG->args[i], (size_t)LOG->len[i]) == line[i + 1], "argv", "%s: argument %zu is %s", joined(line).c_str(), i, show(std::string(LOG->args[i], (size_t)LOG->len[i])).c_str());
  c.event("arguments", n); (void)r;
}
VH_WORKLOAD(plain_apps, 800, 12000) {
  auto& g = c.rng; std::vector<std::string> line; int n = (int)g.below(8); for (int i = 0; i <= n; i++) line.push_back(word(g)); if (g.below(20) == 0) line.clear(); RET = (int)g.range(-300, 300); MODE = (int)g.below(2); int form = (int)g.below(6); c.eval();
  Run r = run([&] {
    switch (form) { case 0: { best::app a = v0; start(line); } case 1: { best::app a = i0; start(line); } case 2: { best::app a = r0; start(line); } case 3: { best::app a = [] { seen(); LOG->done++; }; start(line); } case 4: { best::app a = [] { seen(); LOG->done++; return RET; }; start(line); } default: { best::app a = []() -> best::result<best::vec<int>, best::strbuf> { seen(); LOG->done++; if (MODE) return best::err(best::strbuf("went wrong")); return best::ok(best::vec<int>{RET}); }; start(line); } }
  });
  std::string what = fmt("form %d, line %s", form, joined(line).c_str()); VH_CHECK(sane(r), "sanitizer", "%s: %s", what.c_str(), r.d.err.substr(0, 1500).c_str()); VH_CHECK(LOG->runs == 1 && LOG->done == 1, "runs", "%s: the function ran %d times", what.c_str(), LOG->runs); same_line(c, line, r);
  bool result = form == 2 || form == 5, crash = result && MODE; int want = crash ? 128 : form == 1 || form == 4 ? RET & 255 : 0;
  VH_CHECK(r.d.status == want, "status", "%s returning %d: exit status %d, must be %d: %s", what.c_str(), RET, r.d.status, want, r.d.err.substr(0, 600).c_str());
  if (crash) { std::string msg = form == 2 ? fmt("E#%d", RET) : "went wrong"; VH_CHECK(r.d.kind == Death::Crashed && r.d.err.find(msg) != std::string::npos, "error-message", "%s: a returned error is not shown: %s", what.c_str(), show(r.d.err.substr(0, 600)).c_str()); c.event("errors_returned"); } else VH_CHECK(r.d.err.empty(), "output", "%s printed %s", what.c_str(), show(r.d.err.substr(0, 300)).c_str());
  VH_CHECK(r.out.empty(), "output", "%s printed %s", what.c_str(), show(r.out.substr(0, 300)).c_str()); c.event("plain"); c.event(fmt("form_%d", form).c_str()); c.event(line.empty() ? "no_line" : "line"); c.state(hstr(what) + (u64)MODE);
}
VH_WORKLOAD(flag_apps, 1000, 16000) {
  auto& g = c.rng; std::vector<std::string> line = {g.flip() ? "prog" : "/a/b/the-prog"}; bool loud = false, bad = false, help = false; int num = 7, many = 0; unsigned s = 0; std::string wrd, rests; int wlen = -1; std::vector<int> ms;
  int n = (int)g.below(7); bool seen_l = false, seen_n = false, seen_w = false;
  for (int i = 0; i < n; i++) switch (g.below(9)) {
    case 0: if (!seen_l) { line.push_back(g.flip() ? "-l" : "--loud"); loud = seen_l = true; } break;
    case 1: if (!seen_n) { num = (int)g.range(-99, 99); seen_n = true; if (g.flip()) line.push_back(fmt("--num=%d", num)); else { line.push_back(g.flip() ? "-n" : "--num"); line.push_back(fmt("%d", num)); } } break;
    case 2: case 3: { int k = (int)g.range(0, 999); ms.push_back(k); many++; if (g.flip()) line.push_back(fmt("--many=%d", k)); else { line.push_back("-m"); line.push_back(fmt("%d", k)); } break; }
    case 4: if (!seen_w) { wrd = fmt("w%d é", (int)g.below(1000)); wlen = (int)wrd.size(); seen_w = true; line.push_back("--word"); line.push_back(wrd); } break;
    case 5: case 6: { std::string p = fmt("p%d", (int)g.below(100)); rests += p + "\n"; line.push_back(p); break; }
    case 7: if (g.below(4) == 0) { const char* bads[] = {"--nope", "-z", "--num=abc", "--many=", "--loud=x=y", "--num=99999999999"}; line.push_back(bads[g.below(6)]); bad = true; } break;
    default: if (g.below(6) == 0) { line.push_back(g.flip() ? "--help" : "-h"); help = true; } break;
  }
  for (int x : ms) s = s * 31 + (unsigned)x; for (unsigned char ch : rests) s = s * 31 + ch;
  RET = (int)g.range(0, 255); MODE = (int)g.below(2); int form = (int)g.below(4); c.eval();
  Run r = run([&] { switch (form) { case 0: { best::app a = v1; start(line); } case 1: { best::app a = i1; start(line); } case 2: { best::app a = r1; start(line); } default: { best::app a = [](Flags& f) { seen(f); LOG->done++; return RET; }; start(line); } } });
  std::string what = fmt("form %d, line %s", form, joined(line).c_str()); VH_CHECK(sane(r), "sanitizer", "%s: %s", what.c_str(), r.d.err.substr(0, 1500).c_str()); c.state(hstr(what) + (u64)MODE);
  // Whatever the parser itself says decides between running and reporting.
  std::vector<best::pretext<best::wtf8>> args; for (size_t i = 1; i < line.size(); i++) args.push_back(best::pretext<best::wtf8>::from_nul(line[i].c_str()));
  auto parsed = best::parse_flags<Flags>(best::pretext<best::wtf8>::from_nul(line[0].c_str()), best::span<const best::pretext<best::wtf8>>(args.data(), args.size()));
  if (parsed.err()) {
    VH_CHECK(bad || help, "parse", "%s is refused", what.c_str()); std::string msg(parsed.err()->message().data(), parsed.err()->message().size()); bool fatal = parsed.err()->is_fatal(); VH_CHECK(LOG->runs == 0, "ran-anyway", "%s: the function ran although the line is refused", what.c_str());
    if (fatal) { VH_CHECK(r.d.status == 128, "status", "%s: exit status %d of a refused line", what.c_str(), r.d.status); VH_CHECK(r.d.err == "\x1b[31m" + msg + "\x1b[0m\n" && r.out.empty(), "message", "%s: printed %s and %s, must be %s on the standard error", what.c_str(), show(r.d.err).c_str(), show(r.out).c_str(), show(msg).c_str()); c.event("refused"); VH_CHECK(bad, "fatal", "%s is refused as an error", what.c_str()); }
    else { VH_CHECK(r.d.status == 0, "status", "%s: exit status %d after the usage", what.c_str(), r.d.status); VH_CHECK(r.out == msg + "\n" && r.d.err.empty(), "message", "%s: printed %s and %s, must be the usage on the standard output", what.c_str(), show(r.out.substr(0, 300)).c_str(), show(r.d.err).c_str()); c.event("usage"); VH_CHECK(help, "usage", "%s gives the usage", what.c_str()); }
    return;
  }
  VH_CHECK(!bad && !help, "parse", "%s is accepted", what.c_str()); VH_CHECK(LOG->runs == 1 && LOG->done == 1, "runs", "%s: the function ran %d times", what.c_str(), LOG->runs); same_line(c, line, r);
  VH_CHECK(LOG->loud == loud && LOG->num == num && LOG->many == many && LOG->extra == (int)s && LOG->wlen == wlen && (wlen < 0 || std::string(LOG->word, (size_t)wlen) == wrd), "flags", "%s: the function saw other flags: loud %d num %d many %d word %d", what.c_str(), LOG->loud, LOG->num, LOG->many, LOG->wlen);
  bool crash = form == 2 && MODE; int want = crash ? 128 : form == 1 || form == 3 ? RET : 0; VH_CHECK(r.d.status == want, "status", "%s returning %d: exit status %d, must be %d", what.c_str(), RET, r.d.status, want); if (crash) VH_CHECK(r.d.err.find(fmt("E#%d", RET)) != std::string::npos, "error-message", "%s: %s", what.c_str(), show(r.d.err).c_str()); else VH_CHECK(r.d.err.empty() && r.out.empty(), "output", "%s printed %s%s", what.c_str(), show(r.out).c_str(), show(r.d.err).c_str()); c.event("with_flags"); c.event(fmt("flag_form_%d", form).c_str());
}
static int again() { seen(); start({"x", "y"}); return 3; }
VH_WORKLOAD(misuse, 60, 800) {
  auto& g = c.rng; std::vector<std::string> line = {word(g), word(g)}; int kind = (int)(c.idx % 4); c.eval(); Run r; std::string l1, l2;
  switch (kind) {
    case 0: r = run([&] { start(line); }); VH_CHECK(r.d.kind == Death::Crashed && r.d.status == 128 && r.d.err.find("no apps") != std::string::npos, "no-app", "start() without an app: status %d, %s", r.d.status, show(r.d.err).c_str()); break;
    case 1: { static int first, second; first = __LINE__ + 1; second = __LINE__ + 2;
      r = run([&] { best::app a = v0;
        best::app b = v0; start(line); });
      VH_CHECK(r.d.kind == Death::Crashed && r.d.err.find(fmt("c34.cc:%d", first)) != std::string::npos && r.d.err.find(fmt("c34.cc:%d", second), r.d.err.find(fmt("c34.cc:%d", first))) != std::string::npos, "two-apps", "two apps: status %d, %s", r.d.status, show(r.d.err).c_str()); break; }
    case 2: r = run([&] { best::app a = again; start(line); }); VH_CHECK(r.d.kind == Death::Crashed && LOG->runs == 1 && r.d.err.find("twice") != std::string::npos, "twice", "start() within the app: ran %d times, status %d, %s", LOG->runs, r.d.status, show(r.d.err).c_str()); break;
    default: { std::string e = S(best::app::exe()); VH_CHECK(e.empty() && best::app::argv().size() == 0, "before", "before start(), exe() is %s and argv() has %zu elements", show(e).c_str(), best::app::argv().size()); }
  }
  if (kind < 3) { VH_CHECK(LOG->runs == (kind == 2), "runs", "misuse %d ran the function %d times", kind, LOG->runs); } c.event("misuses"); c.event(fmt("misuse_%d", kind).c_str()); c.state(hstr(joined(line)) + (u64)kind);
}
static struct Init { Init() { LOG = (Log*)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } } init;
}  // namespace h34
