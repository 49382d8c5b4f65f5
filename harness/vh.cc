#include "vh.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <unordered_set>
#include <algorithm>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif
extern "C" const char* __asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=3000:hard_rss_limit_mb=3500:quarantine_size_mb=64:malloc_context_size=6:handle_segv=1:handle_abort=1:handle_sigill=1:handle_sigfpe=1:check_initialization_order=0:symbolize=1"; }
extern "C" const char* __ubsan_default_options() { return "exitcode=99:print_stacktrace=1:halt_on_error=1"; }

namespace vh {
namespace {
std::vector<Workload>& reg() { static auto* v = new std::vector<Workload>; return *v; }
struct Shared { volatile u64 cur_case; volatile u64 in_case; char workload[120]; };
Shared* shared; Shared dummy_shared;
i64 g_blocks, g_bytes; int g_pause; pid_t g_main;
struct Record { std::string key, detail, workload; u64 idx, count; };
std::map<std::string, Record>& recs() { static auto* m = new std::map<std::string, Record>; return *m; }
std::map<std::string, u64>& events() { static auto* m = new std::map<std::string, u64>; return *m; }
std::unordered_set<u64>& states() { static auto* m = new std::unordered_set<u64>; return *m; }
std::vector<std::string>& samples() { static auto* m = new std::vector<std::string>; return *m; }
u64 g_evals, g_cases; u64 state_drop;
FILE* g_out; std::string g_outpath;
int g_devnull = -1;

#ifdef VH_ASAN
void on_malloc(const volatile void*, size_t n) { if (!g_pause) { g_blocks++; g_bytes += n; } }
void on_free(const volatile void* p) { if (!g_pause && p) { g_blocks--; } }
#endif
void on_prof(int) {
  static const char m[] = "VH_HANG: case exceeded its CPU budget\n";
  (void)!write(2, m, sizeof m - 1); _exit(98);
}
void arm(int sec) { struct itimerval t = {}; t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }
std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) { char b[8]; if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; }
  return o + "\"";
}
}  // namespace

void heap_pause(bool p) { g_pause += p ? 1 : -1; }
Heap heap_now() { return {g_blocks, g_bytes}; }
bool heap_supported() {
#ifdef VH_ASAN
  return true;
#else
  return false;
#endif
}
void Ctx::event(const char* n, u64 k) { HeapPause _; events()[n] += k; }
void Ctx::state(u64 h) { HeapPause _; if (states().size() < 400000) states().insert(h); else state_drop++; }
void Ctx::eval(u64 n) { g_evals += n; }
void Ctx::sample(const std::string& s) { HeapPause _; if (samples().size() < 3) samples().push_back(std::string(workload) + ": " + s); }
bool failed_already(const char* k) { return recs().count(k); }
void fail(Ctx& c, const char* key, const char* file, int line, const char* f, ...) {
  HeapPause _;
  auto& r = recs()[key];
  r.count++;
  if (r.count > 1) return;
  char buf[4096]; va_list va; va_start(va, f); vsnprintf(buf, sizeof buf, f, va); va_end(va);
  const char* b = strrchr(file, '/'); b = b ? b + 1 : file;
  char loc[256]; snprintf(loc, sizeof loc, " [%s:%d]", b, line);
  r.key = key; r.detail = std::string(buf) + loc; r.workload = c.workload; r.idx = c.idx;
  fprintf(stderr, "VH_FAIL key=%s workload=%s case=%llu: %s\n", key, c.workload, (unsigned long long)c.idx, r.detail.c_str());
  fflush(stderr);
}
DeathInfo in_child(const std::function<void()>& f) {
  HeapPause _;
  int fds[2]; if (pipe(fds)) { perror("pipe"); _exit(97); }
  fflush(stdout); fflush(stderr); if (g_out) fflush(g_out);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(97); }
  if (pid == 0) {
    close(fds[0]); dup2(fds[1], 2); dup2(g_devnull, 1); close(fds[1]);
    arm(20);
    g_pause = 0;
    f();
    _exit(77);
  }
  close(fds[1]);
  DeathInfo d; char buf[4096]; bool timed_out = false;
  time_t start = time(nullptr);
  for (;;) {
    struct pollfd p = {fds[0], POLLIN, 0};
    int r = poll(&p, 1, 5000);
    if (r < 0 && errno == EINTR) continue;
    if (r == 0) { if (time(nullptr) - start > 180) { kill(pid, SIGKILL); timed_out = true; break; } continue; }
    ssize_t n = read(fds[0], buf, sizeof buf);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) break;
    if (d.err.size() < 400000) d.err.append(buf, n);
  }
  close(fds[0]);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  d.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  bool san = d.err.find("ERROR: AddressSanitizer") != std::string::npos || d.err.find("SUMMARY: ") != std::string::npos || d.err.find("runtime error") != std::string::npos || timed_out;
  if (!san && d.status == 128 && d.err.find("libbest:") != std::string::npos) d.kind = Death::Crashed;
  else if (!san && d.status == 77) d.kind = Death::Survived;
  else d.kind = Death::Bad;
  return d;
}
void must_crash(Ctx& c, const char* key, const char* file, int line, const std::string& what, const std::function<void()>& f, const char* msg) {
  DeathInfo d = in_child(f);
  HeapPause _;
  c.event("death_children");
  c.eval();
  if (d.kind != Death::Crashed) {
    fail(c, key, file, line, "%s: expected the library to crash cleanly, got %s (status %d): %s", what.c_str(), d.kind == Death::Survived ? "normal return" : "abnormal end", d.status, d.err.substr(0, 1500).c_str());
  } else if (msg && d.err.find(msg) == std::string::npos) {
    fail(c, key, file, line, "%s: crash message lacks '%s': %s", what.c_str(), msg, d.err.substr(0, 600).c_str());
  }
}
Reg::Reg(const char* name, u64 q, u64 t, Fn fn) { reg().push_back({name, q, t, fn}); }
std::string fmt(const char* f, ...) { char b[2048]; va_list va; va_start(va, f); int n = vsnprintf(b, sizeof b, f, va); va_end(va); if (n < (int)sizeof b) return b; std::string s(n + 1, 0); va_start(va, f); vsnprintf(s.data(), n + 1, f, va); va_end(va); s.resize(n); return s; }
std::string show(const std::string& s) { std::string o = "\""; for (unsigned char ch : s) { if (ch >= 0x20 && ch < 0x7f && ch != '"' && ch != '\\') o += ch; else o += fmt("\\x%02x", ch); } return o + "\""; }
std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + int(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
std::string i128s(i128 v) { return v < 0 ? "-" + u128s(-(u128)v) : u128s((u128)v); }
}  // namespace vh

int main(int argc, char** argv) {
  using namespace vh;
  u64 seed = 1, from = 0, to = 0; bool thorough = false, list = false; std::string wl, statusf, outf; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto v = [&] { return std::string(argv[++i]); };
    if (a == "--list") list = true;
    else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
    else if (a == "--workload") wl = v();
    else if (a == "--from") from = strtoull(v().c_str(), 0, 10);
    else if (a == "--to") to = strtoull(v().c_str(), 0, 10);
    else if (a == "--thorough") thorough = true;
    else if (a == "--status") statusf = v();
    else if (a == "--out") outf = v();
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 96; }
  }
  if (list) { for (auto& w : reg()) printf("%s %llu %llu\n", w.name, (unsigned long long)w.quick, (unsigned long long)w.thorough); return 0; }
  g_devnull = open("/dev/null", O_RDWR);
  shared = &dummy_shared;
  if (!statusf.empty()) {
    int fd = open(statusf.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("status"); return 97; }
    shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (shared == MAP_FAILED) { perror("mmap"); return 97; }
  }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPROF, on_prof); signal(SIGPIPE, SIG_IGN);
  g_main = getpid();
#ifdef VH_ASAN
  __sanitizer_install_malloc_and_free_hooks(&on_malloc, &on_free);
#endif
  Workload* w = nullptr; for (auto& x : reg()) if (wl == x.name) w = &x;
  if (!w) { fprintf(stderr, "no workload %s\n", wl.c_str()); return 96; }
  u64 total = thorough ? w->thorough : w->quick;
  snprintf(shared->workload, sizeof shared->workload, "%s", w->name);
  u64 wh = hbytes(w->name, strlen(w->name));
  for (u64 i = from; i < to; i++) {
    shared->cur_case = i; shared->in_case = 1;
    arm(60);
    Ctx c{Rng(hcomb(hcomb(seed, wh), i)), w->name, i, total, thorough};
    w->fn(c);
    g_cases++;
    size_t tot = 0; for (auto& r : recs()) tot += r.second.count;
    if (recs().size() >= 8 || tot > 2000) break;
  }
  arm(0); shared->in_case = 0;
  heap_pause(true);
  if (!outf.empty()) {
    FILE* o = fopen(outf.c_str(), "w"); if (!o) { perror("out"); return 97; }
    fprintf(o, "{\"cases\":%llu,\"evals\":%llu,\"state_drop\":%llu,\"fails\":[", (unsigned long long)g_cases, (unsigned long long)g_evals, (unsigned long long)state_drop);
    bool first = true;
    for (auto& [k, r] : recs()) { fprintf(o, "%s{\"key\":%s,\"detail\":%s,\"workload\":%s,\"case\":%llu,\"count\":%llu}", first ? "" : ",", jstr(k).c_str(), jstr(r.detail).c_str(), jstr(r.workload).c_str(), (unsigned long long)r.idx, (unsigned long long)r.count); first = false; }
    fprintf(o, "],\"events\":{"); first = true;
    for (auto& [k, n] : events()) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)n); first = false; }
    fprintf(o, "},\"samples\":["); first = true;
    for (auto& s : samples()) { fprintf(o, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
    fprintf(o, "]}\n"); fclose(o);
    FILE* sf = fopen((outf + ".st").c_str(), "wb"); if (!sf) return 97;
    for (u64 h : states()) fwrite(&h, 8, 1, sf);
    fclose(sf);
  }
  return recs().empty() ? 0 : 1;
}
