// C37: the macro toolkit. Invocations are generated, expanded by the real preprocessor against the library's header,
// and compared token for token with what the documentation says they expand to.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "vh.h"
using namespace vh;
namespace c37 {
using Toks = std::vector<std::string>;
bool idc(char c) { return isalnum((unsigned char)c) || c == '_'; }
Toks tokens(const std::string& s) {
  Toks t;
  for (size_t i = 0; i < s.size();) {
    if (isspace((unsigned char)s[i])) { i++; continue; }
    size_t b = i;
    if (idc(s[i])) { while (i < s.size() && idc(s[i])) i++; }
    else if (s[i] == '"') { for (i++; i < s.size() && s[i] != '"'; i++) if (s[i] == '\\') i++; i++; }
    else i++;
    t.push_back(s.substr(b, i - b));
  }
  return t;
}
std::string flat(const Toks& t) { std::string o; for (auto& x : t) { if (!o.empty()) o += ' '; o += x; } return o; }
struct Job { std::string line, want, kind; bool stringed = false; };

// Macros the invocations are given; every one expands to tokens that are no macros.
const char PRELUDE[] = R"(
#include "best/base/macro.h"
#define F1(...) f1<__VA_ARGS__>
#define F2(x) x x
#define F3(i, ...) f3<i: __VA_ARGS__>
#define F4(x) BEST_STRINGIFY(x)
#define OBJ obj_tokens
#define INNER(x) [BEST_MAP_REC(LEAF, x, k, x)]
#define IINNER(i, x) [BEST_IMAP_REC(ILEAF, x, i, x)]
#define JINNER(x) [BEST_MAP_JOIN_REC(LEAF, (,), x, k)]
#define IJINNER(i, x) [BEST_IMAP_JOIN_REC(ILEAF, +, x, i)]
#define OUTER(x) <BEST_MAP_REC(INNER, x, m)>
#define LEAF(x) leaf x
#define ILEAF(i, x) leaf i x
#define LISTED(x) {BEST_MAP_REC(LEAF, BEST_REMOVE_PARENS(x))}
#define OPTED(x) BEST_VA_OPT_REC(q, BEST_REMOVE_PARENS(x))
#define DELAYED() F1
)";
std::string slurp(int fd) { std::string o; char b[1 << 16]; for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) o.append(b, n); return o; }
// Returns false when the preprocessor refuses the input.
bool expand(const std::string& src, std::string& out, std::string& err) {
  const char* repo = getenv("VERIF_REPO"); if (!repo) repo = "/repo";
  char in[] = "c37-XXXXXX"; int fd = mkstemp(in); unlink(in); if (write(fd, src.data(), src.size()) != (ssize_t)src.size()) _exit(97); lseek(fd, 0, SEEK_SET);
  char en[] = "c37-XXXXXX"; int ef = mkstemp(en); unlink(en);
  int p[2]; if (pipe(p)) _exit(97);
  pid_t pid = fork();
  if (!pid) { dup2(fd, 0); dup2(p[1], 1); dup2(ef, 2); close(p[0]); close(p[1]); execl("/usr/bin/clang++-18", "clang++-18", "-std=c++20", "-w", "-E", "-P", "-iquote", repo, "-x", "c++", "-", (char*)nullptr); _exit(127); }
  close(p[1]); out = slurp(p[0]); close(p[0]); int st; waitpid(pid, &st, 0); lseek(ef, 0, SEEK_SET); err = slurp(ef); close(ef); close(fd);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 127) _exit(97);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
std::string join(const std::vector<std::string>& a, const char* s = ", ", size_t from = 0) { std::string o; for (size_t i = from; i < a.size(); i++) { if (i > from) o += s; o += a[i]; } return o; }
std::string arg(Rng& g, int depth = 0) {
  static const char* W[] = {"a", "b7", "x_y", "int", "12", "0x1F", "\"s, t)\"", "+", "a + b", "const char *", "T::u", "&", "'c'", "1.5", "-", "long_identifier_that_means_nothing", "a.b", "unsigned long", "_0", "_1", "_63", "N", "MACRO", "sep_", "n_"};
  if (depth < 2 && g.chance(1, 5)) { std::string o = g.flip() ? "(" : "f("; for (size_t n = g.below(4), i = 0; i < n; i++) { if (i) o += ", "; o += arg(g, depth + 1); } return o + ")"; }
  return W[g.below(25)];
}
// A list of n arguments: not empty ones at the ends, since a lone or a final empty argument is no argument.
std::vector<std::string> args(Rng& g, size_t n) { std::vector<std::string> v; bool numbered = g.chance(1, 4), gaps = g.chance(1, 6); for (size_t i = 0; i < n; i++) v.push_back(gaps && i && i + 1 < n && g.chance(1, 4) ? "" : numbered ? "t" + std::to_string(i) : arg(g)); if (n && v[0] == "") v[0] = "a"; return v; }
std::string with(const std::string& head, const std::vector<std::string>& a) { return head + (a.empty() ? "" : ", " + join(a)); }
using Jobs = std::vector<Job>;
void lists(Rng& g, size_t n, Jobs& o, std::string& defs, size_t id) {
  auto a = args(g, n); std::string l = join(a);
  bool trail = n && n < 62 && g.flip();
  o.push_back({"BEST_COUNT(" + l + (trail ? "," : "") + ")", std::to_string(n), trail ? "counted_with_trailing_comma" : "counted"});
  if (n <= 61) {
    o.push_back({"BEST_ADD_TRAILING_COMMA(" + l + ")", n ? l + "," : "", "comma_added"});
    o.push_back({"BEST_REMOVE_TRAILING_COMMA(" + l + ")", l, "comma_absent"});
    if (n) { o.push_back({"BEST_ADD_TRAILING_COMMA(" + l + ", )", l + ",", "comma_kept"}); o.push_back({"BEST_REMOVE_TRAILING_COMMA(" + l + " ,)", l, "comma_removed"}); }
  }
  std::string e = arg(g);
  o.push_back({"BEST_VA_OPT(" + with(e, a) + ")", n ? e : "", n ? "optional_there" : "optional_absent"});
  o.push_back({"BEST_VA_OPT((" + e + ", " + e + ")" + (n ? ", " + l : "") + ")", n ? "(" + e + ", " + e + ")" : "", "optional_list"});
  if (n) for (int k = 0; k < 3; k++) { size_t i = k == 0 ? n - 1 : k == 1 ? 0 : g.below(n); o.push_back({"BEST_NTH(" + std::to_string(i) + ", " + l + ")", a[i], i == 0 ? "first" : i == n - 1 ? "last" : "nth"}); }
  o.push_back({"BEST_EXPAND(" + l + ")", l, "expanded"});
  o.push_back({"BEST_EXPAND(DELAYED BEST_PARENS()(" + l + "))", "f1<" + l + ">", "delayed"});
  o.push_back({"BEST_PARENS(" + l + ")", "(" + l + ")", "parens_added"});
  o.push_back({"BEST_REMOVE_PARENS((" + l + "))", l, "parens_removed"});
  { std::string p = arg(g); if (p[0] != '(' && p[0] != '+' && p[0] != '-' && p[0] != '&' && p[0] != '"' && p[0] != '\'' && !isdigit(p[0])) o.push_back({"BEST_REMOVE_PARENS(" + p + ")", p, "parens_absent"}); }
  o.push_back({"BEST_STRINGIFY(" + l + ")", l, "stringified", true});
  { auto b = a; if (b.empty()) b.push_back(""); size_t at = g.below(b.size()); auto w = b; b[at] = g.flip() ? "OBJ" : "F2(r)"; w[at] = b[at] == "OBJ" ? "obj_tokens" : "r r"; o.push_back({"BEST_STRINGIFY(" + join(b) + ")", join(w), "stringified_expansion", true}); }
  o.push_back({"\nBEST_PRAGMA(pack(" + std::to_string(n) + "))\n", "# pragma pack(" + std::to_string(n) + ")", "pragma"});
  if (n && n <= 61) {
    std::string v = "V" + std::to_string(id); defs += "#define " + v + "_" + std::to_string(n) + "_(...) v" + std::to_string(n) + "<__VA_ARGS__>\n";
    o.push_back({"BEST_VARIADIC(" + v + ", " + l + ")", "v" + std::to_string(n) + "<" + l + ">", "variadic"});
    o.push_back({"BEST_EXPAND(BEST_VARIADIC_REC(" + v + ", " + l + "))", "v" + std::to_string(n) + "<" + l + ">", "variadic_rec"});
  }
  if (n <= 61) {
    static const struct { const char *in, *out; } SEP[] = {{";", ";"}, {"(,)", ","}, {"()", ""}, {"(a, b)", "a, b"}, {"sep", "sep"}, {"x::y", "x::y"}, {"(;)", ";"}};
    auto& s = SEP[g.below(7)]; auto& s2 = SEP[g.below(7)];
    auto map = [&](const char* f, bool idx, const char* sep, const std::vector<std::string>& v) { std::string w; for (size_t i = 0; i < v.size(); i++) { if (i) w += std::string(" ") + sep + " "; if (idx) w += "f3<" + std::to_string(i) + ": " + v[i] + ">"; else w += f[1] == '1' ? "f1<" + v[i] + ">" : v[i] + " " + v[i]; } return w; };
    const char* f = g.chance(1, 3) ? "F2" : "F1";
    o.push_back({with(std::string("BEST_MAP(") + f, a) + ")", map(f, false, "", a), "mapped"});
    o.push_back({with(std::string("BEST_MAP_JOIN(") + f + ", " + s.in, a) + ")", map(f, false, s.out, a), "joined"});
    o.push_back({with("BEST_IMAP(F3", a) + ")", map(f, true, "", a), "indexed"});
    o.push_back({with(std::string("BEST_IMAP_JOIN(F3, ") + s2.in, a) + ")", map(f, true, s2.out, a), "indexed_joined"});
    o.push_back({with(std::string("BEST_EXPAND(BEST_MAP_REC(") + f, a) + "))", map(f, false, "", a), "mapped_rec"});
    o.push_back({with(std::string("BEST_EXPAND(BEST_IMAP_JOIN_REC(F3, ") + s.in, a) + "))", map(f, true, s.out, a), "indexed_joined_rec"});
  }
}
void nested(Rng& g, size_t n, Jobs& o) {
  std::vector<std::string> a; for (size_t i = 0; i < n; i++) { std::string x; do x = arg(g, 2); while (x[0] == '"'); a.push_back(x); } auto each = [&](auto f) { std::string w; for (size_t i = 0; i < n; i++) w += f(i) + " "; return w; };
  auto inner = [&](const std::string& x) { return "[leaf " + x + " leaf k leaf " + x + "]"; };
  o.push_back({with("BEST_MAP(INNER", a) + ")", each([&](size_t i) { return inner(a[i]); }), "two_levels"});
  o.push_back({with("BEST_MAP(OUTER", a) + ")", each([&](size_t i) { return "<" + inner(a[i]) + inner("m") + ">"; }), "three_levels"});
  o.push_back({with("BEST_IMAP(IINNER", a) + ")", each([&](size_t i) { return "[leaf 0 " + a[i] + " leaf 1 " + std::to_string(i) + " leaf 2 " + a[i] + "]"; }), "indexed_levels"});
  o.push_back({with("BEST_MAP(JINNER", a) + ")", each([&](size_t i) { return "[leaf " + a[i] + ", leaf k]"; }), "joined_levels"});
  o.push_back({with("BEST_IMAP(IJINNER", a) + ")", each([&](size_t i) { return "[leaf 0 " + a[i] + " + leaf 1 " + std::to_string(i) + "]"; }), "indexed_joined_levels"});
  std::vector<std::string> l; std::string w, q; for (size_t i = 0; i < n; i++) { auto b = args(g, g.below(4)); l.push_back("(" + join(b) + ")"); w += "{"; for (auto& x : b) w += "leaf " + x + " "; w += "}"; if (b.size()) q += "q "; }
  o.push_back({with("BEST_MAP(LISTED", l) + ")", w, "lists_of_lists"});
  o.push_back({with("BEST_MAP(OPTED", l) + ")", q, "optional_rec"});
}
void judge(Ctx& c, const Jobs& jobs, const std::string& defs) {
  std::string src = PRELUDE + defs, out, err; for (size_t i = 0; i < jobs.size(); i++) src += "VHBEGIN" + std::to_string(i) + " " + jobs[i].line + " VHEND" + std::to_string(i) + "\n";
  bool ok = expand(src, out, err);
  if (!ok) { std::string first = err.substr(0, 600); VH_FAIL("refused", "the preprocessor refuses an invocation: %s", first.c_str()); }
  for (size_t i = 0; i < jobs.size(); i++) {
    auto& j = jobs[i]; std::string b = "VHBEGIN" + std::to_string(i), e = "VHEND" + std::to_string(i);
    size_t p = out.find(b + " "), nl = out.find(b + "\n"); if (nl < p) p = nl; size_t q = p == out.npos ? p : out.find(e, p); c.eval(); c.event(j.kind.c_str());
    c.state(hcomb(hstr(j.line), 1)); if (c.idx < 2 && i < 3) c.sample(j.line.substr(0, 120) + " => " + j.want.substr(0, 120));
    if (q == out.npos) { if (ok) VH_FAIL("lost", "%s expands past its own end", j.line.substr(0, 300).c_str()); continue; }
    auto got = tokens(out.substr(p + b.size(), q - p - b.size())), want = tokens(j.want);
    if (j.stringed) {
      std::string s; if (got.size() != 1 || got[0].size() < 2 || got[0][0] != '"') { VH_FAIL(("wrong-" + j.kind).c_str(), "%s => %s, which is no string", j.line.substr(0, 300).c_str(), flat(got).substr(0, 300).c_str()); continue; }
      for (size_t k = 1; k + 1 < got[0].size(); k++) { if (got[0][k] == '\\') k++; s += got[0][k]; } got = tokens(s);
    }
    if (got != want) VH_FAIL(("wrong-" + j.kind).c_str(), "%s => %s, not %s", j.line.substr(0, 300).c_str(), flat(got).substr(0, 300).c_str(), flat(want).substr(0, 300).c_str());
  }
}
}  // namespace c37
using namespace c37;
VH_WORKLOAD(every_count, 256, 4096) { Jobs j; std::string d; lists(c.rng, c.idx % 64, j, d, 0); judge(c, j, d); }
VH_WORKLOAD(small, 160, 2500) { Jobs j; std::string d; for (size_t k = 0; k < 12; k++) lists(c.rng, c.rng.len(14), j, d, k); judge(c, j, d); }
VH_WORKLOAD(nests, 160, 2500) { Jobs j; for (size_t k = 0; k < 4; k++) nested(c.rng, k ? c.rng.below(9) : c.rng.below(30), j); judge(c, j, ""); }
