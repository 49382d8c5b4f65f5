// C36: no hidden shared state. Threads that work on their own objects, or only read shared ones, are watched by the
// race detector, and everything they compute is compared with what one thread computes alone.
#include <atomic>
#include <thread>
#include <unistd.h>
#include "vh.h"
#include "best/cli/cli.h"
#include "best/cli/parser.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/func/defer.h"
#include "best/func/dyn.h"
#include "best/func/fnref.h"
#include "best/func/tap.h"
#include "best/io/ioerr.h"
#include "best/iter/bounds.h"
#include "best/log/location.h"
#include "best/math/bit.h"
#include "best/math/conv.h"
#include "best/math/overflow.h"
#include "best/memory/allocator.h"
#include "best/memory/span_sort.h"
#include "best/meta/names.h"
#include "best/meta/reflect.h"
#include "best/text/format.h"
#include "best/text/rune.h"
#include "best/text/strbuf.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#ifdef VH_TSAN
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=77:report_signal_unsafe=0:history_size=4"; }
#endif
using namespace vh;
namespace c36 {
std::string S(best::str s) { return std::string(s.data(), s.size()); }
std::string S(const best::strbuf& s) { return std::string(s.data(), s.size()); }
enum class Color { Red, Green = 7, Blue, Last = 40 };
struct Point { int x; best::strbuf name; friend constexpr auto BestReflect(auto& m, Point*) { return m.infer(); } };
struct Deep { Point a; best::vec<int> b; best::option<int> c; Color d; friend constexpr auto BestReflect(auto& m, Deep*) { return m.infer(); } };
struct Sub { int depth = 0; best::vec<best::strbuf> rest; constexpr friend auto BestReflect(auto& m, Sub*) { return m.infer().with(&Sub::depth, best::cli::flag{.letter = U'd', .help = "how deep"}).with(&Sub::rest, best::cli::positional{.help = "what is left"}); } };
struct Flags { bool verbose = false; best::option<int64_t> count; best::vec<int> many; best::strbuf text; best::rune letter = '-'; Sub go; 
  constexpr friend auto BestReflect(auto& m, Flags*) { return m.infer().with(best::cli::app{.about = "exercises the parser"}).with(&Flags::verbose, best::cli::flag{.letter = U'v', .help = "says more"}, best::cli::alias{"loud"}).with(&Flags::count, best::cli::flag{.letter = U'c', .arg = "N", .help = "counts"}).with(&Flags::many, best::cli::flag{.letter = U'm', .help = "numbers"}).with(&Flags::text, best::cli::flag{.help = "some text"}).with(&Flags::letter, best::cli::flag{.help = "a letter"}).with(&Flags::go, best::cli::subcommand{.help = "goes there"}); } };
struct Shape : best::interface_base<Shape> { BEST_INTERFACE(Shape, (int, area, (int k), const), (int, label, (best::strbuf&), const)); };
std::string lab(auto& b) { best::strbuf s; int n = b->label(s); return S(s) + std::to_string(n); }
struct Sq { int n; int area(int k) const { return n * n + k; } int label(best::strbuf& o) const { best::format(o, "square {}", n); return n; } friend constexpr auto BestImplements(Shape*, Sq*) {} };
struct Re { int n, m; best::strbuf s; int area(int k) const { return n * m + k; } int label(best::strbuf& o) const { best::format(o, "rect {}x{} {}", n, m, s); return m; } };

std::string word(Rng& g) { static const char* W[] = {"", "a", "plain", "two words", "é", "naïve", "日本語", "😀 smile", "a,b,,c", "\ttab\n", "a long piece of text that does not fit inline, certainly not in a small buffer", "x=y", "-17", "0x1F", "999999999999"}; std::string s = W[g.below(15)]; for (size_t n = g.below(3); n--;) s += W[g.below(15)]; return s; }
best::strbuf text(Rng& g) { std::string w = word(g); return best::strbuf(*best::str::from(best::span<const char>(w.data(), w.size()))); }

// What every thread may read at once.
struct Shared {
  best::vec<best::strbuf> words; best::vec<int> ints; best::option<best::strbuf> opt; best::row<int, best::strbuf, bool> row; best::choice<int, best::strbuf, best::vec<int>> pick; best::box<best::vec<int>> box; Deep deep; best::vec<best::box<best::dyn<Shape>>> shapes; best::result<int, best::strbuf> res;
  explicit Shared(Rng& g) : row(3, text(g), true), pick(text(g)), box(best::vec<int>{1, 2, 3}), deep{{7, text(g)}, {1, 2}, best::none, Color::Blue}, res(best::err(text(g))) {
    for (int i = 0; i < 6; i++) words.push(text(g)); for (int i = 0; i < 40; i++) ints.push(i * 3); if (g.flip()) opt = text(g);
    for (int i = 0; i < 4; i++) { if (g.flip()) shapes.push(best::box<Sq>(Sq{i})); else shapes.push(best::box<Re>(Re{i, 2, text(g)})); } }
};
using Job = std::string (*)(Rng&, const Shared&);
std::string texts(Rng& g, const Shared&) {
  best::strbuf b = text(g); best::str s = b; std::string o; auto w = best::utf16{}; (void)w;
  best::strbuf16 u; u.push_lossy(s); best::strbuf back; back.push_lossy(u); o += S(back); best::strbuf32 v; v.push_lossy(s); o += std::to_string(u.size()) + "/" + std::to_string(v.size());
  for (auto r : s.runes()) { o += r.is_ascii() ? 'a' : '.'; o += S(best::format("{:?}", r)); } for (auto p : s.split(',')) o += "<" + S(p) + ">";
  if (auto i = s.find("a")) o += std::to_string(*i); if (auto p = s.split_once(' ')) o += S(p->first()) + "|" + S(p->second()); o += s.starts_with("a") ? "y" : "n"; b.push("tail"); b.truncate(b.size() - 2); return o + S(b);
}
std::string formats(Rng& g, const Shared&) {
  i64 n = g.edge<i64>(); best::strbuf w = text(g); std::string o = S(best::format("{} {:x} {:#b} {:5} {:>12} {:?} {0}", n, (u64)n, (u16)n, (i8)n, w, w));
  Deep d{{(int)n, text(g)}, {1, (int)g.below(9)}, g.flip() ? best::option<int>(4) : best::option<int>(), (Color)g.below(9)}; o += S(best::format("{:?}", d)) + S(best::format("{:#?}", d)); best::strbuf acc; for (int i = 0; i < 3; i++) best::format(acc, "[{:*^9}|{:08}]", w, n >> i); return o + S(acc);
}
std::string numbers(Rng& g, const Shared&) {
  best::strbuf t = text(g); std::string o; if (auto r = best::atoi<i64>(t); r.is_ok()) o += std::to_string(*r.ok()); else o += "no"; if (auto r = best::atoi_with_prefix<u16>(t); r.is_ok()) o += std::to_string(*r.ok());
  i32 a = g.edge<i32>(), b = g.edge<i32>(); auto x = best::overflow<i32>(a) + b; o += std::to_string(x.wrap()) + (x.checked() ? "" : "!"); o += std::to_string((u32)best::wrapping_next_pow2((u32)a)) + std::to_string(best::saturating_add(a, b)); return o;
}
std::string vectors(Rng& g, const Shared&) {
  best::vec<best::strbuf> v; best::vec<int, 2> k; for (size_t n = g.below(30); n--;) { if (v.is_empty() || g.chance(2, 3)) { v.insert(g.below(v.size() + 1), text(g)); k.push((int)g.below(50)); } else { v.remove(g.below(v.size())); k.pop(); } }
  best::vec<best::strbuf> w = v; w->sort(); v->stable_sort([](const best::strbuf& s) { return s.size(); }); k->sort(); std::string o; for (auto& s : v) o += S(s) + ","; for (auto& s : w) o += S(s) + ";"; for (auto i : k) o += std::to_string(i) + " ";
  auto hit = k.as_span().bisect(25); o += hit.is_ok() ? "h" : "m"; best::vec<best::strbuf> m = std::move(w); m.truncate(m.size() / 2); m.shrink_to_fit(); return o + std::to_string(m.size()) + (m == v ? "=" : "#");
}
std::string sums(Rng& g, const Shared&) {
  best::choice<int, best::strbuf, best::vec<int>> c(best::index<0>, 4); std::string o; for (int i = 0; i < 6; i++) { switch (g.below(4)) { case 0: c = best::choice<int, best::strbuf, best::vec<int>>(best::index<1>, text(g)); break; case 1: { best::vec<int> v{1, 2, (int)g.below(9)}; c = best::choice<int, best::strbuf, best::vec<int>>(best::index<2>, v); break; } case 2: c = best::choice<int, best::strbuf, best::vec<int>>(best::index<0>, (int)g.below(99)); break; default: { auto d = c; c = std::move(d); } } o += S(best::format("{:?}", c)); }
  best::option<best::strbuf> p; if (g.flip()) p = text(g); auto q = p; if (q) q->push("!"); o += S(best::format("{:?} {:?}", p, q)); best::result<best::strbuf, int> r = g.flip() ? best::result<best::strbuf, int>(best::ok(text(g))) : best::result<best::strbuf, int>(best::err(3)); o += S(best::format("{:?}", r)); best::row<int, best::strbuf> t(2, text(g)); auto u = t; return o + S(best::format("{:?}", u)) + (t == u ? "=" : "#");
}
std::string boxes(Rng& g, const Shared&) {
  best::vec<best::box<best::dyn<Shape>>> v; for (int i = 0; i < 5; i++) { if (g.flip()) v.push(best::box<Sq>(Sq{(int)g.below(9)})); else v.push(best::box<Re>(Re{(int)g.below(9), 3, text(g)})); } std::string o; for (auto& b : v) o += std::to_string(b->area(2)) + lab(b);
  int hits = 0; { best::defer d([&] { hits++; }); best::fnref<int(int)> f = [&](int x) { return x + hits; }; o += std::to_string(f(4)); o += std::to_string(7->*best::tap([](int x) { return x * 2; })); } best::box<best::strbuf> b(text(g)); auto c = std::move(b); return o + S(*c) + std::to_string(hits);
}
std::string ranges(Rng& g, const Shared&) { std::string o; int lo = (int)g.below(9); for (int i : best::bounds{.start = (size_t)lo, .count = 5}) o += std::to_string(i); for (auto [i, x] : best::int_range<int>{.start = lo, .end = lo + 4}.iter().map([](int i) { return i * 3; }).enumerate()) o += std::to_string(i) + ":" + std::to_string(x); return o; }
std::string names(Rng& g, const Shared&) {
  std::string o = S(best::type_names::of<Deep>.path_with_params()) + S(best::type_names::of<best::vec<Point>>.name_with_params()); o += S(best::format("{:?} {:?}", Color::Green, (Color)g.below(50))); best::reflect<Deep>.each([&](auto f) { o += S(f.name()); }); best::reflect<Color>.match(Color::Last, [&] { o += "none"; }, [&](auto f) { o += S(f.name()); }); return o;
}
std::string errors(Rng& g, const Shared&) { std::string o; for (int i = 0; i < 4; i++) { best::ioerr e(1 + (int)g.below(200)); if (auto n = e.name()) o += S(*n) + S(*e.message()); o += S(best::format("{}", e)); } errno = 1 + (int)g.below(40); int want = errno; auto r = best::ioerr::current(); o += r.is_err() && r.err()->raw() == want ? "=" : "#"; best::location l = best::here; o += std::to_string(l.line()) + S(best::format("{:?}", l)).substr(0, 1); return o; }
std::string command_lines(Rng& g, const Shared&) {
  static const char* A[] = {"-v", "--loud", "-c", "7", "--count=9", "-m1", "--many", "4", "--text", "é", "--letter=q", "--letter", "qq", "go", "-d3", "rest", "--nope", "--help", "-c=x", "--", "--count"}; std::vector<best::pretext<best::wtf8>> a; for (size_t n = g.below(8); n--;) { const char* s = A[g.below(21)]; a.push_back(best::pretext<best::wtf8>(best::span(s, strlen(s)))); }
  std::string exe = "prog"; auto r = best::parse_flags<Flags>(best::pretext<best::wtf8>(best::span(exe.data(), exe.size())), best::span<const best::pretext<best::wtf8>>(a.data(), a.size())); if (!r.is_ok()) { auto m = r.err()->message(); return std::string(m.data(), m.size()); }
  auto& f = *r.ok(); return S(best::format("{} {:?} {:?} {:?} {:?} {}", f.verbose, f.count, f.many, f.text, f.letter, f.go.depth)) + S(best::format("{:?}", f.go.rest));
}
std::string blocks(Rng& g, const Shared&) {
  std::string o; best::malloc m; struct B { best::ptr<void> p; best::layout l; u8 c; }; std::vector<B> v; auto lay = [&] { size_t a = size_t(1) << g.below(8); return best::layout(best::unsafe("a power of two"), a * (1 + g.below(12)), a); }; auto full = [&](B& b, size_t n) { for (size_t i = 0; i < n; i++) if (((u8*)b.p.raw())[i] != b.c) return false; return true; };
  for (int i = 0; i < 24; i++) { size_t k = v.empty() ? 0 : g.below(v.size()); switch (v.empty() ? 0 : g.below(4)) { case 0: { auto l = lay(); B b{m.alloc(l), l, (u8)g.next()}; memset(b.p.raw(), b.c, l.size()); v.push_back(b); break; } case 1: { auto l = lay(); B b{m.zalloc(l), l, 0}; o += full(b, l.size()) ? "z" : "Z"; v.push_back(b); break; }
    case 2: { auto l = lay(); B& b = v[k]; size_t n = std::min(l.size(), b.l.size()); b.p = m.realloc(b.p, b.l, l); b.l = l; o += full(b, n) ? "r" : "R"; memset(b.p.raw(), b.c, l.size()); break; } default: o += full(v[k], v[k].l.size()) ? "f" : "F"; m.dealloc(v[k].p, v[k].l); v.erase(v.begin() + k); } }
  for (auto& b : v) { o += full(b, b.l.size()) ? "f" : "F"; m.dealloc(b.p, b.l); } if (o.find_first_of("ZRF") != o.npos) o += "CORRUPT"; return o;
}
std::string reads(Rng& g, const Shared& s) {
  std::string o; for (auto& w : s.words) { o += S(w); for (auto r : w.runes()) o += r.is_ascii() ? 'a' : '.'; } o += S(best::format("{:?} {:#?} {:?} {:?} {:?} {:?} {:#?}", s.words, s.ints, s.opt, s.row, s.pick, s.box, s.deep)); best::vec<best::strbuf> copy = s.words; copy.push(text(g)); o += copy == s.words ? "=" : "#"; auto h = s.ints.as_span().bisect((int)g.below(120)); o += h.is_ok() ? "h" : "m"; 
  for (auto& b : s.shapes) o += std::to_string(b->area(1)) + lab(b); auto p = s.pick; auto r = s.row; auto q = s.opt; auto e = s.res; auto d = best::box<best::vec<int>>(s.box); o += p == s.pick && r == s.row && q == s.opt && e == s.res && *d == *s.box ? "=" : "#"; int n = 0; for (int i : s.ints) n += i; o += std::to_string(n); if (auto t = s.ints.at(g.below(60))) o += std::to_string(*t); if (auto t = s.words.as_span().find(s.words[g.below(6)])) o += std::to_string(*t); return o;
}
struct Named { const char* name; Job job; };
const Named JOBS[] = {{"texts", texts}, {"formats", formats}, {"numbers", numbers}, {"vectors", vectors}, {"sums", sums}, {"boxes", boxes}, {"ranges", ranges}, {"names", names}, {"errors", errors}, {"command_lines", command_lines}, {"blocks", blocks}, {"reads", reads}};
constexpr int N = sizeof(JOBS) / sizeof(*JOBS);
struct Step { int job; u64 seed; };
// Runs the plans at once, one thread each; returns what every step computed.
std::vector<std::vector<std::string>> at_once(const std::vector<std::vector<Step>>& plan, const Shared& s, u64 jitter) {
  std::vector<std::vector<std::string>> out(plan.size()); std::atomic<int> ready{0}; std::vector<std::thread> t;
  for (size_t i = 0; i < plan.size(); i++) t.emplace_back([&, i] { Rng g(jitter + i); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < (int)plan.size()) {} for (auto& st : plan[i]) { Rng r(st.seed); out[i].push_back(JOBS[st.job].job(r, s)); switch (g.below(6)) { case 0: std::this_thread::yield(); break; case 1: usleep(g.below(60)); break; default: break; } } });
  for (auto& x : t) x.join(); return out;
}
std::vector<std::vector<Step>> plans(Rng& g, int only) { std::vector<std::vector<Step>> p(2 + g.below(5)); bool same = g.flip(); for (auto& x : p) { size_t n = 3 + g.below(6); for (size_t i = 0; i < n; i++) x.push_back({only >= 0 ? only : (int)g.below(N), same && &x != &p[0] && i < p[0].size() && g.flip() ? p[0][i].seed : g.next()}); } return p; }
void judge(Ctx& c, const std::vector<std::vector<Step>>& p, const std::vector<std::vector<std::string>>& got, const Shared& s) {
  for (size_t i = 0; i < p.size(); i++) for (size_t k = 0; k < p[i].size(); k++) { Rng r(p[i][k].seed); auto want = JOBS[p[i][k].job].job(r, s); c.eval(); c.event(JOBS[p[i][k].job].name); c.state(hcomb(p[i][k].seed, p[i][k].job)); if (got[i][k] != want) VH_FAIL((std::string("disturbed-") + JOBS[p[i][k].job].name).c_str(), "%s computed next to %zu threads gave\n%s\nand alone\n%s", JOBS[p[i][k].job].name, p.size() - 1, show(got[i][k]).c_str(), show(want).c_str()); }
  c.event("threads", p.size());
}
}  // namespace c36
using namespace c36;
VH_WORKLOAD(mixed, 700, 12000) { Shared s(c.rng); auto p = plans(c.rng, -1); judge(c, p, at_once(p, s, c.rng.next()), s); }
VH_WORKLOAD(alike, 480, 8000) { Shared s(c.rng); auto p = plans(c.rng, (int)(c.idx % N)); judge(c, p, at_once(p, s, c.rng.next()), s); }
// In a fresh process, so that whatever is set up on first use is set up by several threads at once.
VH_WORKLOAD(cold, 96, 1200) {
  u64 seed = c.rng.next(); int only = c.idx % 2 ? -1 : (int)(c.idx / 2 % N); auto d = in_child([&] { Rng g(seed); auto p = plans(g, only); Rng sg(seed + 1);
    // Only the reading jobs need the shared objects, which are then built first.
    static char room[sizeof(Shared)]; Shared* s = only >= 0 && only != N - 1 ? (Shared*)room : new Shared(sg); auto got = at_once(p, *s, seed + 2); for (size_t i = 0; i < p.size(); i++) for (size_t k = 0; k < p[i].size(); k++) { Rng r(p[i][k].seed); auto want = JOBS[p[i][k].job].job(r, *s); if (got[i][k] != want) { fprintf(stderr, "disturbed %s: %s, alone %s\n", JOBS[p[i][k].job].name, show(got[i][k]).c_str(), show(want).c_str()); _exit(3); } } });
  c.eval(); c.event("cold_starts"); VH_CHECK(d.kind == Death::Survived, "cold-start", "threads in a fresh process (jobs %s): %s", only < 0 ? "mixed" : JOBS[only].name, d.err.c_str());
}
