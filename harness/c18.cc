// C18: structured and indented output. Random trees printed through the block builders (and through the library's own
// structured types) in the compact and the pretty form, compared with an independent renderer.
#include "text.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/memory/layout.h"
#include "best/meta/reflect.h"
#include "best/text/strbuf.h"
#include <array>
#include <memory>
using namespace vh; using best::format_spec;

namespace c18 {
best::str bs(const std::string& s) { return best::str(best::unsafe("ascii"), best::span<const char>(s.data(), s.size())); }
enum Kind { Int, Str, Raw, Runes, Raw16, Tmpl, List, Tuple, Record };
enum How { Entry, EntrySpec, EntryPass, Field, FieldSpec, Pair, PairSpec };
struct Node;
struct Item { How how; bool alt, debug; u32 width = 0; bool right = false; char fill = ' '; std::string name; std::unique_ptr<Node> key, val; };
struct Node {
  Kind kind = Int; int n = 0; std::string s; std::u16string s16; std::vector<Item> items; bool advise = false; int finishes = 0;
  Node() {}
  // (How quoting and width combine is not specified: a width is only used without debug.)
  format_spec spec(const Item& i, bool key = false) const { format_spec f; f.alt = i.alt; f.debug = i.debug != key; if (i.width && !f.debug) { f.width = i.width; f.alignment = i.right ? format_spec::Right : format_spec::Left; f.fill = *best::rune::from_int((u32)(u8)i.fill); } return f; }
  friend void BestFmt(auto& f, const Node& x) {
    switch (x.kind) {
      case Int: f.format(x.n); return; case Str: f.format(bs(x.s)); return; case Raw: f.write(bs(x.s)); return; case Runes: for (char ch : x.s) f.write(*best::rune::from_int((u32)(u8)ch)); return;
      case Raw16: f.write(best::str16(best::unsafe("ascii"), best::span<const char16_t>(x.s16.data(), x.s16.size()))); return; case Tmpl: f.format("{}: {:?}\n", x.n, bs(x.s)); return; default: break;
    }
    auto go = [&](auto& b) {
      if (x.advise) b.advise_size(x.items.size());
      for (auto& i : x.items) switch (i.how) {
        case Entry: b.entry(*i.val); break; case EntrySpec: b.entry(x.spec(i), *i.val); break; case EntryPass: { auto s = x.spec(i); s.pass_through = true; b.entry(s, *i.val); break; }
        case Field: b.field(bs(i.name), *i.val); break; case FieldSpec: b.field(bs(i.name), x.spec(i), *i.val); break; case Pair: b.pair(*i.key, *i.val); break; case PairSpec: { auto k = x.spec(i, true); b.pair(k, *i.key, x.spec(i), *i.val); break; }
      }
      for (int k = 0; k < x.finishes; k++) b.finish(); if (x.finishes) { b.entry(Node()); b.field("late", 1); b.pair(1, 2); b.advise_size(1); b.entry(format_spec{}, 3); }
    };
    if (x.kind == List) { auto b = f.list(bs(x.s)); go(b); } else if (x.kind == Tuple) { auto b = f.tuple(bs(x.s)); go(b); } else { auto b = f.record(bs(x.s)); go(b); }
  }
};
// The independent renderer.
struct Out { std::string o; size_t depth = 0; bool nl = false; void ch(char x) { if (x != '\n' && nl) { o += std::string(2 * depth, ' '); nl = false; } if (x == '\n') nl = true; o += x; } void w(const std::string& s) { for (char x : s) ch(x); } };
std::string quote(const std::string& s) { std::string o = "\""; for (char x : s) { if (x == '\n') o += "\\n"; else if (x == '"') o += "\\\""; else if (x == '\t') o += "\\t"; else o += x; } return o + "\""; }
struct Mode { bool alt, debug; u32 width = 0; bool right = false; char fill = ' '; std::string pad(const std::string& s) const { if (s.size() >= width) return s; std::string p(width - s.size(), fill); return right ? p + s : s + p; } };
void render(Out& o, const Node& x, Mode m, Ctx* c) {
  switch (x.kind) {
    case Int: o.w(m.pad(vh::fmt("%d", x.n))); if (c && m.width) c->event("padded_leaves"); return; case Str: o.w(m.pad(m.debug ? quote(x.s) : x.s)); if (c && !m.debug && x.s.find('\n') != x.s.npos) c->event(o.depth ? "multi_line_indented" : "multi_line_outer"); return; case Raw: case Runes: case Raw16: o.w(x.s); if (c && o.depth && x.s.find('\n') != x.s.npos) c->event("multi_line_indented"); return; case Tmpl: o.w(vh::fmt("%d: %s\n", x.n, quote(x.s).c_str())); return; default: break;
  }
  static const char* op[] = {"[", "(", "{"}; static const char* cl[] = {"]", ")", "}"}; int k = x.kind - List; if (!x.s.empty()) o.w(x.s + " "); o.w(op[k]); bool pretty = m.alt && !(x.advise && x.items.size() == 1); if (pretty) o.depth++; bool first = true;
  for (auto& i : x.items) {
    if (!first) o.w(","); if (pretty) o.w("\n"); else if (!first) o.w(" "); first = false; Mode same = m, own{i.alt, i.debug, i.debug ? 0 : i.width, i.right, i.fill}, key{i.alt, !i.debug, !i.debug ? 0 : i.width, i.right, i.fill};
    if (i.how == Field || i.how == FieldSpec) o.w(i.name + ": "); if (i.how == Pair) { render(o, *i.key, same, c); o.w(": "); } if (i.how == PairSpec) { render(o, *i.key, key, c); o.w(": "); }
    render(o, *i.val, i.how == EntrySpec || i.how == FieldSpec || i.how == PairSpec ? own : same, c); if (c) c->event("entries");
  }
  if (pretty && !first) o.w(",\n"); if (pretty) o.depth--; o.w(cl[k]); if (c) c->event(pretty ? first ? "empty_pretty_blocks" : "pretty_blocks" : "compact_blocks"); if (c && x.advise && x.items.size() == 1 && m.alt) c->event("single_entry_blocks");
}
std::string text(Rng& g) { static const char A[] = "ab\n\nxy \"z\t,"; std::string s; for (size_t i = g.len(9); i--;) s += A[g.below(11)]; return s; }
std::unique_ptr<Node> gen(Ctx& c, int depth) {
  auto& g = c.rng; auto x = std::make_unique<Node>(); x->kind = (Kind)(depth && g.chance(3, 5) ? List + g.below(3) : g.below(6)); x->n = (int)g.edge<i32>(); x->s = text(g);
  if (x->kind >= List) { x->s = g.flip() ? "" : g.flip() ? "Title" : "two words"; x->advise = g.chance(1, 3); x->finishes = g.chance(1, 4) ? 1 + (int)g.below(2) : 0; bool large = g.chance(1, 12); if (large) { depth = depth > 1 ? 1 : depth; c.event("long_blocks"); } for (size_t n = large ? 6 + g.below(35) : g.len(5); n--;) { if (large && depth == 1 && g.flip()) depth = 0; Item i; i.how = (How)g.below(7); i.alt = g.flip(); i.debug = g.flip(); i.width = g.chance(1, 3) ? (u32)g.len(14) : 0; i.right = g.flip(); i.fill = " *0-"[g.below(4)]; i.name = g.flip() ? "key" : "k2"; i.val = gen(c, depth > 0 ? depth - 1 : 0); i.key = gen(c, depth > 1 && g.chance(1, 4) ? 1 : 0); x->items.push_back(std::move(i)); } }
  for (char ch : x->s) x->s16 += (char16_t)ch; return x;
}
std::string str(const best::strbuf& s) { return std::string(s.data(), s.size()); }
template <class T> struct W { const T& v; W(const T& v) : v(v) {} friend void BestFmt(auto& f, const W& w) { auto l = f.list(); l.entry(1); l.entry(w.v); } };
struct P { const Node& n; bool debug; P(const Node& n, bool d) : n(n), debug(d) {} friend void BestFmt(auto& f, const P& p) { format_spec s = f.current_spec(); s.debug = p.debug; f.format(s, p.n); } };
struct Out2 { Ctx& c; void operator()(const char* key, const std::string& got, const std::string& want) { c.eval(); VH_CHECK(got == want, key, "printed\n%s\nnot\n%s", got.c_str(), want.c_str()); c.state(hcomb(hstr(want), hstr(key))); } };

struct Point { int x; best::strbuf name; friend constexpr auto BestReflect(auto& m, Point*) { return m.infer(); } };
struct Empty { friend constexpr auto BestReflect(auto& m, Empty*) { return m.infer(); } };
struct Nest { Point a; best::vec<int> b; best::option<int> c; friend constexpr auto BestReflect(auto& m, Nest*) { return m.infer(); } };
// A generic expected form built as a Node-like tree of strings, rendered independently.
struct V { std::string leaf, title, open, close, suffix; std::vector<std::pair<std::string, V>> kids; bool block = false; std::vector<V> wrapped; };
void render(Out& o, const V& v, bool pretty) { o.w(v.leaf); if (!v.wrapped.empty()) render(o, v.wrapped[0], pretty); o.w(v.suffix); if (!v.block) return; o.w(v.title + v.open); if (pretty) o.depth++; bool first = true; for (auto& [k, e] : v.kids) { if (!first) o.w(","); if (pretty) o.w("\n"); else if (!first) o.w(" "); first = false; o.w(k); render(o, e, pretty); } if (pretty && !first) o.w(",\n"); if (pretty) o.depth--; o.w(v.close); }
V leaf(std::string s) { V v; v.leaf = s; return v; }
V wrap(std::string a, V in, std::string b) { V v; v.leaf = a; v.wrapped.push_back(in); v.suffix = b; return v; }
V block(const char* open, const char* close, std::vector<std::pair<std::string, V>> k, std::string title = "") { V v; v.block = true; v.open = open; v.close = close; v.kids = std::move(k); v.title = title.empty() ? "" : title + " "; return v; }
V of(int x) { return leaf(vh::fmt("%d", x)); }
V of(const best::strbuf& x) { return leaf(quote(str(x))); }
V of(bool x) { return leaf(x ? "true" : "false"); }
template <class T> V of(const best::vec<T>& v) { std::vector<std::pair<std::string, V>> k; for (auto& e : v) k.push_back({"", of(e)}); return block("[", "]", k); }
template <class T> V of(const best::option<T>& v) { if (!v) return leaf("none"); return wrap("option(", of(*v), ")"); }
template <class T> V of(const best::box<T>& v) { return of(*v); }
template <class A, class B> V of(const best::result<A, B>& v) { if (v.is_ok()) return wrap("ok(", of(*v.ok()), ")"); return wrap("err(", of(*v.err()), ")"); }
template <class... A> V of(const best::row<A...>& v) { std::vector<std::pair<std::string, V>> k; [&]<size_t... i>(std::index_sequence<i...>) { (k.push_back({"", of(v[best::index<i>])}), ...); }(std::index_sequence_for<A...>{}); return block("(", ")", k); }
template <class... A> V of(const best::choice<A...>& v) { V r; [&]<size_t... i>(std::index_sequence<i...>) { ((v.which() == i ? (void)(r = wrap(vh::fmt("choice<%zu>(", i), of(*v.at(best::index<i>)), ")")) : (void)0), ...); }(std::index_sequence_for<A...>{}); return r; }
V of(const Point& p) { return block("{", "}", {{"x: ", of(p.x)}, {"name: ", of(p.name)}}, "Point"); }
V of(const Nest& p) { return block("{", "}", {{"a: ", of(p.a)}, {"b: ", of(p.b)}, {"c: ", of(p.c)}}, "Nest"); }
template <class T> void type(Ctx& c, const T& v) { for (int pretty = 0; pretty < 2; pretty++) { Out o; render(o, of(v), pretty); Out2{c}(pretty ? "pretty-value" : "compact-value", str(pretty ? best::format("{:#?}", v) : best::format("{:?}", v)), o.o); c.event("values"); }
  // Printed inside another structure, at an indentation.
  Out o; render(o, block("[", "]", {{"", leaf("1")}, {"", of(v)}}), true); Out2{c}("nested-value", str(best::format("{:#?}", W<T>(v))), o.o); }
}  // namespace c18
using namespace c18;

VH_WORKLOAD(trees, 6000, 150000) {
  auto x = gen(c, 1 + (int)c.rng.below(4));
  if (c.rng.chance(1, 12)) { auto& g = c.rng; for (size_t n = 4 + g.below(40); n--;) { auto y = std::make_unique<Node>(); y->kind = (Kind)(List + g.below(3)); y->s = g.chance(1, 4) ? "T" : ""; Item i; i.how = (How)g.below(7); i.alt = g.chance(7, 8); i.debug = g.flip(); i.right = false; i.name = "k"; i.val = std::move(x); i.key = gen(c, 0); y->items.push_back(std::move(i)); x = std::move(y); } c.event("deep_chains"); } Out2 q{c}; auto go = [&](const char* key, const best::strbuf& got, bool alt, bool debug) { Out o; render(o, *x, {alt, debug}, &c); q(key, str(got), o.o); };
  go("compact", best::format("{:?}", P(*x, false)), false, false); go("pretty", best::format("{:#?}", P(*x, false)), true, false); go("compact-debug", best::format("{:?}", *x), false, true); go("pretty-debug", best::format("{:#?}", *x), true, true); c.event("trees");
  // Twice in a row, appended to existing text: no indentation state may leak.
  best::strbuf out; best::format(out, "<{:#?}|{:?}|{:#?}>", *x, *x, *x); Out o; o.w("<"); render(o, *x, {true, true}, nullptr); o.w("|"); render(o, *x, {false, true}, nullptr); o.w("|"); render(o, *x, {true, true}, nullptr); o.w(">"); q("repeated", str(out), o.o);
  // The pretty form is the compact one, token for token (when no leaf contains line breaks).
  std::function<bool(const Node&)> flat = [&](const Node& n) { if (n.kind < List) return n.kind == Int || (n.kind == Str && n.s.find_first_of(" \n,") == n.s.npos); for (auto& i : n.items) { if (i.how == EntrySpec || i.how == FieldSpec || i.how == PairSpec) return false; if (!flat(*i.val)) return false; if (i.how == Pair && !flat(*i.key)) return false; } return true; };
  if (x->kind >= List && flat(*x)) { auto strip = [](const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == ' ' || s[i] == '\n') continue; if (s[i] == ',' && i + 1 < s.size()) { size_t j = s.find_first_not_of(" \n", i + 1); if (j != s.npos && strchr("])}", s[j])) continue; } o += s[i]; } return o; }; auto a = strip(str(best::format("{:?}", *x))), b = strip(str(best::format("{:#?}", *x))); VH_CHECK(a == b, "token-for-token", "%s vs %s", a.c_str(), b.c_str()); c.event("token_comparisons"); }
  c.sample(str(best::format("{:?}", *x)).substr(0, 200));
}
best::strbuf word(Ctx& c) { best::strbuf s; for (size_t n = c.rng.len(5); n--;) s.push(tx::rune((u32)"ab\nz\"q"[c.rng.below(6)])); return s; }
best::vec<int> nums(Ctx& c) { best::vec<int> v; for (size_t n = c.rng.chance(1, 10) ? c.rng.below(60) : c.rng.len(4); n--;) v.push((int)c.rng.edge<i32>()); return v; }
VH_WORKLOAD(values, 1200, 30000) {
  auto& g = c.rng; int i = (int)g.edge<i32>(); auto w = word(c); auto v = nums(c); best::option<int> none, some = i; type(c, i); type(c, w); type(c, v); type(c, none); type(c, some); best::vec<best::vec<int>> vv; for (size_t n = g.len(3); n--;) vv.push(nums(c)); type(c, vv); best::vec<best::strbuf> vs; for (size_t n = g.len(3); n--;) vs.push(word(c)); type(c, vs);
  best::option<best::vec<int>> ov(v); type(c, ov); best::row<int, best::strbuf> r(i, w); type(c, r); best::row<int> r1(i); type(c, r1); best::row<best::vec<int>, best::option<int>, best::row<int, int>> rr(v, some, best::row<int, int>(1, i)); type(c, rr); best::choice<int, best::strbuf, best::vec<int>> ch(best::index<2>, v), ch2(best::index<0>, i); type(c, ch); type(c, ch2); best::result<int, best::strbuf> ok{best::ok(i)}, er{best::err(w)}; type(c, ok); type(c, er); best::box<best::vec<int>> bx(v); type(c, bx);
  Point p{i, w}; type(c, p); Nest ne{p, v, some}; type(c, ne); best::vec<Point> ps; ps.push(p); ps.push(Point{1, word(c)}); type(c, ps); best::option<best::option<int>> oo(some); type(c, oo); best::vec<bool> bl; bl.push(true); bl.push(false); type(c, bl);
  VH_CHECK(best::format("{:?}", Empty{}) == "Empty {}" && best::format("{:#?}", Empty{}) == "Empty {}", "empty-record", "an empty record prints %s", str(best::format("{:#?}", Empty{})).c_str()); VH_CHECK(best::format("{:?}", best::row<>{}) == "()" && best::format("{:#?}", best::row<>{}) == "()", "empty-row", "()"); best::option<void> ovd(best::VoidOption); best::result<void, int> rv{best::ok()}; best::choice<void, int> cv(best::index<0>); VH_CHECK(best::format("{:?} {:?} {:?}", ovd, rv, cv) == "option(void) ok(void) choice<0>(void)", "void", "void values print %s", str(best::format("{:?} {:?} {:?}", ovd, rv, cv)).c_str()); c.event("fixed_forms");
}
