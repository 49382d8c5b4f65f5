// C19: format templates. (1) Random and damaged templates through the template parser at run time, in exact-size blocks,
// against an independent parser; (2) thousands of generated templates offered to the compiler: accepted exactly when the
// independent parser accepts them for the argument types, and the accepted ones rendered and compared.
#include "fmtref.h"
#include "best/container/vec.h"
#include "best/memory/ptr.h"
#include <utility>
using namespace vh; using namespace fr; using best::format_spec;

namespace c19 {
struct Str { char c[160] = {}; size_t n = 0; constexpr void add(char x) { if (n < 150) c[n++] = x; } constexpr void add(const char* s) { while (*s) add(*s++); } constexpr void num(u64 v) { char b[24] = {}; int k = 0; do b[k++] = char('0' + v % 10); while (v /= 10); while (k) add(b[--k]); } };
// A template, mostly well-formed; `args` indices are mostly in range.
constexpr Str make(u64 seed, int args, int pieces) {
  Rng g(seed); Str s; bool multi = false;
  for (int p = 0; p < pieces; p++) {
    switch (g.below(7)) {
      case 0: s.add("{{"); break; case 1: s.add("}}"); break; case 2: { const char* L[] = {"a", " ", "x: ", "0", "\n", ":", "?", "<"}; s.add(L[g.below(8)]); break; }
      case 3: s.add("\xc3\xa9"); multi = true; break;
      default: {
        s.add('{'); if (g.chance(1, 3)) s.num(g.chance(1, 8) ? g.below(12) : g.below((u64)args)); if (g.chance(1, 150)) s.num(g.below(1000000)), s.num(4294967296 + g.below(3));
        if (g.chance(3, 4)) { s.add(':'); if (g.chance(1, 10)) s.add('!');
          if (g.chance(1, 3)) { bool w = true; if (g.flip()) { const char F[] = "*x0-<>^#:.{!? "; s.add(F[g.below(14)]); } s.add("<^>"[g.below(3)]); if (g.chance(1, 8)) s.add('#'); if (g.chance(1, 12)) w = false; if (w) s.num(1 + g.below(g.chance(1, 6) ? 40 : 9)); }
          else { if (g.chance(1, 4)) s.add('#'); if (g.chance(1, 6)) s.add('0'); if (g.chance(1, 3)) s.num(g.chance(1, 10) ? 0 : g.chance(1, 60) ? 4294967296ull + g.below(20) : 1 + g.below(14)); }
          if (g.chance(1, 6)) { s.add('.'); s.num(g.below(8)); } if (g.chance(1, 3)) s.add("boxXqpz"[g.below(g.chance(1, 8) ? 7 : 5)]); if (g.chance(1, 3)) s.add('?'); }
        s.add('}'); } }
  }
  if (!multi && g.chance(2, 5)) for (u64 k = 1 + g.below(2); k--;) { if (!s.n) break; const char A[] = "{}:!<>^#0123.?xqbp a"; size_t i = g.below(s.n); switch (g.below(4)) { case 0: for (size_t j = i; j + 1 < s.n; j++) s.c[j] = s.c[j + 1]; s.c[--s.n] = 0; break; case 1: s.c[i] = A[g.below(20)]; break; case 2: { for (size_t j = s.n; j > i; j--) s.c[j] = s.c[j - 1]; s.c[i] = A[g.below(20)]; s.n++; break; } default: for (size_t j = i; j < s.n; j++) s.c[j] = 0; s.n = i; } }
  return s;
}
// The independent parser. unclear: inputs the documentation leaves open.
struct Part { std::string text; u64 idx = 0; Spec s; bool arg = false, pass = false; };
struct Parsed { bool ok = true, unclear = false; std::vector<Part> parts; };
static Parsed parse(const std::string& t) {
  Parsed o; size_t i = 0; u64 next = 0; auto at = [&](size_t k) { return k < t.size() ? t[k] : '\0'; }; auto lit = [&](char ch) { if (o.parts.empty() || o.parts.back().arg) o.parts.push_back({}); o.parts.back().text += ch; }; auto bad = [&] { o.ok = false; return o; };
  auto digit = [&](size_t k) { return k < t.size() && t[k] >= '0' && t[k] <= '9'; }; auto align = [&](size_t k) { return k < t.size() && (t[k] == '<' || t[k] == '^' || t[k] == '>'); };
  auto num = [&](bool& fits) { u64 v = 0; while (digit(i)) { v = v * 10 + (t[i++] - '0'); if (v > 4294967294u) fits = false, v = 5000000000u; } return v; };
  while (i < t.size()) {
    if (t[i] == '}') { if (at(i + 1) != '}') return bad(); lit('}'); i += 2; continue; } if (t[i] != '{') { lit(t[i++]); continue; } if (at(i + 1) == '{') { lit('{'); i += 2; continue; }
    i++; Part p; p.arg = true; bool fits = true; bool explicit_idx = digit(i); if (explicit_idx) { p.idx = num(fits); if (!fits) return bad(); }
    if (at(i) == ':') { i++; if (!explicit_idx) p.idx = next++;
      if (at(i) == '!') { i++; p.pass = true; p.s.s.debug = p.s.s.pass_through = true; if (align(i)) o.unclear = true; }
      if (at(i) == '}' && align(i + 1)) o.unclear = true;   // is the brace a fill?
      bool al = false; if (i < t.size() && align(i + 1) ) { if ((u8)t[i] >= 0x80) { o.unclear = true; return bad(); } p.s.fill = (u8)t[i]; p.s.s.fill = tx::rune(p.s.fill); i++; al = true; } else if (align(i)) al = true;
      if (al) { p.s.al = t[i] == '<' ? 0 : t[i] == '^' ? 1 : 2; p.s.s.alignment = p.s.al == 0 ? format_spec::Left : p.s.al == 1 ? format_spec::Center : format_spec::Right; i++; }
      if (at(i) == '#') p.s.s.alt = true, i++; bool zero = false; if (at(i) == '0') { if (al) return bad(); zero = p.s.s.sign_aware_padding = true; i++; }
      if (digit(i)) { u64 w = num(fits); if (!fits || !w) return bad(); p.s.width = p.s.s.width = (u32)w; } else if (al || zero) return bad();
      if (at(i) == '.') { i++; if (!digit(i)) o.unclear = true; p.s.prec = (i64)num(fits); if (!fits) return bad(); p.s.s.prec = (u32)p.s.prec; }
      if ((at(i) >= 'a' && at(i) <= 'z') || (at(i) >= 'A' && at(i) <= 'Z')) { p.s.m = t[i++]; p.s.s.method = tx::rune(p.s.m); } if (at(i) == '?') p.s.s.debug = true, i++;
    } else if (!explicit_idx) p.idx = next++;
    if (at(i) != '}' || i >= t.size()) return bad(); i++; o.parts.push_back(p);
  }
  return o;
}
struct Dbg { Dbg() {} friend void BestFmt(auto& f, const Dbg&) { f.write("D"); } };
struct Kind { bool dbg, width, prec; const char* methods; };
template <class T> constexpr Kind kind() { if constexpr (std::is_same_v<T, int> || std::is_same_v<T, best::vec<int>>) return {false, true, false, "boxX"}; else if constexpr (std::is_same_v<T, best::str>) return {false, true, true, "q"}; else if constexpr (std::is_same_v<T, bool>) return {false, true, false, ""}; else if constexpr (std::is_same_v<T, best::rune>) return {false, true, false, "q"}; else if constexpr (std::is_same_v<T, best::ptr<int>>) return {false, false, false, "p"}; else return {true, false, false, ""}; }
static bool allowed(const Parsed& p, const std::vector<Kind>& k) { if (!p.ok) return false; for (auto& x : p.parts) if (x.arg) { if (x.idx >= k.size()) return false; auto& q = k[x.idx]; if ((q.dbg && !x.s.s.debug) || (!q.width && x.s.width) || (!q.prec && x.s.prec >= 0) || (x.s.m && !strchr(q.methods, x.s.m))) return false; } return true; }
// Rendering.
static std::string out(const Spec& s, int v) { return want_int(s, v); }
static std::string out(const Spec& s, bool v) { return pad(s, v ? "true" : "false", v ? 4 : 5, 0); }
static std::string out(const Spec& s, const best::rune& r) { if (s.m == 'q' || s.s.debug) return "'" + esc(r.to_int()) + "'"; return pad(s, u(r.to_int()), 1, 0); }
static std::string out(const Spec& s, const best::str& v) { std::string b(v.data(), v.size()); if (s.m == 'q' || s.s.debug) { std::string q = "\""; for (char x : b) q += esc((u8)x); return q + "\""; } if (s.prec >= 0 && (size_t)s.prec < b.size()) b.resize((size_t)s.prec); return pad(s, b, b.size(), 0); }
static std::string out(const Spec&, const best::ptr<int>& p) { return vh::fmt("0x%llx", (unsigned long long)p.raw()); }
static std::string out(const Spec&, const Dbg&) { return "D"; }
static std::string out(const Spec& s, const best::vec<int>& v) { std::string o = "["; size_t n = 0; for (int x : v) { if (n++) o += ","; if (s.s.alt) o += "\n  "; else if (n > 1) o += " "; o += want_int(s, x); } if (s.s.alt && n) o += ",\n"; return o + "]"; }
static bool quoted_padding(const Part& x) { return x.s.width && (x.s.m == 'q' || x.s.s.debug); }

struct Got { bool accepted; std::string once, appended; };
// Offers the literal to the compiler for these argument types.
#define OFFER(lit) one(c, std::string(lit, sizeof(lit) - 1), []<class... A>(const A&... a) -> Got { if constexpr (requires { best::format_template<A...>(lit); }) { auto r = best::format(lit, a...); best::strbuf two = "pre"; best::format(two, lit, a...); return {true, std::string(r.data(), r.size()), std::string(two.data(), two.size())}; } else return {false, "", ""}; }, ARGS)
template <class F, class... A> void one(Ctx& c, const std::string& t, F offer, const A&... a) {
  auto p = parse(t); c.eval(); if (p.unclear) { c.event("unclear_templates"); return; } bool want = allowed(p, {kind<A>()...}); Got got = offer(a...);
  VH_CHECK(got.accepted == want, got.accepted ? "accepts-malformed" : "rejects-wellformed", "template \"%s\" for %d arguments", vh::show(t).c_str(), (int)sizeof...(A)); c.event(got.accepted ? "accepted_templates" : "rejected_templates"); c.state(hstr(t)); if (!got.accepted || !want) return;
  std::string o; bool skip = false; for (auto& x : p.parts) { o += x.text; if (x.arg) { if (quoted_padding(x)) skip = true; size_t k = 0; Spec s = x.s; if (x.pass) { s = Spec{}; s.s.debug = true; } ((k++ == x.idx ? (void)(o += out(s, a)) : (void)0), ...); } } if (skip) return; VH_CHECK(got.once == o, "rendering", "template \"%s\" rendered \"%s\", not \"%s\"", vh::show(t).c_str(), vh::show(got.once).c_str(), vh::show(o).c_str()); VH_CHECK(got.appended == "pre" + o, "appending", "%s", vh::show(t).c_str()); c.event("rendered_templates");
}
static int target[1];
}  // namespace c19
using namespace c19;

#ifdef PART_A
VH_WORKLOAD(parse, 60000, 3000000) {
  auto s = make(c.rng.next(), 3, (int)c.rng.below(9)); std::string t(s.c, s.n); auto p = parse(t); if (p.unclear) { c.event("unclear_templates"); return; }
  char* b = (char*)malloc(t.size() + !t.size()); if (!t.empty()) memcpy(b, t.data(), t.size()); std::vector<Part> got; bool ok = best::format_internal::visit_template(b, t.size(), [&](best::str x) { if (got.empty() || got.back().arg) got.push_back({}); got.back().text += std::string(x.data(), x.size()); return true; }, [&](size_t n, const format_spec& sp) { Part q; q.arg = true; q.idx = n; q.s.s = sp; got.push_back(q); return true; }); free(b); c.eval();
  VH_CHECK(ok == p.ok, ok ? "parses-malformed" : "refuses-wellformed", "template \"%s\"", vh::show(t).c_str()); c.event(ok ? "wellformed" : "malformed"); c.state(hstr(t)); if (!ok || !p.ok) return; bool same = got.size() == p.parts.size(); for (size_t i = 0; same && i < got.size(); i++) { auto &x = got[i], &y = p.parts[i]; same = x.arg == y.arg && x.text == y.text && x.idx == y.idx && x.s.s == y.s.s; } VH_CHECK(same, "parsed-parts", "template \"%s\" is split into the wrong parts", vh::show(t).c_str()); c.sample(t);
  // A callback that refuses stops the parse.
  if (got.size() > 1) { size_t stop = c.rng.below(2), args = 0; for (auto& x : got) args += x.arg; if (stop < args) { size_t seen = 0; bool r = best::format_internal::visit_template(t.data(), t.size(), nullptr, [&](size_t, const format_spec&) { return seen++ != stop; }); VH_CHECK(!r && seen == stop + 1, "refusing-callback", "%s", vh::show(t).c_str()); c.event("stopped_parses"); } }
}
VH_WORKLOAD(fixed, 1, 1) {
  auto is = [&](const best::strbuf& s, const char* w) { VH_CHECK(s.size() == strlen(w) && !memcmp(s.data(), w, s.size()), "fixed", "got %.*s, not %s", (int)s.size(), s.data(), w); c.eval(); }; is(best::format(), "");
  // A valid template that the compiler refuses is a violation, not a build failure.
#define FIX(want, lit, ...) [&]<class... A>(const A&... a) { if constexpr (requires { best::format_template<A...>(lit); }) is(best::format(lit, a...), want); else VH_CHECK(false, "valid-template-refused", "%s", lit); }(__VA_ARGS__)
  FIX("plain", "plain"); FIX("{}", "{{}}"); FIX("1121", "{0}{0}{1}{}", 1, 2); FIX("\"x\"", "{:!}", "x"); FIX("2 x", "{1:!} {0}", "x", 2); FIX("1 2 3", "{} {} {}", 1, 2, 3); FIX("1122", "{0}{}{1}{}", 1, 2);
}
#elif defined PART_B
#define ARGS -42, best::str("he\"y")
#define SET_B
VH_WORKLOAD(two_args1, 1, 1) {
#include "c19_templates.inc"
}
#elif defined PART_C
#define ARGS -42, best::str("he\"y")
#define SET_C
VH_WORKLOAD(two_args2, 1, 1) {
#include "c19_templates.inc"
}
#elif defined PART_D
#define ARGS true, best::str("strings"), 77
#define SET_D
VH_WORKLOAD(three_args1, 1, 1) {
#include "c19_templates.inc"
}
#elif defined PART_E
#define ARGS true, best::str("strings"), 77
#define SET_E
VH_WORKLOAD(three_args2, 1, 1) {
#include "c19_templates.inc"
}
#elif defined PART_F
#define ARGS Dbg(), best::ptr<int>(target), tx::rune(0xe9)
#define SET_F
VH_WORKLOAD(odd_args1, 1, 1) {
#include "c19_templates.inc"
}
#elif defined PART_G
#define ARGS Dbg(), best::ptr<int>(target), tx::rune(0xe9)
#define SET_G
VH_WORKLOAD(odd_args2, 1, 1) {
#include "c19_templates.inc"
}
#elif defined PART_H
#define ARGS v, 5
#define SET_H
VH_WORKLOAD(vec_args1, 1, 1) { best::vec<int> v; v.push(1); v.push(-20);
#include "c19_templates.inc"
}
#elif defined PART_I
#define ARGS v, 5
#define SET_I
VH_WORKLOAD(vec_args2, 1, 1) { best::vec<int> v; v.push(1); v.push(-20);
#include "c19_templates.inc"
}
#endif
