// C26: usage texts of generated command definitions, taken apart line by line and compared with what the definition makes
// visible.
#include <algorithm>
#include <memory>
#include "vh.h"
#include "cli_model.h"
#include "best/text/utf8.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/format.h"
#include "best/cli/parser.h"
#ifdef PART_A
#define PARTNS pa
#elif defined PART_B
#define PARTNS pb
#elif defined PART_C
#define PARTNS pc
#elif defined PART_D
#define PARTNS pd
#elif defined PART_E
#define PARTNS pe
#else
#define PARTNS pf
#endif
namespace PARTNS {
using namespace vh; using namespace cm; using best::cli;
struct Celsius { int deg = 0; friend best::result<void, best::strbuf> BestFromArgv(auto raw, Celsius& c) { return best::ok(); } };
struct Quiet { size_t n = 0; friend best::result<void, best::strbuf> BestFromArgv(auto raw, Quiet& q) { return best::ok(); } };
struct Got { bool ok = false, fatal = false; std::string msg; };
struct Def { const char* name; Node* (*node)(); Got (*parse)(const std::string&, best::span<const best::pretext<best::wtf8>>); Node* root = nullptr; };
inline std::vector<Def>& defs() { static std::vector<Def> d; return d; }
template <class T> void put(Map& m, const std::string& p, const T& v) {}
#define DEFINITION(R) static int reg_##R = (defs().push_back({#R, node_##R, [](const std::string& exe, best::span<const best::pretext<best::wtf8>> a) -> Got { Got g; auto r = best::parse_flags<R>(best::pretext<best::wtf8>(best::span(exe.data(), exe.size())), a); HeapPause hp; if (r.is_ok()) { g.ok = true; } else { auto m = r.err()->message(); g.msg.assign(m.data(), m.size()); g.fatal = r.err()->is_fatal(); } return g; }}), 0);
#include "c26_defs.inc"

static bool visible(int v, bool hidden) { return v == VPublic || (hidden && v == VHidden); }
struct Item { std::string letter, key, arg, help; std::vector<std::string> others; bool vague_names = false; };
static void collect(const Node* n, const std::string& key, int vis, bool copy, bool hidden, std::vector<Item>& out, std::vector<std::string>& vague, std::set<std::string>& letters, std::set<std::string>& maybe_letters) {
  for (auto& f : n->flags) { int v = std::max(vis, (int)f.vis); if (f.vis == VDelete) continue;
    if (!visible(v, hidden)) { for (auto& a : f.aliases) if (visible(std::max(vis, (int)a.vis), hidden)) vague.push_back(key + norm(a.name)); continue; }  // whether a visible alias shows a hidden flag is not specified
    if (f.letter && !copy) (f.help.empty() && !hidden ? maybe_letters : letters).insert(enc(f.letter));
    if (f.help.empty() && !hidden && !copy) continue;
    Item it{f.letter && !copy ? enc(f.letter) : "", key + norm(f.name), f.wants() ? f.arg.empty() ? "ARG" : f.arg : "", f.help.empty() ? "<undocumented>" : f.help, {}}; for (auto& a : f.aliases) if (visible(std::max(vis, (int)a.vis), hidden)) it.others.push_back(key + norm(a.name)); out.push_back(it); }
  for (auto& g : n->groups) { int v = std::max(vis, (int)g.vis); if (g.vis == VDelete) continue; if (g.flat()) { collect(g.child, key, v, copy, hidden, out, vague, letters, maybe_letters); continue; }
    for (auto& a : g.aliases) vague.push_back(key + norm(a.name) + ".");
    if (g.name.empty()) vague.push_back(key + norm(g.field) + ".");
    if (!visible(v, hidden)) { for (auto& a : g.aliases) vague.push_back(key + norm(a.name)); continue; }
    if (g.letter && !copy) letters.insert(enc(g.letter));
    Item it{g.letter && !copy ? enc(g.letter) : "", key + norm(g.name.empty() ? g.field : g.name), "FLAG", g.help.empty() ? "<undocumented>" : g.help, {}}; it.vague_names = g.name.empty(); for (auto& a : g.aliases) if (visible(std::max(vis, (int)a.vis), hidden)) it.others.push_back(key + norm(a.name)); out.push_back(it);
    if (hidden && !g.name.empty()) collect(g.child, key + norm(g.name) + ".", std::max(v, (int)VHidden), true, hidden, out, vague, letters, maybe_letters); } }
struct Line { std::string letter, key, arg, help; };
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = s.find('\n', p); if (q == std::string::npos) { v.push_back(s.substr(p)); return v; } v.push_back(s.substr(p, q - p)); p = q + 1; } }
static std::string strip(std::string s) { size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '.')) i++; return s.substr(i); }
// Takes one entry line apart; false if it is not one.
static bool entry(const std::string& l, Line& out) {
  if (l.compare(0, 2, "  ") != 0 || l.size() < 8) return false; size_t p;
  if (l[2] == '-' && l[3] != '-') { p = l.find(", "); if (p == std::string::npos) return false; out.letter = l.substr(3, p - 3); p += 2; } else if (l.compare(0, 6, "      ") == 0) p = 6; else return false;
  if (l.compare(p, 2, "--") != 0) return false; size_t e = p + 2; while (e < l.size() && l[e] != ' ' && l[e] != ',') e++; out.key = l.substr(p + 2, e - p - 2); std::string rest = l.substr(e);
  if (rest.size() > 1 && rest[0] == ' ' && rest[1] != ' ' && rest[1] != '.') { size_t q = rest.find_first_of(" ,", 1); out.arg = rest.substr(1, q == std::string::npos ? q : q - 1); rest = q == std::string::npos ? "" : rest.substr(q); }
  if (!rest.empty() && rest[0] == ',') rest = rest.substr(1); out.help = strip(rest); return true; }
static void usage(Ctx& c, Def& d, const std::vector<std::string>& argv, const Node* target, const Node* cmd, bool in_group, const std::string& about, bool hidden) {
  std::vector<std::unique_ptr<char[]>> own; std::vector<best::pretext<best::wtf8>> v; for (auto& s : argv) { own.emplace_back(new char[s.size()]); memcpy(own.back().get(), s.data(), s.size()); v.push_back(best::pretext<best::wtf8>(best::span<const char>((const char*)own.back().get(), s.size()))); }
  std::string where = d.name; for (auto& a : argv) where += " " + a; Got g = d.parse("/opt/the-prog", best::span<const best::pretext<best::wtf8>>(v.data(), v.size()));
  if (g.ok || g.fatal) { VH_FAIL("not-usage", "%s: %s", where.c_str(), g.ok ? "accepted" : show(g.msg).c_str()); return; }
  auto lines = split(g.msg); std::vector<Item> want; std::vector<std::string> vague; std::set<std::string> letters, maybe; collect(target, "", VPublic, false, hidden, want, vague, letters, maybe);
  // The usage line.
  { std::vector<Item> w2; std::vector<std::string> v2; std::set<std::string> ls, mb; collect(cmd, "", VPublic, false, hidden, w2, v2, ls, mb); ls.insert("h"); const std::string& l = lines[0]; VH_CHECK(l.compare(0, 15, "Usage: the-prog") == 0, "usage-line", "%s: %s", where.c_str(), show(l).c_str());
    size_t o = l.find(" [OPTIONS]"); VH_CHECK(o != std::string::npos, "usage-line", "%s: no [OPTIONS] in %s", where.c_str(), show(l).c_str()); if (o == std::string::npos) return; std::string head = l.substr(0, o); size_t sp = head.rfind(" -"); std::vector<char32_t> rs; std::set<std::string> got; bool dup = false; dec(sp == std::string::npos ? "" : head.substr(sp + 2), rs); for (auto r : rs) dup |= !got.insert(enc(r)).second; 
    VH_CHECK(!dup, "letters", "%s: repeated letter in %s", where.c_str(), show(l).c_str()); for (auto& x : ls) VH_CHECK(got.count(x), "letters", "%s: letter %s is missing from %s", where.c_str(), x.c_str(), show(l).c_str()); for (auto& x : got) VH_CHECK(ls.count(x) || mb.count(x), "letters-hidden", "%s: letter %s must not be shown in %s", where.c_str(), x.c_str(), show(l).c_str());
    VH_CHECK((head.find(" [SUBOPTION]") != std::string::npos) == in_group, "usage-line", "%s: [SUBOPTION] in %s", where.c_str(), show(l).c_str());
    // Subcommands and positionals.
    std::string tail = l.substr(o + 10); std::set<std::string> subs; size_t k = 0; auto& table = subs_of(cmd); std::string args; for (size_t i = 0; i < cmd->poss.size(); i++) { auto& p = cmd->poss[i]; std::string nm = p.name.empty() ? vh::fmt("ARG%zu", i + 1) : p.name; args += p.cnt() == 1 ? " <" + nm + ">" : p.cnt() == 2 ? " [" + nm + "]..." : " [" + nm + "]"; }
    VH_CHECK(tail.size() >= args.size() && tail.compare(tail.size() - args.size(), args.size(), args) == 0, "positionals", "%s: the usage line %s must end with %s", where.c_str(), show(l).c_str(), show(args).c_str()); tail = tail.substr(0, tail.size() - std::min(tail.size(), args.size()));
    if (!tail.empty()) { VH_CHECK(tail.size() > 3 && tail.compare(0, 2, " [") == 0 && tail.back() == ']', "usage-subcommands", "%s: %s", where.c_str(), show(l).c_str()); std::string in = tail.substr(2, tail.size() - 3); for (size_t p = 0;;) { size_t q = in.find('|', p); VH_CHECK(subs.insert(in.substr(p, q == std::string::npos ? q : q - p)).second, "usage-subcommands", "%s: a subcommand is listed twice in %s", where.c_str(), show(l).c_str()); if (q == std::string::npos) break; p = q + 1; } }
    (void)k; std::function<void(const Node*, const std::string&, int)> go = [&](const Node* n, const std::string& key, int vis) { for (auto& s : n->subs) { auto one = [&](const std::string& nm, int v) { bool vs = visible(std::max(vis, v), hidden) && s.vis != VDelete && v != VDelete; bool has = subs.count(key + norm(nm)); if (vs) VH_CHECK(has, "usage-subcommands", "%s: subcommand %s is missing from %s", where.c_str(), (key + nm).c_str(), show(l).c_str()); else VH_CHECK(!has, "usage-hidden-subcommand", "%s: subcommand %s must not be shown in %s", where.c_str(), (key + nm).c_str(), show(l).c_str()); }; one(s.name, s.vis); for (auto& a : s.aliases) one(a.name, a.vis); }
      for (auto& gr : n->groups) { int v = std::max(vis, (int)gr.vis); if (gr.flat()) go(gr.child, key, v); else if (!gr.name.empty()) go(gr.child, key + norm(gr.name) + ".", std::max(v, (int)VHidden)); } }; go(cmd, "", VPublic); (void)table; c.event("usage_lines"); }
  // The description.
  size_t i = 1; std::string text; while (i < lines.size() && lines[i].compare(0, 2, "# ") != 0) text += lines[i++] + "\n"; std::string wt = about.empty() ? "" : about + "\n\n"; VH_CHECK(text == wt, "about", "%s: the description is %s, must be %s", where.c_str(), show(text).c_str(), show(wt).c_str());
  // Sections up to the flags: subcommands, and arguments with their help.
  struct Ent2 { std::string key, help; }; std::map<std::string, std::vector<Ent2>> sections; std::string sec;
  for (; i < lines.size() && lines[i] != "# Flags"; i++) { auto& l = lines[i]; if (l.compare(0, 2, "# ") == 0) { sec = l.substr(2); continue; } if (l.empty()) continue; size_t ind = l.find_first_not_of(' '); if (ind == std::string::npos) continue; auto& list = sections[sec]; if (ind >= 20) { if (list.empty()) VH_FAIL("section", "%s: %s", where.c_str(), show(l).c_str()); else list.back().help += (list.back().help.empty() ? "" : "\n") + l.substr(ind); continue; } size_t e = l.find(' ', ind); list.push_back({l.substr(ind, e == std::string::npos ? e : e - ind), e == std::string::npos ? "" : strip(l.substr(e))}); }
  { std::map<std::string, std::string> ws; std::set<std::string> vg; std::function<void(const Node*, const std::string&, int)> go = [&](const Node* n, const std::string& key, int vis) { for (auto& s : n->subs) { auto one = [&](const std::string& nm, int v) { if (s.vis != VDelete && visible(std::max(vis, v), hidden)) ws[key + norm(nm)] = s.help; }; one(s.name, s.vis); for (auto& a : s.aliases) one(a.name, a.vis); }
      for (auto& gr : n->groups) { int v = std::max(vis, (int)gr.vis); if (gr.vis == VDelete) continue; if (gr.flat()) go(gr.child, key, v); else { for (auto& a : gr.aliases) vg.insert(key + norm(a.name)); if (gr.name.empty()) vg.insert(key + norm(gr.field)), vg.insert(key + enc(gr.letter)); else { go(gr.child, key + norm(gr.name) + ".", std::max(v, (int)VHidden)); if (gr.letter) vg.insert(key + enc(gr.letter)); } } } }; go(target, "", VPublic);
    std::map<std::string, int> seen; for (auto& e : sections["Subcommands"]) { if (size_t p = e.key.find('.'); p != std::string::npos && !ws.count(e.key)) { bool ok = false; for (auto& x : vg) ok |= e.key.compare(0, x.size() + 1, x + ".") == 0; if (ok) continue; } auto it = ws.find(e.key); if (it == ws.end()) { VH_FAIL("hidden-subcommand", "%s: subcommand %s must not be listed", where.c_str(), show(e.key).c_str()); continue; } VH_CHECK(e.help == it->second, "subcommand-help", "%s: subcommand %s has help %s, must be %s", where.c_str(), e.key.c_str(), show(e.help).c_str(), show(it->second).c_str()); VH_CHECK(seen[e.key]++ == 0, "subcommand-twice", "%s: subcommand %s is listed twice", where.c_str(), e.key.c_str()); }
    for (auto& [k, h] : ws) VH_CHECK(seen.count(k), "subcommand-missing", "%s: subcommand %s is not listed", where.c_str(), k.c_str()); c.event("subcommands_listed", ws.size()); }
  for (auto& p : cmd->poss) if (!p.help.empty() && !in_group) { bool shown = false; std::string nm = p.name.empty() ? vh::fmt("ARG%zu", (size_t)(&p - cmd->poss.data()) + 1) : p.name; for (auto& [sn, list] : sections) for (auto& e : list) shown |= e.help == p.help && e.key == nm; VH_CHECK(shown, "positional-help", "%s: the help %s of positional %s is not shown", where.c_str(), show(p.help).c_str(), nm.c_str()); c.event("positional_helps"); }
  // The flags.
  VH_CHECK(i < lines.size(), "sections", "%s: no flags section", where.c_str()); std::vector<Line> got; for (i++; i < lines.size(); i++) { auto& l = lines[i]; Line e; if (l.empty()) continue; if (l.compare(0, 12, "  -h, --help") == 0) break; if (entry(l, e)) { got.push_back(e); continue; } size_t ind = l.find_first_not_of(' '); if (ind == std::string::npos) continue; if (ind >= 20 && !got.empty()) { got.back().help += (got.back().help.empty() ? "" : "\n") + l.substr(ind); continue; } VH_FAIL("flags-line", "%s: unexpected line %s", where.c_str(), show(l).c_str()); }
  std::map<std::string, const Item*> by; for (auto& it : want) { by[it.key] = &it; for (auto& o : it.others) by[o] = &it; } std::map<std::string, int> seen; std::map<const Item*, std::string> help;
  for (auto& e : got) { auto it = by.find(e.key); if (it == by.end()) { bool ok = false; for (auto& x : vague) ok |= e.key == x || (x.back() == '.' && e.key.compare(0, x.size(), x) == 0); if (!ok) VH_FAIL("hidden-flag", "%s: --%s must not be listed", where.c_str(), e.key.c_str()); continue; }
    auto& w = *it->second; if (seen[e.key]++) { VH_FAIL("flag-twice", "%s: --%s is listed twice", where.c_str(), e.key.c_str()); continue; } bool prim = e.key == w.key; VH_CHECK(e.letter == (prim ? w.letter : ""), "flag-letter", "%s: --%s is listed with letter %s, must be %s", where.c_str(), e.key.c_str(), show(e.letter).c_str(), show(w.letter).c_str()); VH_CHECK(e.arg == w.arg, "flag-argument", "%s: --%s is listed with argument %s, must be %s", where.c_str(), e.key.c_str(), show(e.arg).c_str(), show(w.arg).c_str()); if (!e.help.empty()) help[&w] += (help[&w].empty() ? "" : "\n") + e.help; }
  for (auto& it : want) { if (it.vague_names) { bool any = false; for (auto& e : got) any |= e.letter == it.letter; VH_CHECK(any || it.letter.empty(), "group-missing", "%s: group -%s is not listed", where.c_str(), it.letter.c_str()); continue; } VH_CHECK(seen.count(it.key), "flag-missing", "%s: --%s is not listed", where.c_str(), it.key.c_str()); if (!seen.count(it.key)) continue; for (auto& o : it.others) VH_CHECK(seen.count(o), "alias-missing", "%s: alias --%s is not listed", where.c_str(), o.c_str()); VH_CHECK(help[&it] == it.help, "flag-help", "%s: --%s has help %s, must be %s", where.c_str(), it.key.c_str(), show(help[&it]).c_str(), show(it.help).c_str()); }
  c.event(hidden ? "flags_listed_extended" : "flags_listed", want.size());
  // The end.
  std::string rest; for (; i < lines.size(); i++) rest += lines[i] + "\n"; VH_CHECK(rest.compare(0, 12, "  -h, --help") == 0, "help-flag", "%s: --help is not listed", where.c_str()); VH_CHECK((rest.find("--help-hidden") != std::string::npos) == hidden, "help-flag", "%s: --help-hidden listed", where.c_str());
  const Node* r = d.root; auto has = [&](const std::string& s) { return rest.find(s) != std::string::npos; };
  if (!r->version.empty()) VH_CHECK(has("Version: " + (r->name.empty() ? "the-prog" : r->name) + " v" + r->version + "\n"), "version", "%s: %s", where.c_str(), show(rest).c_str()); else VH_CHECK(!has("Version:"), "version", "%s: %s", where.c_str(), show(rest).c_str());
  if (!r->url.empty()) VH_CHECK(has("<" + r->url + ">\n"), "website", "%s: %s", where.c_str(), show(rest).c_str());
  VH_CHECK(has("(c)") == !r->authors.empty(), "authors", "%s: %s", where.c_str(), show(rest).c_str()); if (!r->authors.empty()) VH_CHECK(has("(c) " + (r->year >= 0 ? std::to_string(r->year) + " " : "") + r->authors + (r->license.empty() ? "" : ", licensed " + r->license)), "authors", "%s: %s", where.c_str(), show(rest).c_str());
  if (c.rng.chance(1, 20)) c.sample(where); c.state(hcomb(hstr(d.name), hstr(g.msg))); c.eval();
}
static void setup() { for (auto& d : defs()) if (!d.root) d.root = d.node(); }
struct Target { std::vector<std::string> argv; const Node *target, *cmd; bool group; std::string about; };
static void targets(const Node* root, std::vector<Target>& out) {
  std::vector<Target> todo = {{{}, root, root, false, root->about}};
  for (size_t t = 0; t < todo.size(); t++) { Target cur = todo[t]; out.push_back(cur);
    std::function<void(const Node*, const std::string&, const std::vector<std::string>&)> go = [&](const Node* n, const std::string& key, const std::vector<std::string>& pre) { for (auto& s : n->subs) { if (s.vis == VDelete) continue; auto a = cur.argv; a.push_back(key + s.name); if (key.empty()) todo.push_back({a, s.child, s.child, false, s.about.empty() ? s.help : s.about}); }
      for (auto& g : n->groups) { if (g.vis == VDelete) continue; if (g.flat()) { go(g.child, key, pre); continue; } if (g.vis == VInvisible) continue; if (!g.name.empty()) { auto a = cur.argv; a.push_back("--" + key + g.name + "."); out.push_back({a, g.child, cur.cmd, true, g.help}); go(g.child, key + g.name + ".", pre); } else if (key.empty()) { auto a = cur.argv; a.push_back("-" + enc(g.letter)); out.push_back({a, g.child, cur.cmd, true, g.help}); } } }; go(cur.cmd, "", cur.argv); } }
#define NAME2(a, b) a##_##b
#define NAME(a, b) NAME2(a, b)
#define WL2(n, q, t) VH_WORKLOAD(n, q, t)
#define WL(n, q, t) WL2(n, q, t)
// Every place of every definition that can be asked for its usage, in both forms and through every spelling.
WL(NAME(usages, PARTNS), 8, 200) { setup(); for (auto& d : defs()) { std::vector<Target> ts; targets(d.root, ts); for (auto& t : ts) for (int hidden = 0; hidden < 2; hidden++) { std::string h = hidden ? "help-hidden" : "help"; auto a = t.argv; if (!t.group) { if (!hidden && c.rng.flip()) a.push_back("-h"); else a.push_back("--" + h); } else if (a.back().back() == '.') a.back() += h; else a.push_back(h);
      if (c.rng.flip()) a.push_back(c.rng.flip() ? "--no-such-flag" : "extra"); usage(c, d, a, t.target, t.cmd, t.group, t.about, hidden); c.event(t.group ? "group_usages" : t.argv.empty() ? "program_usages" : "subcommand_usages"); } } }
}  // namespace PARTNS
