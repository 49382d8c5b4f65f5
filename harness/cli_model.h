// Descriptions of command definitions (written by tools/gen_cli.py next to the reflected structs) and an independent reading
// of the documented command-line syntax over them. Knows nothing of the code under test.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include "vh.h"
namespace cm {
using Map = std::map<std::string, std::string>;
enum Kind { K_int, K_u8, K_i64, K_bool, K_opt_int, K_opt_bool, K_vec_int, K_vec_bool, K_vec_str, K_str, K_strbuf, K_rune, K_opt_rune, K_vec_buf, K_custom, K_quiet };
enum Vis { VPublic, VHidden, VInvisible, VDelete };
struct Alias { std::string name; Vis vis; };
struct MFlag { std::string field; Kind kind; std::string name; char32_t letter; Vis vis; std::vector<Alias> aliases; int count; std::string arg, help;
  bool wants() const { return kind != K_bool && kind != K_opt_bool && kind != K_vec_bool; } bool vec() const { return kind == K_vec_int || kind == K_vec_bool || kind == K_vec_str || kind == K_vec_buf; }
  int cnt() const { return count >= 0 ? count : vec() ? 2 : 0; } };
struct Node;
struct MGroup { std::string field, name; char32_t letter; Vis vis; std::vector<Alias> aliases; std::string help; Node* child; bool flat() const { return name.empty() && !letter; } };
struct MSub { std::string field, name; Vis vis; std::vector<Alias> aliases; std::string help, about; Node* child; };
struct MPos { std::string field; Kind kind; std::string name; int count; std::string help; int cnt() const { return count >= 0 ? count : kind == K_vec_int || kind == K_vec_bool || kind == K_vec_str || kind == K_vec_buf ? 2 : 0; } };
struct Node { std::vector<MFlag> flags; std::vector<MGroup> groups; std::vector<MSub> subs; std::vector<MPos> poss; bool has_app = false; std::string name, authors, about, version, url, license; int year = -1; };

inline std::string enc(char32_t r) { std::string s; if (r < 0x80) s += (char)r; else if (r < 0x800) { s += (char)(0xc0 | r >> 6); s += (char)(0x80 | (r & 63)); } else if (r < 0x10000) { s += (char)(0xe0 | r >> 12); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); } else { s += (char)(0xf0 | r >> 18); s += (char)(0x80 | (r >> 12 & 63)); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); } return s; }
// Strict UTF-8; false if not.
inline bool dec(const std::string& s, std::vector<char32_t>& out) {
  for (size_t i = 0; i < s.size();) { unsigned char b = (unsigned char)s[i]; int n = b < 0x80 ? 0 : (b & 0xe0) == 0xc0 ? 1 : (b & 0xf0) == 0xe0 ? 2 : (b & 0xf8) == 0xf0 ? 3 : -1; if (n < 0 || i + (size_t)n >= s.size()) return false;
    char32_t r = n == 0 ? b : n == 1 ? b & 31u : n == 2 ? b & 15u : b & 7u; for (int k = 1; k <= n; k++) { unsigned char x = (unsigned char)s[i + (size_t)k]; if ((x & 0xc0) != 0x80) return false; r = r << 6 | (x & 63u); }
    static const char32_t lo[] = {0, 0x80, 0x800, 0x10000}; if (r < lo[n] || r > 0x10ffff || (r >= 0xd800 && r < 0xe000)) return false; out.push_back(r); i += (size_t)n + 1; }
  return true; }
inline bool utf8(const std::string& s) { std::vector<char32_t> v; return dec(s, v); }
inline std::string norm(std::string s) { for (auto& c : s) if (c == '_') c = '-'; return s; }

// One name in scope.
struct Ent { enum What { Flag, GroupRef, Help, HelpHidden, Unspec } what; const MFlag* f = nullptr; std::string path; const Node* child = nullptr; };
struct Scope { std::map<std::string, Ent> names; std::map<char32_t, Ent> letters; std::set<std::string> vague; };  // vague: first parts of names nothing is documented about
inline void add_scope(Scope& s, const Node* n, const std::string& path, const std::string& key, bool top) {
  for (auto& f : n->flags) { if (f.vis == VDelete) continue; Ent e{Ent::Flag, &f, path + f.field, nullptr}; s.names[key + norm(f.name)] = e; if (f.letter) { s.names[key + enc(f.letter)] = e; if (top) s.letters[f.letter] = e; } for (auto& a : f.aliases) if (a.vis != VDelete) s.names[key + norm(a.name)] = e; }
  for (auto& g : n->groups) { if (g.vis == VDelete) continue; std::string p = path + g.field + ".";
    if (g.flat()) { add_scope(s, g.child, p, key, top); continue; }
    std::vector<std::string> names; if (!g.name.empty()) names.push_back(norm(g.name)); for (auto& a : g.aliases) if (a.vis != VDelete) names.push_back(norm(a.name));
    for (auto& nm : names) { s.names[key + nm] = {Ent::GroupRef, nullptr, p, g.child}; s.names[key + nm + ".help"] = {Ent::Help, nullptr, p, g.child}; s.names[key + nm + ".help-hidden"] = {Ent::HelpHidden, nullptr, p, g.child}; s.names[key + nm + ".h"] = {Ent::Unspec}; add_scope(s, g.child, p, key + nm + ".", false); }
    if (g.letter) { std::string l = enc(g.letter); Ent e{Ent::GroupRef, nullptr, p, g.child}; s.names[key + l] = e; if (top) s.letters[g.letter] = e; s.names[key + l + "help"] = {Ent::Help, nullptr, p, g.child}; s.names[key + l + "help-hidden"] = {Ent::HelpHidden, nullptr, p, g.child}; s.names[key + l + "h"] = {Ent::Unspec}; add_scope(s, g.child, p, key + l, false); s.vague.insert(key + l); if (g.name.empty()) { s.vague.insert(key + norm(g.field)); s.names[key + norm(g.field)] = {Ent::Unspec}; } } }
}
inline const Scope& scope_of(const Node* n) {
  static std::map<const Node*, Scope> cache; auto it = cache.find(n); if (it != cache.end()) return it->second; Scope s; add_scope(s, n, "", "", true);
  s.names["help"] = {Ent::Help, nullptr, "", n}; s.names["help-hidden"] = {Ent::HelpHidden, nullptr, "", n}; s.names["h"] = {Ent::Unspec}; s.names["version"] = {Ent::Unspec}; s.letters['h'] = {Ent::Help, nullptr, "", n}; s.letters['V'] = {Ent::Unspec}; s.names["V"] = {Ent::Unspec};
  return cache[n] = s; }
inline Ent find(const Scope& s, const std::string& raw, bool& found) { std::string k = norm(raw); auto it = s.names.find(k); found = it != s.names.end(); if (found) return it->second; for (auto& v : s.vague) if (k.compare(0, v.size() + 1, v + ".") == 0) { found = true; return {Ent::Unspec}; } return {Ent::Unspec}; }
struct SubEnt { const MSub* s; std::string path; };
inline void add_subs(std::map<std::string, SubEnt>& m, const Node* n, const std::string& path, const std::string& key) {
  for (auto& s : n->subs) { if (s.vis == VDelete) continue; m[key + norm(s.name)] = {&s, path + s.field + "."}; for (auto& a : s.aliases) if (a.vis != VDelete) m[key + norm(a.name)] = {&s, path + s.field + "."}; }
  for (auto& g : n->groups) { if (g.vis == VDelete) continue; if (g.flat()) add_subs(m, g.child, path + g.field + ".", key); else { if (!g.name.empty()) add_subs(m, g.child, path + g.field + ".", key + norm(g.name) + "."); for (auto& a : g.aliases) if (a.vis != VDelete) add_subs(m, g.child, path + g.field + ".", key + norm(a.name) + "."); } } }
inline const std::map<std::string, SubEnt>& subs_of(const Node* n) { static std::map<const Node*, std::map<std::string, SubEnt>> cache; auto it = cache.find(n); if (it != cache.end()) return it->second; std::map<std::string, SubEnt> m; add_subs(m, n, "", ""); return cache[n] = m; }
inline void required(const Node* n, const std::string& path, std::vector<std::pair<std::string, const MFlag*>>& out) { for (auto& f : n->flags) if (f.cnt() == 1 && f.vis != VDelete) out.push_back({path + f.field, &f}); for (auto& g : n->groups) if (g.vis != VDelete) required(g.child, path + g.field + ".", out); }
inline void defaults(const Node* n, const std::string& path, Map& m);
inline std::string initial(Kind k) { switch (k) { case K_opt_int: case K_opt_bool: case K_opt_rune: return "none"; case K_vec_int: case K_vec_bool: case K_vec_str: case K_vec_buf: return "["; case K_str: case K_strbuf: return "\"\""; case K_rune: return "U+0"; default: return "0"; } }
inline void defaults(const Node* n, const std::string& path, Map& m) { for (auto& f : n->flags) m[path + f.field] = initial(f.kind); for (auto& p : n->poss) m[path + p.field] = initial(p.kind); for (auto& g : n->groups) defaults(g.child, path + g.field + ".", m); for (auto& s : n->subs) defaults(s.child, path + s.field + ".", m); }

enum Read { Good, Bad, Vague };
inline Read read_int(const std::string& v, __int128 lo, __int128 hi, __int128& out) {
  bool digit = false; for (char c : v) digit |= c >= '0' && c <= '9'; if (!digit) { for (char c : v) if ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) return v.find('x') == std::string::npos ? Bad : Vague; return Bad; }
  size_t i = 0; bool neg = false; if (v[0] == '-') { neg = true; i = 1; } if (i >= v.size()) return Bad; int radix = 10; std::string d = v.substr(i);
  if (d == "0" && neg) return Vague; if (d.size() > 2 && d[0] == '0' && d[1] == 'x') { radix = 16; d = d.substr(2); } else if (d.size() > 2 && d[0] == '0' && d[1] == 'b') { radix = 2; d = d.substr(2); } else if (d.size() > 1 && d[0] == '0') return Vague;
  if (d.size() > 30 && radix != 2) return Vague; __int128 x = 0; for (char c : d) { int k = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; if (k >= radix) return v[0] == '+' ? Vague : Bad; x = x * radix + k; if (x > ((__int128)1 << 100)) return Bad; }
  if (neg) x = -x; if (x < lo || x > hi) return Bad; out = x; return Good; }
inline std::string i2s(__int128 x) { return vh::i128s(x); }
// Applies `v` to the current value `cur` of an item of kind k.
inline Read apply(Kind k, const std::string& v, std::string& cur) {
  __int128 x; Read r; std::vector<char32_t> rs; auto b = [&](bool& o) { static const char *T[] = {"", "true", "t", "yes", "y", "on", "1", "0x1"}, *F[] = {"false", "f", "no", "n", "off", "0", "0x0"}; for (auto t : T) if (v == t) return o = true, Good; for (auto t : F) if (v == t) return o = false, Good;
    if (v[0] >= '0' && v[0] <= '9') { __int128 y; Read q = read_int(v, 0, 255, y); return q == Good ? y > 1 ? Bad : Vague : q; } std::string l = v; for (auto& c : l) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); for (auto t : T) if (l == t) return Vague; for (auto t : F) if (l == t) return Vague; return Bad; };
  bool bv = false; std::string one;
  switch (k) {
    case K_int: case K_opt_int: case K_vec_int: r = read_int(v, INT32_MIN, INT32_MAX, x); if (r != Good) return r; one = i2s(x); break;
    case K_u8: r = read_int(v, 0, 255, x); if (r != Good) return r; one = i2s(x); break;
    case K_i64: r = read_int(v, INT64_MIN, INT64_MAX, x); if (r != Good) return r; one = i2s(x); break;
    case K_bool: case K_opt_bool: case K_vec_bool: r = b(bv); if (r != Good) return r; one = bv ? "1" : "0"; break;
    case K_str: case K_vec_str: case K_strbuf: case K_vec_buf: if (!utf8(v)) return k == K_str || k == K_vec_str ? Bad : Vague; one = "\"" + v + "\""; break;
    case K_rune: case K_opt_rune: if (!dec(v, rs)) return Vague; if (rs.size() != 1) return Bad; one = vh::fmt("U+%X", (unsigned)rs[0]); break;
    case K_custom: if (v.size() < 2 || v.back() != 'C') return Bad; for (size_t i = 0; i + 1 < v.size(); i++) if (v[i] < '0' || v[i] > '9') return Bad; if (v.size() > 8) return Vague; one = i2s(atoi(v.c_str())); break;
    case K_quiet: one = vh::fmt("%zu", v.size()); break;
  }
  if (k == K_vec_int || k == K_vec_bool || k == K_vec_str || k == K_vec_buf) cur += one + ","; else cur = one; return Good; }

struct Out { enum What { Ok, Error, Help, HelpHidden, Unspec } what = Ok; Map vals; std::vector<std::vector<std::string>> needles; const char* why = ""; const Node* help = nullptr;  // each entry of needles: any one of them must be in the message
  std::string missing_flag; const MFlag* missing = nullptr; const MPos* missing_pos = nullptr; size_t missing_at = 0; const Node* at = nullptr; std::string at_path; int flags = 0, runs = 0, groups = 0, subs = 0, poss = 0, attached = 0; };
inline Out parse(const Node* root, const std::vector<std::string>& argv) {
  Out o; defaults(root, "", o.vals); const Node* n = root; std::string base; size_t pos = 0; bool done = false; std::set<std::string> seen; struct Lv { const Node* n; std::string base; size_t at; }; std::vector<Lv> levels = {{root, "", 0}};
  auto err = [&](const char* why, std::vector<std::vector<std::string>> nd) { o.what = Out::Error; o.why = why; o.needles = nd; return false; };
  auto vague = [&] { o.what = Out::Unspec; return false; };
  size_t i = 0; std::string cur;  // the argument being looked at, without an attached value
  // Gives the flag its value: attached or the next argument. `typed`: the name as it was typed.
  auto give = [&](const Ent& e, const std::string& basep, const std::string& typed, bool has, std::string val, bool can_next) -> bool {
    std::string path = basep + e.path; if (!seen.insert(path).second && e.f->cnt() != 2) return err("repeated", {{typed, cur}});
    if (!has && e.f->wants()) { if (!can_next) return vague(); if (i >= argv.size()) return err("no-argument", {{typed, cur}}); val = argv[i++]; }
    Read r = apply(e.f->kind, val, o.vals[path]); if (r == Vague) return vague(); if (r == Bad) return err("bad-value", {{typed, cur}, {val}}); o.flags++; return true; };
  auto help = [&](const Ent& e) { o.what = e.what == Ent::HelpHidden ? Out::HelpHidden : Out::Help; o.help = e.child; return false; };
  // A reference to a group whose flag is the next argument.
  auto sub_flag = [&](const Ent& g, const std::string& basep, const std::string& tok, bool has) -> bool {
    if (has) return err("group-argument", {{tok}}); if (i >= argv.size()) return err("no-sub-flag", {{tok}}); std::string a = argv[i++], val; bool h2 = false; if (auto q = a.find('='); q != std::string::npos) { val = a.substr(q + 1); a = a.substr(0, q); h2 = true; }
    bool found; Ent e = find(scope_of(g.child), a, found); if (!found) return err("unknown", {{a, cur}}); if (e.what == Ent::Unspec || e.what == Ent::GroupRef) return vague(); if (e.what != Ent::Flag) { if (h2) return vague(); return help(e); } o.groups++;
    return give(e, basep + g.path, a, h2, val, true); };
  while (i < argv.size()) {
    const std::string t = argv[i++];
    if (!done && t == "--") { done = true; continue; }
    if (!done && t.size() >= 2 && t[0] == '-') {
      bool lng = t[1] == '-'; std::string body = t.substr(lng ? 2 : 1), val; bool has = false; if (auto q = body.find('='); q != std::string::npos) { val = body.substr(q + 1); body = body.substr(0, q); has = true; }
      if (has) o.attached++;
      cur = t.substr(0, t.find('='));
      if (body.empty()) { vague(); return o; }
      if (lng) { bool found; Ent e = find(scope_of(n), body, found); if (!found) { err("unknown", {{body}}); return o; } if (e.what == Ent::Unspec) { vague(); return o; }
        if (e.what == Ent::GroupRef) { if (!sub_flag(e, base, t.substr(0, t.find('=')), has)) return o; continue; } if (e.what != Ent::Flag) { if (has) vague(); else help(e); return o; }
        if (!give(e, base, body, has, val, true)) return o; continue; }
      std::vector<char32_t> rs; if (!dec(body, rs)) { vague(); return o; } const Node* sc = n; std::string scb = base; bool in_group = false;
      for (size_t k = 0; k < rs.size(); k++) {
        std::string rest; for (size_t j = k; j < rs.size(); j++) rest += enc(rs[j]); bool last = k + 1 == rs.size();
        if (in_group) {  // the name of a flag in the group
          bool found; Ent e = find(scope_of(sc), rest, found); if (found && e.what == Ent::Unspec) { vague(); return o; } if (found && e.what == Ent::Flag) { o.groups++; if (!give(e, scb, rest, has, val, true)) return o; break; } if (found && e.what == Ent::HelpHidden) { vague(); return o; } if (found && (e.what == Ent::Help || e.what == Ent::HelpHidden)) { if (has) vague(); else help(e); return o; }
          if (found) { o.groups++; if (!sub_flag(e, scb, rest, has)) return o; break; }
          auto it = scope_of(sc).letters.find(rs[k]); if (it == scope_of(sc).letters.end()) { err("unknown", {{rest, body}}); return o; }
          if (it->second.what != Ent::GroupRef) { vague(); return o; } }
        auto it = scope_of(sc).letters.find(rs[k]);
        if (it == scope_of(sc).letters.end()) { bool found; find(scope_of(sc), rest, found); if (found) { vague(); return o; } err("unknown", {{rest, body}}); return o; }
        Ent e = it->second; std::string typed = enc(rs[k]);
        if (e.what == Ent::Unspec) { vague(); return o; }
        if (e.what == Ent::Help) { if (has) vague(); else help(e); return o; }
        if (e.what == Ent::GroupRef) { if (last) { if (!sub_flag(e, scb, "-" + typed, has)) return o; break; } scb += e.path; sc = e.child; in_group = true; continue; }
        if (rs.size() > 1) o.runs++;
        if (last) { if (!give(e, scb, typed, has, val, true)) return o; break; }
        if (e.f->wants()) { vague(); return o; }
        if (!give(e, scb, typed, true, "", false)) return o; }
      if (o.what != Out::Ok) return o;
      continue; }
    auto sit = subs_of(n).find(norm(t)); if (sit != subs_of(n).end()) { if (done) { vague(); return o; }
      for (size_t k = pos; k < n->poss.size(); k++) if (n->poss[k].cnt() == 1) { vague(); return o; }
      base += sit->second.path; n = sit->second.s->child; pos = 0; o.subs++; levels.push_back({n, base, i}); continue; }
    if (pos >= n->poss.size()) { err("extra", {{t}}); return o; }
    auto& p = n->poss[pos]; Read r = apply(p.kind, t, o.vals[base + p.field]); if (r == Vague) { vague(); return o; } if (r == Bad) { err("bad-positional", {{t}}); return o; } o.poss++; if (p.cnt() != 2) pos++; }
  o.at = n; o.at_path = base;
  std::vector<std::string> miss; for (auto& l : levels) { std::vector<std::pair<std::string, const MFlag*>> rq; required(l.n, l.base, rq); for (auto& [p, f] : rq) if (!seen.count(p)) { if (miss.empty()) { o.missing_flag = p.substr(l.base.size()); o.missing = f; o.missing_at = l.at; o.at = l.n; } miss.push_back(norm(f->name)); } }
  for (size_t k = pos; k < n->poss.size(); k++) if (n->poss[k].cnt() == 1) { o.missing_pos = &n->poss[k]; miss.push_back(n->poss[k].name.empty() ? vh::fmt("ARG%zu", k + 1) : n->poss[k].name); break; }
  if (!miss.empty()) err("missing", {miss});
  return o; }
}  // namespace cm
