// C25: command lines parsed by the code under test into generated flag structs, against an independent reading of the
// documented syntax (cli_model.h). Every argument lies in a block of exactly its size.
#include <algorithm>
#include <memory>
#include "vh.h"
#include "cli_model.h"
#include "best/text/utf8.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/format.h"
#include "best/cli/parser.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#ifdef PART_A
#define PARTNS pa
#elif defined PART_B
#define PARTNS pb
#elif defined PART_C
#define PARTNS pc
#elif defined PART_D
#define PARTNS pd
#elif defined PART_E
#define PARTNS pe
#else
#define PARTNS pf
#endif
namespace PARTNS {
using namespace vh; using namespace cm; using best::cli;
struct CelsiusError { best::strbuf what; explicit CelsiusError(best::strbuf s) : what(std::move(s)) {} friend void BestFmt(auto& f, const CelsiusError& e) { f.write("not degrees: "); f.write(e.what); } constexpr friend void BestFmtQuery(auto& q, CelsiusError*) { q.requires_debug = false; } };
struct Celsius { int deg = 0; friend best::result<void, CelsiusError> BestFromArgv(auto raw, Celsius& c) { std::string v(raw.data(), raw.size()); std::string d = "0"; if (apply(K_custom, v, d) != Good) return best::err(CelsiusError(best::format("{:?}", raw))); c.deg = atoi(d.c_str()); return best::ok(); } };
struct Quiet { size_t n = 0; friend void BestFromArgv(auto raw, Quiet& q) { q.n = raw.size(); } };
template <class I> std::string s1(const I& v) { return i2s((i128)v); }
inline std::string s1(const bool& v) { return v ? "1" : "0"; }
inline std::string s1(const best::str& v) { return "\"" + std::string(v.data(), v.size()) + "\""; }
inline std::string s1(const best::strbuf& v) { return "\"" + std::string((const char*)v.data(), v.size()) + "\""; }
inline std::string s1(const best::rune& v) { return vh::fmt("U+%X", (unsigned)v.to_int()); }
inline std::string s1(const Celsius& v) { return i2s(v.deg); }
inline std::string s1(const Quiet& v) { return i2s((i128)v.n); }
template <class T> void put(Map& m, const std::string& p, const T& v) { m[p] = s1(v); }
template <class T> void put(Map& m, const std::string& p, const best::option<T>& v) { m[p] = v.has_value() ? s1(*v) : "none"; }
template <class T> void put(Map& m, const std::string& p, const best::vec<T>& v) { std::string s = "["; for (auto& x : v) s += s1(x) + ","; m[p] = s; }
struct Got { bool ok = false, fatal = false; std::string msg; Map vals; };
struct Def { const char* name; Node* (*node)(); Got (*parse)(const std::string&, best::span<const best::pretext<best::wtf8>>); Node* root = nullptr; };
inline std::vector<Def>& defs() { static std::vector<Def> d; return d; }
#define DEFINITION(R) static int reg_##R = (defs().push_back({#R, node_##R, [](const std::string& exe, best::span<const best::pretext<best::wtf8>> a) -> Got { Got g; auto r = best::parse_flags<R>(best::pretext<best::wtf8>(best::span(exe.data(), exe.size())), a); HeapPause hp; if (r.is_ok()) { g.ok = true; dump(g.vals, "", *r.ok()); } else { auto m = r.err()->message(); g.msg.assign(m.data(), m.size()); g.fatal = r.err()->is_fatal(); } return g; }}), 0);
#include "c25_defs.inc"

struct Args { std::vector<std::unique_ptr<char[]>> own; std::vector<best::pretext<best::wtf8>> v;
  Args(const std::vector<std::string>& a) { for (auto& s : a) { own.emplace_back(new char[s.size()]); memcpy(own.back().get(), s.data(), s.size()); v.push_back(best::pretext<best::wtf8>(best::span<const char>((const char*)own.back().get(), s.size()))); } } };
static std::string joined(const std::vector<std::string>& a) { std::string s; for (auto& t : a) s += " " + show(t); return s; }
static bool plain(const std::string& s) { for (char ch : s) if (ch < 0x20 || ch == 0x7f || ch == '"' || ch == '\\' || (unsigned char)ch >= 0x80) return false; return true; }
// Runs one command line on the code and on the model.
static Out judge(Ctx& c, Def& d, const std::vector<std::string>& argv, const char* how) {
  static const std::string exes[] = {"prog", "/usr/bin/prog", "./prog"}; const std::string& exe = exes[c.rng.below(3)];
  Args a(argv); Got g = d.parse(exe, best::span<const best::pretext<best::wtf8>>(a.v.data(), a.v.size())); Out o = parse(d.root, argv);
  std::string where = vh::fmt("%s:%s", d.name, joined(argv).c_str());
  switch (o.what) {
    case Out::Unspec: c.event("unspecified_forms"); break;
    case Out::Ok: c.event("accepted"); if (!g.ok) VH_FAIL("refused", "%s: %s refused: %s", how, where.c_str(), show(g.msg).c_str()); else if (g.vals != o.vals) { std::string s; for (auto& [k, v] : o.vals) if (g.vals[k] != v) s += vh::fmt(" %s is %s, must be %s;", k.c_str(), show(g.vals[k]).c_str(), show(v).c_str()); VH_FAIL("values", "%s: %s:%s", how, where.c_str(), s.c_str()); }
      c.event("flags", (u64)o.flags); c.event("short_runs", (u64)o.runs); c.event("group_flags", (u64)o.groups); c.event("subcommands", (u64)o.subs); c.event("positionals", (u64)o.poss); c.event("attached_values", (u64)o.attached); break;
    case Out::Error: c.event((std::string("error_") + o.why).c_str()); if (g.ok) { VH_FAIL("accepted", "%s: %s accepted, must be an error (%s of %s)", how, where.c_str(), o.why, show(o.needles[0][0]).c_str()); break; } if (!g.fatal) { VH_FAIL("not-fatal", "%s: %s gives a non-fatal error, must be a fatal one (%s)", how, where.c_str(), o.why); break; }
      for (auto& any : o.needles) { bool hit = false; for (auto& n : any) hit |= !plain(n) || g.msg.find(n) != std::string::npos; if (!hit) VH_FAIL("message", "%s: %s: the message %s does not name %s (%s)", how, where.c_str(), show(g.msg).c_str(), show(any[0]).c_str(), o.why); }
      if (g.msg.compare(0, 6, "prog: ") != 0) VH_FAIL("message-program", "%s: %s: message %s does not start with the program", how, where.c_str(), show(g.msg).c_str()); break;
    case Out::Help: case Out::HelpHidden: c.event("helps"); if (g.ok || g.fatal) VH_FAIL("help", "%s: %s: %s, must ask for usage", how, where.c_str(), g.ok ? "accepted" : show(g.msg).c_str()); else if (g.msg.compare(0, 11, "Usage: prog") != 0) VH_FAIL("help", "%s: %s: usage text starts with %s", how, where.c_str(), show(g.msg.substr(0, 30)).c_str()); break;
  }
  if (c.rng.chance(1, 2000)) c.sample(where); c.state(hcomb(hstr(d.name), hstr(joined(argv)))); c.eval(); return o;
}
static std::string value(Rng& g, Kind k, bool good) {
  static const std::string ints[] = {"0", "5", "-7", "42", "0x1f", "0b101", "255", "100"}, u8s[] = {"0", "5", "0xff", "255", "17"}, bads[] = {"zz", "", "5 ", "99999999999999999999", "x1", "-", "12k", "\xff\xfe", "1=", "--zz"}, bools[] = {"true", "t", "yes", "y", "on", "1", "0x1", "false", "f", "no", "n", "off", "0"}, strs[] = {"", "hello", "--zulu", "-", "--", "a=b", "=", "ünï", "🐈", "two words", "-x", "x"}, badstr[] = {"\xff", "ok\xc3", "\xed\xa0\x80", "\xf5\x80\x80\x80"}, runes[] = {"x", "é", "🐈", "-", "=", " "}, badrune[] = {"", "xy", "éé"}, degs[] = {"5C", "0C", "451C"}, baddeg[] = {"5", "C", "", "5F"};
  switch (k) { case K_u8: return good ? g.pick(u8s) : g.flip() ? g.pick(bads) : std::string("256"); case K_int: case K_i64: case K_opt_int: case K_vec_int: return good ? g.pick(ints) : g.pick(bads);
    case K_bool: case K_opt_bool: case K_vec_bool: return good ? g.pick(bools) : g.flip() ? std::string("maybe") : g.pick(bads); case K_rune: case K_opt_rune: return good ? g.pick(runes) : g.pick(badrune); case K_custom: return good ? g.pick(degs) : g.pick(baddeg); case K_quiet: return g.pick(strs); default: return good ? g.pick(strs) : g.pick(badstr); } }
static std::string spell(Rng& g, std::string s) { if (g.chance(1, 3)) for (size_t i = 1; i + 1 < s.size(); i++) if ((s[i] == '-' || s[i] == '_') && g.flip()) s[i] = s[i] == '-' ? '_' : '-'; return s; }
// Adds one flag of the current scope.
static void add_flag(Rng& g, const Node* n, std::vector<std::string>& out, bool good) {
  auto& sc = scope_of(n); auto give = [&](std::string head, const MFlag* f) { std::string v = value(g, f->kind, good); if (!f->wants()) out.push_back(g.flip() ? head : head + "=" + v); else if (g.flip()) out.push_back(head + "=" + v); else { out.push_back(head); out.push_back(v); } };
  if (g.chance(1, 3) && !sc.letters.empty()) { std::string run = "-"; for (int k = 0; k < 5; k++) { auto it = sc.letters.begin(); std::advance(it, (long)g.below(sc.letters.size())); const Ent& e = it->second; if (e.what == Ent::Flag) { run += enc(it->first); if (e.f->wants() || g.chance(1, 3)) { give(run, e.f); return; } continue; }
      if (e.what == Ent::GroupRef) { std::string l = enc(it->first); auto& cs = scope_of(e.child); if (cs.names.empty()) break; auto ct = cs.names.begin(); std::advance(ct, (long)g.below(cs.names.size())); if (ct->second.what != Ent::Flag) break; run += l; if (g.flip()) run += spell(g, ct->first); else { out.push_back(run); run = spell(g, ct->first); } give(run, ct->second.f); return; } break; }
    if (run.size() > 1) out.push_back(run); return; }
  auto it = sc.names.begin(); std::advance(it, (long)g.below(sc.names.size())); const Ent& e = it->second; std::string dd = "--";
  for (auto& [l, le] : sc.letters) if (le.what == Ent::GroupRef) { std::string s = enc(l); if (it->first.compare(0, s.size(), s) == 0 && g.chance(2, 3)) dd = "-"; }
  if (e.what == Ent::Flag) give(dd + spell(g, it->first), e.f); else if (e.what == Ent::GroupRef) { auto& cs = scope_of(e.child); auto ct = cs.names.begin(); std::advance(ct, (long)g.below(cs.names.size())); out.push_back(dd + it->first); if (ct->second.what == Ent::Flag) give(spell(g, ct->first), ct->second.f); } else if (g.chance(1, 12)) out.push_back(dd + it->first); }
static const std::string& hostile(Rng& g) { static const std::string h[] = {"", "-", "--", "---", "=", "-=", "--=", "-=5", "--=x", "\xff", "-\xff", "--\xff", "-\xc3", "--\xe2\x82", "-h", "-hx", "--help", "--help-hidden", "--version", "-V", "-X", "-Xhelp", "-X.", "--.", "--..", "-.", "-_", "--_", "_", "-\0x", "🐈", "-🐈", "--🐈", "-é", "-aaaaaaaaaaaa", "zulu", "--no-such", "--alphabet", "-Z", "-q=", "x y", "- x", "--x y", "help", "\xed\xa0\x80", "-\xed\xa0\x80", "--alpha.bravo", "--.help", "-CC", "-CX", "-XC=", "-XXXX"}; return h[g.below(sizeof h / sizeof *h)]; }
static void make(Rng& g, Def& d, std::vector<std::string>& argv) {
  const Node* n = d.root; size_t pos = 0; int len = (int)g.below(9); bool done = false, clean = g.chance(2, 3);
  for (int k = 0; k < len; k++) { u64 w = g.below(20); bool good = clean || g.chance(7, 8);
    if (w < 12 && !done) add_flag(g, n, argv, good);
    else if (w < 14 && !done && !subs_of(n).empty()) { auto& m = subs_of(n); auto it = m.begin(); std::advance(it, (long)g.below(m.size())); argv.push_back(spell(g, it->first)); n = it->second.s->child; pos = 0; }
    else if (w < 18) { if (pos < n->poss.size()) { auto& p = n->poss[pos]; std::string v = value(g, p.kind, good); if (clean && !done && v.size() > 1 && v[0] == '-') { argv.push_back("--"); done = true; } argv.push_back(v); if (p.cnt() != 2) pos++; } else if (!clean) argv.push_back("extra"); }
    else if (w == 18) { if (!done && g.chance(1, 3)) { argv.push_back("--"); done = true; } }
    else if (!clean) argv.push_back(hostile(g)); }
  // Supply what is missing.
  if (g.chance(4, 5)) for (int k = 0; k < 14; k++) { Out o = parse(d.root, argv); if (o.what == Out::Error && o.missing) { std::string key; auto& sc = scope_of(o.at); for (auto& [nm, e] : sc.names) if (e.what == Ent::Flag && e.path == o.missing_flag && (key.empty() || g.flip())) key = nm; if (key.empty()) break; argv.insert(argv.begin() + (long)o.missing_at, "--" + key + "=" + value(g, o.missing->kind, true)); } else if (o.what == Out::Error && o.missing_pos) { std::string v = value(g, o.missing_pos->kind, true); if (v.size() > 1 && v[0] == '-') v = v.substr(1); argv.push_back(v); } else if (o.what == Out::Error && clean && !strcmp(o.why, "repeated")) { for (size_t z = 0; z + 1 < argv.size(); z++) if (g.chance(1, 4)) { argv.erase(argv.begin() + (long)z); break; } } else break; }
  if (!clean) switch (g.below(5)) { case 0: if (!argv.empty()) argv.insert(argv.begin() + (long)g.below(argv.size() + 1), argv[g.below(argv.size())]); break; case 1: if (!argv.empty()) argv.erase(argv.begin() + (long)g.below(argv.size())); break; case 2: if (!argv.empty()) { auto& t = argv[g.below(argv.size())]; if (!t.empty()) { size_t p = g.below(t.size()); if (g.flip()) t.erase(p, 1); else t[p] = "-=_.hX\xff\0a"[g.below(9)]; } } break; case 3: if (argv.size() > 1) std::swap(argv[g.below(argv.size())], argv[g.below(argv.size())]); break; default: break; }
}
static void setup() { for (auto& d : defs()) if (!d.root) d.root = d.node(); }
#define NAME2(a, b) a##_##b
#define NAME(a, b) NAME2(a, b)
#define WL2(n, q, t) VH_WORKLOAD(n, q, t)
#define WL(n, q, t) WL2(n, q, t)
WL(NAME(command_lines, PARTNS), 4000, 600000) { setup(); Def& d = defs()[c.rng.below(defs().size())]; std::vector<std::string> argv; make(c.rng, d, argv); judge(c, d, argv, "command line"); }
// Anything at all must be parsed or refused without a crash.
WL(NAME(hostile_lines, PARTNS), 2000, 300000) { setup(); Def& d = defs()[c.rng.below(defs().size())]; auto& g = c.rng; std::vector<std::string> argv; int len = 1 + (int)g.below(5); for (int k = 0; k < len; k++) { if (g.flip()) argv.push_back(hostile(g)); else if (g.flip()) add_flag(g, d.root, argv, g.flip()); else { std::string s; size_t n = g.below(8); for (size_t j = 0; j < n; j++) s += "--==__.hHXCQab\xff\xc3\xa9\xf0\x9f\0 \t"[g.below(23)]; argv.push_back(s); } } judge(c, d, argv, "hostile line"); }
// Every documented name, in every spelling, alone.
WL(NAME(every_name, PARTNS), 120, 2000) { setup(); for (auto& d : defs()) { std::vector<std::pair<const Node*, std::vector<std::string>>> todo = {{d.root, {}}}; for (size_t t = 0; t < todo.size() && t < 12; t++) { auto [n, pre] = todo[t]; for (auto& [nm, s] : subs_of(n)) { auto p = pre; p.push_back(nm); todo.push_back({s.s->child, p}); } auto& sc = scope_of(n); size_t k = 0;
    for (auto& [nm, e] : sc.names) { if (k++ % c.total != c.idx % c.total && sc.names.size() > 3 && c.idx % 7 != k % 7) continue; for (int form = 0; form < 6; form++) { auto a = pre; bool grp = false; for (auto& [l, le] : sc.letters) grp |= le.what == Ent::GroupRef && nm.compare(0, enc(l).size(), enc(l)) == 0; for (auto& [l, le] : sc.letters) grp |= nm == enc(l); std::string head = (form & 1 && grp ? "-" : "--") + spell(c.rng, nm); bool good = c.rng.chance(3, 4); std::string v = e.f ? value(c.rng, e.f->kind, good) : "v"; if (form < 2) a.push_back(head + "=" + v); else if (form < 4) { a.push_back(head); a.push_back(v); } else { a.push_back(head); }
        for (int z = 0; z < 14; z++) { Out o = parse(d.root, a); if (o.what != Out::Error || !o.missing) break; std::string key; for (auto& [n2, e2] : scope_of(o.at).names) if (e2.what == Ent::Flag && e2.path == o.missing_flag) { key = n2; break; } if (key.empty()) break; a.insert(a.begin() + (long)o.missing_at, "--" + key + "=" + value(c.rng, o.missing->kind, true)); }
        judge(c, d, a, "single name"); c.event("names"); } } } } }
}  // namespace PARTNS
