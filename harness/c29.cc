// C29: reflections of generated structs and enums (tools/gen_reflect.py) against what their definitions say.
#include <cstring>
#include "vh.h"
#include "best/container/row.h"
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/meta/bit_enum.h"
#include "best/meta/names.h"
#include "best/meta/reflect.h"
#include "best/text/format.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#define CAT_(a, b) a##_##b
#define CAT(a, b) CAT_(a, b)
#ifdef PART_A
#define PARTNS a
#elif defined(PART_B)
#define PARTNS b
#elif defined(PART_C)
#define PARTNS c
#else
#define PARTNS d
#endif
#define NAME(x, p) CAT(x, p)
#define WL(n, q, t) VH_WORKLOAD(n, q, t)
namespace g29 {
struct T1 {};
struct T2 { using BestRowKey = T1; int v; constexpr bool operator==(const T2&) const = default; };
struct T3 { using BestRowKey = T1; int v; constexpr bool operator==(const T3&) const = default; };
struct T4 { int v; constexpr bool operator==(const T4&) const = default; };
struct In { int p; bool q; };
enum class En { One, Two, Three = 3 };
struct Mo { int v; explicit Mo(int v) : v(v) {} Mo(Mo&&) = default; };
constexpr best::str words[] = {"", "w", "two words", "é", "a \"quote\"", "long enough to be on the heap, surely"};
}
using namespace vh; using namespace g29;
namespace CAT(h29, PARTNS) {
template <class T> struct Tid { static constexpr char x = 0; };
template <class T> static const void* tid() { return &Tid<T>::x; }
static std::string S(best::str s) { return std::string(s.data(), s.size()); }
static bool same(best::str s, const char* w) { return S(s) == w; }
static best::str B(const std::string& s) { return *best::str::from(best::span<const char>(s.data(), s.size())); }
template <class T> static std::string dbg(const T& v) { best::strbuf s = best::format("{:?}", v); return S(s); }
struct FieldWant { const char* name; const void* type; const void* (*at)(const void*); std::vector<int> ints, keyed; std::string (*show)(const void*); };
struct StructWant { const char *name, *path; std::vector<FieldWant> fields; std::vector<const char*> absent; std::vector<int> ints, keyed; bool printable; };
struct ValueWant { const char* name; i64 value; std::vector<int> ints, keyed; };
struct EnumWant { const char *name, *path; std::vector<ValueWant> values, absent; std::vector<int> ints, keyed; bool unfixed; int x; };
static std::vector<int> ints_of(auto row) { std::vector<int> r; row.each([&](auto& t) { r.push_back(t); }); return r; }
static std::vector<int> keyed_of(auto row) { std::vector<int> r; row.each([&](auto& t) { r.push_back(t.v); }); return r; }
static std::string show_ints(const std::vector<int>& v) { std::string s = "["; for (int i : v) s += std::to_string(i) + " "; return s + "]"; }
#define TAGS(x, w, what) do { auto i_ = ints_of((x).tags(best::types<int>)); auto k_ = keyed_of((x).tags(best::types<T1>)); VH_CHECK(i_ == (w).ints, "tags", "%s has the int tags %s, must be %s", what, show_ints(i_).c_str(), show_ints((w).ints).c_str()); VH_CHECK(k_ == (w).keyed, "tags", "%s has the keyed tags %s, must be %s", what, show_ints(k_).c_str(), show_ints((w).keyed).c_str()); VH_CHECK((x).tags(best::types<double>).is_empty(), "tags", "%s has tags of a type never added", what); c.event("tags", i_.size() + k_.size()); } while (0)
static std::vector<std::string> others(Rng& g, const std::vector<std::string>& names) { std::vector<std::string> r = {"", "zzzz", "\x7f", "~"}; for (auto& n : names) { std::string m = n; if (g.flip()) m += (char)('a' + g.below(26)); else if (!m.empty()) m.pop_back(); r.push_back(m); if (!n.empty()) { m = n; m[g.below(m.size())] ^= 0x20; r.push_back(m); } } return r; }
template <class T> static void judge_names(Ctx& c, const T& n, best::str shortname, const std::string& path, const std::string& name, const std::string& args) {
  c.eval(); c.event("type_names"); std::string f = S(n.path_with_params());
  VH_CHECK(f == path + "::" + name + args, "type-name", "the full name of %s::%s%s is %s", path.c_str(), name.c_str(), args.c_str(), f.c_str());
  VH_CHECK(S(n.name()) == name && S(shortname) == name, "type-name", "the name of %s is %s", f.c_str(), S(n.name()).c_str()); VH_CHECK(S(n.path()) == path + "::" + name, "type-name", "the path of %s is %s", f.c_str(), S(n.path()).c_str());
  VH_CHECK(S(n.name_space()) == path, "type-name", "the namespace of %s is %s", f.c_str(), S(n.name_space()).c_str()); VH_CHECK(S(n.params()) == args, "type-name", "the parameters of %s are %s", f.c_str(), S(n.params()).c_str());
  VH_CHECK(S(n.name_with_params()) == name + args, "type-name", "the name with parameters of %s is %s", f.c_str(), S(n.name_with_params()).c_str()); c.state(hstr(f));
}
template <bool printable, class T> static void judge_struct(Ctx& c, T& v, T& v2, const StructWant& w) {
  auto& g = c.rng; auto r = best::reflect<T>; const T& cv = v; auto& fs = w.fields; c.eval(); c.event("structs"); c.state(hcomb(hstr(w.name), g.next() % 64));
  VH_CHECK(same(r.name(), w.name) && same(r.names().path(), std::string(w.path).substr(0, std::string(w.path).find('<')).c_str()) && same(r.names().path_with_params(), w.path), "name", "%s is named %s (%s)", w.path, S(r.name()).c_str(), S(r.names().path_with_params()).c_str());
  TAGS(r, w, w.name); size_t k = 0;
  r.each([&](auto f) {
    if (k >= fs.size()) { VH_FAIL("visits", "%s: more than the %zu fields are visited: %s", w.name, fs.size(), S(f.name()).c_str()); k++; return; }
    auto& x = fs[k]; std::string what = std::string(w.name) + "." + x.name; VH_CHECK(same(f.name(), x.name), "visits", "%s: field %zu is named %s, must be %s", w.name, k, S(f.name()).c_str(), x.name);
    using F = decltype(f); VH_CHECK(tid<typename F::type>() == x.type, "type", "%s: the reflection has another type", what.c_str()); static_assert(std::is_same_v<typename F::reflected, T>);
    VH_CHECK(best::addr(v->*f) == x.at(&v) && best::addr(cv->*f) == x.at(&v) && best::addr(&v->*f) == x.at(&v) && best::addr(&cv->*f) == x.at(&v), "address", "%s: the reflection refers to another object", what.c_str());
    auto&& rv = std::move(v)->*f; VH_CHECK(best::addr(rv) == x.at(&v), "address", "%s: the reflection of an rvalue refers to another object", what.c_str());
    using U = typename F::type; VH_CHECK((std::is_same_v<decltype(v->*f), U&>), "type", "%s: access through an lvalue has the wrong type", what.c_str()); VH_CHECK((std::is_same_v<decltype(cv->*f), const U&>), "type", "%s: access through a const lvalue has the wrong type", what.c_str());
    VH_CHECK((std::is_same_v<decltype(std::move(v)->*f), U&&>), "type", "%s: access through an rvalue has the wrong type", what.c_str()); VH_CHECK((std::is_same_v<decltype(&v->*f), U&>), "type", "%s: access through a pointer has the wrong type", what.c_str());
    TAGS(f, x, what.c_str()); k++; c.event("fields"); });
  VH_CHECK(k == fs.size(), "visits", "%s: %zu fields are visited, must be %zu", w.name, k, fs.size());
  size_t n = r.apply([&](auto... f) { std::vector<std::string> names = {S(f.name())...}; for (size_t i = 0; i < names.size() && i < fs.size(); i++) VH_CHECK(names[i] == fs[i].name, "apply", "%s: apply() passes %s as field %zu, must be %s", w.name, names[i].c_str(), i, fs[i].name); return sizeof...(f); });
  VH_CHECK(n == fs.size(), "apply", "%s: apply() passes %zu fields, must be %zu", w.name, n, fs.size());
  { auto row = best::fields(v); size_t i = 0; VH_CHECK(row.size() == fs.size(), "fields", "%s: fields() has %zu elements, must be %zu", w.name, row.size(), fs.size()); row.each([&](auto& e) { if (i < fs.size()) VH_CHECK(best::addr(e) == fs[i].at(&v), "fields", "%s: element %zu of fields() is not %s", w.name, i, fs[i].name); i++; });
    auto crow = best::fields(cv); i = 0; crow.each([&](auto& e) { static_assert(std::is_const_v<std::remove_reference_t<decltype(e)>>); if (i < fs.size()) VH_CHECK(best::addr(e) == fs[i].at(&v), "fields", "%s: element %zu of fields(const) is not %s", w.name, i, fs[i].name); i++; }); }
  { size_t i = 0; r.zip_fields(v, cv, v2, [&](auto& a, auto& b, auto& d) { if (i < fs.size()) VH_CHECK(best::addr(a) == fs[i].at(&v) && best::addr(b) == fs[i].at(&v) && best::addr(d) == fs[i].at(&v2), "zip", "%s: call %zu of zip_fields() does not pass %s of each", w.name, i, fs[i].name); i++; }); VH_CHECK(i == fs.size(), "zip", "%s: zip_fields() makes %zu calls, must make %zu", w.name, i, fs.size()); }
  std::vector<std::string> names; for (auto& x : fs) names.push_back(x.name);
  for (auto& x : fs) { int calls = 0; r.match(B(x.name), [&] { VH_FAIL("match", "%s: the field %s is not found", w.name, x.name); calls++; }, [&](auto f) { calls++; VH_CHECK(same(f.name(), x.name) && best::addr(v->*f) == x.at(&v), "match", "%s: asked for the field %s, got %s", w.name, x.name, S(f.name()).c_str()); }); VH_CHECK(calls == 1, "match", "%s: match() made %d calls", w.name, calls); c.event("fields_matched"); }
  std::vector<std::string> no = others(g, names); for (auto a : w.absent) no.push_back(a);
  for (auto& s : no) { if (std::find(names.begin(), names.end(), s) != names.end()) continue; bool none = false; r.match(B(s), [&](auto f) { VH_FAIL("match", "%s: asked for %s, which is not there, got %s", w.name, s.c_str(), S(f.name()).c_str()); none = true; }, [&] { none = true; }); VH_CHECK(none, "match", "%s: match(%s) made no call", w.name, s.c_str()); c.event("absent_matched"); }
  if constexpr (printable) { std::string e = std::string(w.name) + " {"; for (size_t i = 0; i < fs.size(); i++) e += std::string(i ? ", " : "") + fs[i].name + ": " + fs[i].show(&v); e += "}"; std::string got = dbg(v); VH_CHECK(got == e, "print", "%s prints as %s, must be %s", w.name, got.c_str(), e.c_str()); c.event("structs_printed"); }
}
template <class T> static void judge_enum(Ctx& c, const EnumWant& w) {
  using U = std::underlying_type_t<T>; auto& g = c.rng; auto r = best::reflect<T>; auto& vs = w.values; c.eval(); c.event("enums"); size_t k = 0; c.state(hcomb(hstr(w.path), g.next() % 64));
  VH_CHECK(same(r.name(), w.name) && same(r.names().path_with_params(), w.path), "name", "%s is named %s (%s)", w.path, S(r.name()).c_str(), S(r.names().path_with_params()).c_str()); TAGS(r, w, w.name);
  r.each([&](auto f) { if (k >= vs.size()) { VH_FAIL("visits", "%s: more than the %zu values are visited: %s = %lld", w.name, vs.size(), S(f.name()).c_str(), (long long)(i64)f.value); k++; return; } auto& x = vs[k]; std::string what = std::string(w.name) + "::" + x.name;
    VH_CHECK(same(f.name(), x.name) && (i64)f.value == x.value, "visits", "%s: value %zu is %s = %lld, must be %s = %lld", w.name, k, S(f.name()).c_str(), (long long)(i64)f.value, x.name, (long long)x.value); TAGS(f, x, what.c_str()); k++; c.event("values"); });
  VH_CHECK(k == vs.size(), "visits", "%s: %zu values are visited, must be %zu", w.name, k, vs.size());
  std::vector<std::string> names; for (auto& x : vs) names.push_back(x.name);
  auto look = [&](i64 n) { const ValueWant* x = nullptr; for (auto& y : vs) if (y.value == n) x = &y; int calls = 0; T v = (T)(U)n; r.match(v, [&](auto f) { calls++; VH_CHECK(x && same(f.name(), x->name) && f.value == v, "match-value", "%s: value %lld is matched as %s, must be %s", w.name, (long long)n, S(f.name()).c_str(), x ? x->name : "none"); }, [&] { calls++; VH_CHECK(!x, "match-value", "%s: value %lld is not found, must be %s", w.name, (long long)n, x ? x->name : ""); });
    VH_CHECK(calls == 1, "match-value", "%s: match(%lld) made %d calls", w.name, (long long)n, calls); c.event(x ? "values_matched" : "unlisted_values"); std::string e = x ? std::string(w.name) + "::" + x->name : std::string(w.name) + "(" + dbg((U)n) + ")"; std::string got = dbg(v); VH_CHECK(got == e, "print-value", "%s: value %lld prints as %s, must be %s", w.name, (long long)n, got.c_str(), e.c_str()); };
  auto fits = [&](i64 n) { if (std::is_same_v<U, bool>) return n == 0 || n == 1; if (w.unfixed) return n >= 0 && n < 8 && !vs.empty() && vs.size() + w.absent.size() > 3; if (std::is_same_v<U, unsigned long>) return true; return n >= (i64)std::numeric_limits<U>::min() && n <= (i64)std::numeric_limits<U>::max(); };
  for (auto& x : vs) for (int d = -1; d <= 1; d++) { i64 n = (i64)((u64)x.value + (u64)d); if (d == 0 || fits(n)) look(n); } for (auto& x : w.absent) look(x.value); for (int i = 0; i < 6; i++) { i64 n = g.flip() ? (i64)g.below(200) - 70 : g.edge<i64>(); if (fits(n)) look(n); }
  for (auto& x : vs) { int calls = 0; r.match(B(x.name), [&] { VH_FAIL("match", "%s: the value %s is not found", w.name, x.name); calls++; }, [&](auto f) { calls++; VH_CHECK(same(f.name(), x.name) && (i64)f.value == x.value, "match", "%s: asked for %s, got %s", w.name, x.name, S(f.name()).c_str()); }); VH_CHECK(calls == 1, "match", "%s: match() made %d calls", w.name, calls); }
  std::vector<std::string> no = others(g, names); for (auto& a : w.absent) no.push_back(a.name);
  for (auto& s : no) { if (std::find(names.begin(), names.end(), s) != names.end()) continue; bool none = false; r.match(B(s), [&](auto f) { VH_FAIL("match", "%s: asked for %s, which is not there, got %s", w.name, s.c_str(), S(f.name()).c_str()); none = true; }, [&] { none = true; }); VH_CHECK(none, "match", "%s: match(%s) made no call", w.name, s.c_str()); }
}
}
using namespace CAT(h29, PARTNS);
#include "c29_defs.inc"
namespace CAT(h29, PARTNS) {
WL(NAME(structs_described, PARTNS), 8 * 14, 120 * 14) { structs[c.idx % std::size(structs)](c); if (c.idx < 1) c.sample("first generated structs"); }
WL(NAME(enums_described, PARTNS), 20 * 7, 300 * 7) { enums[c.idx % std::size(enums)](c); }
WL(NAME(types_named, PARTNS), 2, 4) { all_names(c); }
#ifdef PART_A
namespace bits {
enum class B8 : u8 {}; BEST_BIT_ENUM(B8)
enum class C8 : i8 {}; BEST_BIT_ENUM(C8)
enum class B32 : u32 { A = 1, B = 2 }; BEST_BIT_ENUM(B32)
enum class C32 : i32 {}; BEST_BIT_ENUM(C32)
enum class B64 : u64 {}; BEST_BIT_ENUM(B64)
enum class C64 : i64 {}; BEST_BIT_ENUM(C64)
enum class B16 : u16 {}; BEST_BIT_ENUM(B16)
enum class K8 : u8 {}; BEST_ENUM_CMP(K8)
enum class K32 : i32 {}; BEST_ENUM_CMP(K32)
enum class K64 : u64 {}; BEST_ENUM_CMP(K64)
}
template <class E> static void bit_ops(Ctx& c) { using U = std::underlying_type_t<E>; U a = c.rng.edge<U>(), b = c.rng.edge<U>(); E x = (E)a, y = (E)b; c.eval(); c.event("bit_sets"); c.state(hcomb(sizeof(U), hcomb((u64)a, (u64)b)));
  VH_CHECK((U)(x | y) == (U)(a | b) && (U)(x & y) == (U)(a & b) && (U)(x ^ y) == (U)(a ^ b) && (U)~x == (U)~a, "bits", "bit operations on %lld and %lld", (long long)a, (long long)b); }
template <class E> static void cmp_ops(Ctx& c) { using U = std::underlying_type_t<E>; U a = c.rng.edge<U>(), b = c.rng.flip() ? a : c.rng.edge<U>(); E x = (E)a, y = (E)b; c.eval(); c.event("compared_enums");
  VH_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x == b) == (a == b) && (x != b) == (a != b) && (a == y) == (a == b) && (a != y) == (a != b), "bits", "comparisons of %lld and %lld", (long long)a, (long long)b); }
VH_WORKLOAD(bit_enums, 1000, 30000) { using namespace bits; bit_ops<B8>(c); bit_ops<C8>(c); bit_ops<B16>(c); bit_ops<B32>(c); bit_ops<C32>(c); bit_ops<B64>(c); bit_ops<C64>(c); cmp_ops<K8>(c); cmp_ops<K32>(c); cmp_ops<K64>(c); }
#endif
}
