// C31: type lists and value lists. Seeded lists (0 to 8 elements from a pool of odd types and values, repetitions included)
// go through every query and transformation with seeded positions, in and out of range; the resulting list, read back as
// element numbers, must equal what the same operation on a vector of element numbers gives. An out-of-range request must
// be refused by substitution (or give the default).
#include "vh.h"
#include <optional>
#include <algorithm>
#include "best/meta/tlist.h"
#include "best/meta/ops.h"
#include "best/container/option.h"
#ifndef VH_CSEED
#define VH_CSEED 1
#endif
#ifndef VH_CASES
#define VH_CASES 24
#endif
#ifdef PART_A
#define PARTNS pa
constexpr int Part = 1;
#elif defined PART_B
#define PARTNS pb
constexpr int Part = 2;
#elif defined PART_C
#define PARTNS pc
constexpr int Part = 3;
#else
#define PARTNS pd
constexpr int Part = 4;
#endif
namespace PARTNS {
using namespace vh;
using Vec = std::vector<int>;
struct Incomplete; struct Fixed { Fixed(const Fixed&) = delete; ~Fixed() = delete; }; struct Abstract { virtual void f() = 0; }; struct Def {}; struct Sv { int a; constexpr bool operator==(const Sv&) const = default; };
template <class> struct Wrap {}; template <class... > struct Pack {}; template <auto> struct VWrap {}; template <auto...> struct VPack {};
// The pool: 0-13 types, 14-25 values.
template <int> struct El; template <class> struct Id { static constexpr int v = -1; };
#define EL(n, ...) template <> struct El<n> { using type = __VA_ARGS__; }; template <> struct Id<__VA_ARGS__> { static constexpr int v = n; };
EL(0, int) EL(1, const int) EL(2, int&) EL(3, int&&) EL(4, void) EL(5, int[]) EL(6, int[3]) EL(7, int()) EL(8, Incomplete) EL(9, best::tlist<>) EL(10, best::tlist<int>) EL(11, Abstract) EL(12, Fixed) EL(13, char)
EL(14, best::val<0>) EL(15, best::val<1>) EL(16, best::val<2>) EL(17, best::val<3>) EL(18, best::val<'a'>) EL(19, best::val<1u>) EL(20, best::val<true>) EL(21, best::val<1L>) EL(22, best::val<size_t(5)>) EL(23, best::val<-4>) EL(24, best::val<7>) EL(25, best::val<'b'>)
EL(99, Def)
constexpr int TPool = 14, Pool = 26;
struct A { int n = 0; int v[8] = {}; };
template <A a, class = std::make_index_sequence<a.n>> struct Ls; template <A a, size_t... i> struct Ls<a, std::index_sequence<i...>> { using type = best::tlist<typename El<a.v[i]>::type...>; };
template <A a> using L = typename Ls<a>::type;
constexpr u64 seed_of(int k, int i) { return hcomb(hcomb(VH_CSEED * 16 + Part, 0x31), hcomb((u64)k, (u64)i)); }
enum Kind { Mixed, Values, Ints };
constexpr int elem(Rng& r, Kind k) { return k == Mixed ? (int)r.below(Pool) : k == Values ? TPool + (int)r.below(Pool - TPool) : TPool + (int)r.below(4); }
constexpr A gen(Rng& r, Kind k, int max = 8) { A a; a.n = (int)r.below(max + 1); int alpha = 1 + (int)r.below(8), base[8] = {}; for (int& b : base) b = elem(r, k); for (int i = 0; i < a.n; i++) a.v[i] = r.flip() ? elem(r, k) : base[r.below(alpha)]; return a; }
constexpr A gen_seed(int k, int i, Kind kd, int max = 8) { Rng r(seed_of(k, i)); return gen(r, kd, max); }
constexpr best::bounds gen_bounds(int k, int i, int n) { Rng r(seed_of(k, i)); size_t s = r.below(r.flip() ? n + 1 : n + 3), e = r.flip() ? s + r.below(n + 1 - (s <= (size_t)n ? s : (size_t)n)) : r.below(n + 3), c = e >= s ? e - s : r.below(4); switch (r.below(5)) { case 0: return {.start = s}; case 1: return {.start = s, .count = c}; case 2: return {.start = s, .end = e}; case 3: if (e < s) return {.start = s, .count = 0}; return {.start = s, .including_end = e}; default: return {.end = e}; } }
static std::optional<std::pair<size_t, size_t>> span_of(best::bounds b, size_t n) { size_t s = b.start, e = b.end ? *b.end : b.including_end ? *b.including_end + 1 : b.count ? s + *b.count : n; if (s > e || e > n) return {}; return {{s, e}}; }
static Vec vec(A a) { return Vec(a.v, a.v + a.n); }
template <class... T> Vec ids(best::tlist<T...>) { return {Id<T>::v...}; }
static Vec ids(Def) { return {99}; }
template <class T> struct Got { using type = T; };
static std::string sh(const Vec& v) { std::string s = "<"; for (int x : v) s += std::to_string(x) + " "; return s + ">"; }
static std::string sh(best::bounds b) { std::string s = vh::fmt("{%zu", b.start); if (b.end) s += vh::fmt(" end %zu", *b.end); if (b.including_end) s += vh::fmt(" including %zu", *b.including_end); if (b.count) s += vh::fmt(" count %zu", *b.count); return s + "}"; }
// got: the library's list (or nothing when refused); want: the model's (or nothing when out of range).
static void same(Ctx& c, const char* key, const std::optional<Vec>& got, const std::optional<Vec>& want, const std::string& what) {
  c.eval(); c.event(want ? key : "out_of_range");
  VH_CHECK(got == want, key, "%s %s: %s, must be %s", key, what.c_str(), got ? sh(*got).c_str() : "refused", want ? sh(*want).c_str() : "refused");
}
template <class T> std::optional<Vec> lst() { return ids(T{}); }
#define TRY(...) [&]() -> std::optional<Vec> { if constexpr (requires { __VA_ARGS__; }) return ids(__VA_ARGS__); else return {}; }()
template <size_t N, class F> void times(F f) { [&]<size_t... i>(std::index_sequence<i...>) { (f.template operator()<i>(), ...); }(std::make_index_sequence<N>{}); }
static Vec spliced(Vec v, size_t s, size_t e, const Vec& in) { v.erase(v.begin() + s, v.begin() + e); v.insert(v.begin() + s, in.begin(), in.end()); return v; }

constexpr int elem_of(int I) { return (int)(seed_of(900, I) % Pool); }
template <int I, Kind K> void transform(Ctx& c) {
  static constexpr A a = gen_seed(K, I, K); using T = L<a>; constexpr T t{}; const Vec v = vec(a); constexpr size_t N = a.n; std::string d = sh(v);
  c.state(hcomb(hbytes(&a, sizeof a), K)); c.event("lists"); if (c.rng.chance(1, 20)) c.sample(d);
  VH_CHECK(t.size() == N && T::is_empty() == (N == 0), "size", "size of %s", d.c_str());
  { bool u = true; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < i; j++) u &= v[i] != v[j]; VH_CHECK(T::is_unique() == u, "is_unique", "%s is_unique %d", d.c_str(), T::is_unique()); c.event(u ? "unique" : "not_unique"); }
  { bool w = true; for (int x : v) w &= x >= TPool; VH_CHECK(T::is_values() == w && best::is_vlist<T> == w && best::is_tlist<T>, "is_values", "%s is_values %d", d.c_str(), T::is_values()); VH_CHECK((best::is_tlist_of_size<T, N> && !best::is_tlist_of_size<T, N + 1>), "is_tlist_of_size", "%s", d.c_str()); }
  times<N + 2>([&]<size_t i>() {
    auto w = i < N ? std::optional<Vec>(Vec{v[i]}) : std::nullopt;
    same(c, "type", [&]() -> std::optional<Vec> { if constexpr (requires { typename Got<typename T::template type<i>>; }) return Vec{Id<typename T::template type<i>>::v}; else return {}; }(), w, vh::fmt("%zu of %s", i, d.c_str()));
    same(c, "type_or_default", Vec{Id<typename T::template type<i, Def>>::v}, i < N ? Vec{v[i]} : Vec{99}, vh::fmt("%zu of %s", i, d.c_str()));
    // element insertion, replacement and removal
    constexpr int x = (int)(mix(seed_of(77, I) + i) % Pool); using X = typename El<x>::type; auto at = [&](const char* k) { return vh::fmt("%zu (element %d) of %s", i, x, d.c_str()); };
    { Vec m = v; if (i <= N) m.insert(m.begin() + i, x); auto want = i <= N ? std::optional<Vec>(m) : std::nullopt; same(c, "insert", TRY(T::template insert<i, X>()), want, at("")); same(c, "insert_or_default", TRY(T::template insert<i, X, Def>()), want ? *want : Vec{99}, at("")); if constexpr (x >= TPool) same(c, "insert_value", TRY(T::template insert<i, X::value>()), want, at("")); }
    { Vec m = v; if (i < N) m[i] = x; same(c, "update", TRY(T::template update<i, X>()), m, at("")); if constexpr (x >= TPool) same(c, "update_value", TRY(T::template update<i, X::value>()), m, at("")); }
    { Vec m = v; if (i < N) m.erase(m.begin() + i); auto want = i < N ? std::optional<Vec>(m) : std::nullopt; same(c, "remove", TRY(T::template remove<i>()), want, at("")); same(c, "remove_or_default", TRY(T::template remove<i, Def>()), want ? *want : Vec{99}, at("")); }
  });
  times<8>([&]<size_t k>() {
    static constexpr best::bounds b = gen_bounds(200 + k, I, N); auto s = span_of(b, N); auto what = sh(b) + " of " + d;
    auto want = s ? std::optional<Vec>(Vec(v.begin() + s->first, v.begin() + s->second)) : std::nullopt;
    same(c, "at", TRY(T::template at<b>()), want, what); same(c, "at_or_default", TRY(T::template at<b, Def>()), want ? *want : Vec{99}, what);
    want = s ? std::optional<Vec>(spliced(v, s->first, s->second, {})) : std::nullopt;
    same(c, "erase", TRY(T::template erase<b>()), want, what); same(c, "erase_or_default", TRY(T::template erase<b, Def>()), want ? *want : Vec{99}, what);
    static constexpr A in = gen_seed(300 + k, I, Mixed, 4); want = s ? std::optional<Vec>(spliced(v, s->first, s->second, vec(in))) : std::nullopt;
    same(c, "splice", TRY(T::template splice<b>(L<in>{})), want, what + " with " + sh(vec(in))); same(c, "splice_or_default", TRY(T::template splice<b, Def>(L<in>{})), want ? *want : Vec{99}, what + " with " + sh(vec(in)));
  });
  times<3>([&]<size_t k>() {  // indices
    static constexpr auto ix = [] { A x; Rng r(seed_of(400 + k, I)); x.n = (int)r.below(5); for (int i = 0; i < x.n; i++) x.v[i] = (int)r.below(k == 2 ? N + 2 : N ? N : 1); return x; }();
    [&]<size_t... j>(std::index_sequence<j...>) {
      std::optional<Vec> g(Vec{}), gd(Vec{}); for (int i : vec(ix)) { if ((size_t)i >= N) g.reset(); else if (g) g->push_back(v[i]); gd->push_back((size_t)i < N ? v[i] : 99); }
      auto what = sh(vec(ix)) + " of " + d; same(c, "gather", TRY(T::template gather<size_t(ix.v[j])...>()), g, what); same(c, "gather_or_default", TRY(T::template gather<Def, size_t(ix.v[j])...>()), gd, what);
      static constexpr auto in = [] { A x; Rng r(seed_of(500 + k, I)); x.n = ix.n; for (int i = 0; i < x.n; i++) x.v[i] = (int)r.below(Pool); return x; }();
      Vec m = v; for (int i = 0; i < ix.n; i++) if ((size_t)ix.v[i] < N) m[ix.v[i]] = in.v[i];  // the last of equal indices wins, as when writing one after the other
      same(c, "scatter", TRY(T::template scatter<size_t(ix.v[j])...>(L<in>{})), m, what + " from " + sh(vec(in)));
    }(std::make_index_sequence<ix.n>{});
  });
  { constexpr int x = elem_of(I); Vec m = v; m.push_back(x); same(c, "push", TRY(T::template push<typename El<x>::type>()), m, d); if constexpr (x >= TPool) same(c, "push_value", TRY(T::template push<El<x>::type::value>()), m, d); }
  { static constexpr A b = gen_seed(600, I, K), e = gen_seed(601, I, Mixed, 3); Vec m = v; auto add = [&](Vec o) { m.insert(m.end(), o.begin(), o.end()); }; same(c, "join", TRY(t.join()), m, d); add(vec(b)); same(c, "join", TRY(t.join(L<b>{})), m, d); same(c, "plus", TRY(t + L<b>{}), m, d); add(vec(e)); same(c, "join", TRY(t.join(L<b>{}, L<e>{})), m, d); add(v); same(c, "join", TRY(t.join(L<b>{}, L<e>{}, t)), m, d); }
  // prefixes, suffixes and order
  auto against = [&]<A o>() {
    Vec w = vec(o); std::string what = sh(w) + " and " + d; bool pre = w.size() <= N && std::equal(w.begin(), w.end(), v.begin()), suf = w.size() <= N && std::equal(w.rbegin(), w.rend(), v.rbegin()), rpre = N <= w.size() && std::equal(v.begin(), v.end(), w.begin()); using O = L<o>;
    same(c, "trim_prefix", TRY(t.trim_prefix(O{})), pre ? Vec(v.begin() + w.size(), v.end()) : v, what); same(c, "trim_prefix_or_default", TRY(t.template trim_prefix<Def>(O{})), pre ? Vec(v.begin() + w.size(), v.end()) : Vec{99}, what);
    same(c, "trim_suffix", TRY(t.trim_suffix(O{})), suf ? Vec(v.begin(), v.end() - w.size()) : v, what); same(c, "trim_suffix_or_default", TRY(t.template trim_suffix<Def>(O{})), suf ? Vec(v.begin(), v.end() - w.size()) : Vec{99}, what);
    VH_CHECK((t == O{}) == (v == w) && (t != O{}) == (v != w), "equal", "%s", what.c_str());
    auto q = t <=> O{}; int g = q < 0 ? -1 : q == 0 ? 0 : q > 0 ? 1 : 2, m = v == w ? 0 : rpre ? -1 : pre ? 1 : 2; VH_CHECK(g == m, "order", "%s: %d must be %d", what.c_str(), g, m); c.event(m == 2 ? "unordered" : "ordered");
  };
  times<N + 1>([&]<size_t n>() { constexpr auto p = [] { A x; x.n = n; for (size_t i = 0; i < n; i++) x.v[i] = a.v[i]; return x; }(); constexpr auto s = [] { A x; x.n = n; for (size_t i = 0; i < n; i++) x.v[i] = a.v[N - n + i]; return x; }(); constexpr auto y = [] { A x; x.n = n; for (size_t i = 0; i < n; i++) x.v[i] = a.v[i]; if (n) x.v[n - 1] = (x.v[n - 1] + 1) % Pool; return x; }(); against.template operator()<p>(); against.template operator()<s>(); against.template operator()<y>(); });
  { constexpr A o = gen_seed(700, I, K), l = [] { A x = a; if (x.n < 8) x.v[x.n++] = 3; return x; }(); against.template operator()<o>(); against.template operator()<l>(); }
  // searching for types
  auto opt = [](auto o) { return o.has_value() ? (int)*o : -1; };
  times<4>([&]<size_t k>() {
    constexpr int x = k < 2 && N ? a.v[(seed_of(800, I) + k) % (N ? N : 1)] : (int)(seed_of(801 + k, I) % Pool); using X = typename El<x>::type; int first = -1, many = 0; for (size_t i = 0; i < N; i++) if (v[i] == x) { if (first < 0) first = (int)i; many++; }
    c.eval(4); c.event(first < 0 ? "absent" : "found");
    VH_CHECK(opt(T::template find<X>()) == first, "find", "find %d in %s: %d", x, d.c_str(), opt(T::template find<X>()));
    VH_CHECK(opt(T::template find_unique<X>()) == (many == 1 ? first : -1), "find_unique", "find_unique %d in %s: %d", x, d.c_str(), opt(T::template find_unique<X>()));
  });
  { auto pf = []<class U>() { return Id<U>::v % 3 == 1; }; int first = -1, many = 0; for (size_t i = 0; i < N; i++) if (v[i] % 3 == 1) { if (first < 0) first = (int)i; many++; } VH_CHECK(opt(T::find(pf)) == first, "find_if", "find in %s: %d", d.c_str(), opt(T::find(pf))); VH_CHECK(opt(T::find_unique(pf)) == (many == 1 ? first : -1), "find_unique_if", "find_unique in %s: %d", d.c_str(), opt(T::find_unique(pf))); }
  { int first = -1, many = 0; for (size_t i = 0; i < N; i++) if (v[i] == 2 || v[i] == 3) { if (first < 0) first = (int)i; many++; } VH_CHECK(opt(T::template find<std::is_reference>()) == first, "find_trait", "find<is_reference> in %s", d.c_str()); VH_CHECK(opt(T::template find_unique<std::is_reference>()) == (many == 1 ? first : -1), "find_trait", "find_unique<is_reference> in %s", d.c_str()); }
  // mapping, visiting and applying
  VH_CHECK(([]<class... U>(best::tlist<U...>, best::tlist<Wrap<U>...>*) { return true; }(t, (std::remove_cvref_t<decltype(T::template map<Wrap>())>*)nullptr)), "map_trait", "map<Wrap> of %s", d.c_str());
  { auto m = T::template map<[]<class U>() { return Id<U>::v * 2; }>(); Vec g; m.each([&]<class U>() { g.push_back(U::value); }); Vec w = v; for (int& x : w) x *= 2; VH_CHECK(g == w, "map", "map of %s is %s", d.c_str(), sh(g).c_str()); }
  { Vec g; T::each([&]<class U>() { g.push_back(Id<U>::v); }); VH_CHECK(g == v, "each", "each of %s visits %s", d.c_str(), sh(g).c_str()); }
  { Vec g = T::apply([]<class... U>() { return Vec{Id<U>::v...}; }); VH_CHECK(g == v, "apply", "apply of %s gives %s", d.c_str(), sh(g).c_str()); VH_CHECK((std::is_same_v<decltype(T::template apply<Pack>()), decltype([]<class... U>(best::tlist<U...>) { return Pack<U...>{}; }(t))>), "apply_trait", "apply<Pack> of %s", d.c_str()); }
}
template <int I, Kind K> void values(Ctx& c) {
  constexpr A a = gen_seed(1000 + K, I, K); using T = L<a>; const Vec v = vec(a); constexpr size_t N = a.n; std::string d = sh(v); c.state(hcomb(hbytes(&a, sizeof a), 50 + K)); c.event("value_lists");
  static const long long val[] = {0, 1, 2, 3, 'a', 1, 1, 1, 5, -4, 7, 'b'}; auto of = [&](size_t i) { return val[v[i] - TPool]; };
  times<N + 2>([&]<size_t i>() {
    c.eval(2);
    if constexpr (requires { T::template value<i>; }) { if constexpr (i < N) { VH_CHECK((long long)T::template value<i> == of(i) && (std::is_same_v<const decltype(El<a.v[i]>::type::value), const decltype(T::template value<i>)>), "value", "value<%zu> of %s", i, d.c_str()); } else VH_FAIL("value", "value<%zu> of %s is accepted", i, d.c_str()); } else VH_CHECK(i >= N, "value", "value<%zu> of %s is refused", i, d.c_str());
    if constexpr (requires { T::template value<i, 1234>; }) VH_CHECK(((long long)T::template value<i, 1234> == (i < N ? of(i) : 1234)), "value_or_default", "value<%zu, 1234> of %s", i, d.c_str()); else VH_FAIL("value_or_default", "value<%zu, 1234> of %s is refused", i, d.c_str());
  });
  auto opt = [](auto o) { return o.has_value() ? (int)*o : -1; };
  for (long long q : {0LL, 1LL, 2LL, 5LL, 97LL, 50LL}) { int first = -1, many = 0; for (size_t i = 0; i < N; i++) if (of(i) == q) { if (first < 0) first = (int)i; many++; } c.eval(4);
    auto f = T::find([&](auto x) { return (long long)x.value == q; }); auto u = T::find_unique([&](auto x) { return (long long)x.value == q; }); VH_CHECK(opt(f) == first, "find_value_if", "find %lld in %s: %d", q, d.c_str(), opt(f)); VH_CHECK(opt(u) == (many == 1 ? first : -1), "find_unique_value_if", "find_unique %lld in %s: %d", q, d.c_str(), opt(u));
    if constexpr (K == Ints) { auto f = T::find((int)q); auto u = T::find_unique((int)q); VH_CHECK(opt(f) == first, "find_value", "find(%lld) in %s: %d", q, d.c_str(), opt(f)); VH_CHECK(opt(u) == (many == 1 ? first : -1), "find_unique_value", "find_unique(%lld) in %s: %d", q, d.c_str(), opt(u)); } }
  if constexpr (N > 0) {
    { auto m = T::template map<[](auto x) { return (long long)x.value + 1; }>(); std::vector<long long> g, w; m.each([&](auto x) { g.push_back(x.value); }); for (size_t i = 0; i < N; i++) w.push_back(of(i) + 1); VH_CHECK(g == w, "map_values", "map of %s", d.c_str()); }
    { auto m = T::template map<[]<auto x>() { return (long long)x + 1; }>(); std::vector<long long> g, w; m.each([&]<auto x>() { g.push_back(x); }); for (size_t i = 0; i < N; i++) w.push_back(of(i) + 1); VH_CHECK(g == w, "map_constants", "map of %s", d.c_str()); }
    { auto g = T::apply([](auto... x) { return std::vector<long long>{(long long)x.value...}; }); auto h = T::apply([]<auto... x>() { return std::vector<long long>{(long long)x...}; }); std::vector<long long> w; for (size_t i = 0; i < N; i++) w.push_back(of(i)); VH_CHECK(g == w && h == w, "apply_values", "apply of %s", d.c_str()); }
  }
  VH_CHECK(([]<class... U>(best::tlist<U...>, best::tlist<VWrap<U::value>...>*) { return true; }(T{}, (std::remove_cvref_t<decltype(T::template map<VWrap>())>*)nullptr)), "map_value_trait", "map<VWrap> of %s", d.c_str());
  VH_CHECK((std::is_same_v<decltype(T::template apply<VPack>()), decltype([]<class... U>(best::tlist<U...>) { return VPack<U::value...>{}; }(T{}))>), "apply_value_trait", "apply<VPack> of %s", d.c_str());
  bool all = true, any = false; for (size_t i = 0; i < N; i++) { all &= of(i) != 0; any |= of(i) != 0; } VH_CHECK((bool)T::all() == all && (bool)T::any() == any, "all_any", "all/any of %s: %d/%d", d.c_str(), (int)(bool)T::all(), (int)(bool)T::any()); c.event(all ? "all" : "not_all");
  if constexpr (N > 0) {
#define FOLD(nm, o) { long long m = of(0); for (size_t i = 1; i < N; i++) m = m o of(i); VH_CHECK((long long)T::template reduce<best::op::nm>() == m, "reduce_" #nm, "reduce<" #nm "> of %s is %lld, must be %lld", d.c_str(), (long long)T::template reduce<best::op::nm>(), m); c.event("reductions"); }
    if (std::none_of(v.begin(), v.end(), [](int x) { return x == 19 || x == 22; })) { FOLD(Add, +) FOLD(Sub, -) FOLD(And, &) FOLD(Or, |) FOLD(Xor, ^) }  // no unsigned elements
    if constexpr (K == Ints) { FOLD(Mul, *) }
#undef FOLD
  }
}
template <int... I> void go(Ctx& c, std::integer_sequence<int, I...>) { ((c.idx == (u64)I ? (transform<I, Mixed>(c), transform<I, Values>(c), values<I, Values>(c), values<I, Ints>(c)) : (void)0), ...); }
#define CAT(a, b) CAT2(a, b)
#define CAT2(a, b) a##b
#define WL(n, q, th) VH_WORKLOAD(n, q, th)
WL(CAT(lists_, PARTNS), VH_CASES, VH_CASES) { go(c, std::make_integer_sequence<int, VH_CASES>{}); }
#ifdef PART_A
template <size_t... n> bool iota(best::tlist<best::val<n>...>) { size_t i = 0; return ((n == i++) && ...); }
VH_WORKLOAD(indices, 1, 1) { times<40>([&]<size_t n>() { c.eval(); c.event("indices"); c.state(n); VH_CHECK(best::indices<n>.size() == n && iota(best::indices<n>), "indices", "indices<%zu>", n); VH_CHECK((std::is_same_v<best::index_t<n>, best::val<size_t(n)>> && best::index<n>.value == n), "index", "index<%zu>", n); }); }
#endif
}  // namespace PARTNS
