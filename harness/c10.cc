// C10: choices. Histories of construct / emplace / assign / copy / move / swap / permute over slots holding one choice type,
// against a model of (alternative, value) per slot; after every step every way of looking at every alternative is compared.
#include "vh.h"
#include "track.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/vec.h"
#include "best/text/rune.h"
#include "best/text/str.h"
#include "best/text/utf8.h"
#include <optional>
#include <typeinfo>
using namespace vh;
using tr::Obj; using tr::Big; using tr::Uniq; using tr::Rel; using tr::Align;

namespace {
struct E0 { bool operator==(const E0&) const = default; };
struct E1 { bool operator==(const E1&) const = default; };
enum class En : u8 { A };
struct NoAssign { Obj o; NoAssign(int x) : o(x) {} NoAssign(const NoAssign&) = default; NoAssign(NoAssign&&) = default; NoAssign& operator=(const NoAssign&) = delete; NoAssign& operator=(NoAssign&&) = delete; int get() const { return o.get(); } bool operator==(const NoAssign& x) const { return get() == x.get(); } };
// A type with a spare representation, whose ordinary values include every other pattern, and which is not trivial.
struct Nich { int v; Obj* o; Nich(int x) : v(x), o(new Obj(x)) {} Nich(best::niche) : v(-1), o(nullptr) {} Nich(const Nich& n) : v(n.v), o(new Obj(*n.o)) {} Nich(Nich&& n) : v(n.v), o(new Obj(std::move(*n.o))) {} Nich& operator=(const Nich& n) { v = n.v; *o = *n.o; return *this; } Nich& operator=(Nich&& n) { v = n.v; *o = std::move(*n.o); return *this; } ~Nich() { delete o; } int get() const { return o->get(); } bool operator==(const Nich& n) const { return v == n.v; } bool operator==(best::niche) const { return o == nullptr; } };
struct TNich { int v; constexpr TNich(int x) : v(x) {} constexpr TNich(best::niche) : v(-1) {} constexpr bool operator==(const TNich&) const = default; constexpr bool operator==(best::niche) const { return v == -1; } };
constexpr int P = 64; int ipool[P]; Obj* opool() { static Obj* p = nullptr; return p; }
int nextv; int nv() { return nextv = nextv % (P - 1) + 1; }

template <class T> struct K { static int mk(int v) { return v; } static int rd(const T& t) { return t.get(); } };
template <> struct K<int> { static int mk(int v) { return v; } static int rd(const int& t) { return t; } };
template <> struct K<u8> { static u8 mk(int v) { return (u8)v; } static int rd(const u8& t) { return t; } };
template <> struct K<char> { static char mk(int v) { return (char)v; } static int rd(const char& t) { return t; } };
template <> struct K<En> { static En mk(int v) { return (En)v; } static int rd(const En& t) { return (int)t; } };
template <> struct K<double> { static double mk(int v) { return v + 0.5; } static int rd(const double& t) { return (int)t; } };
template <> struct K<bool> { static bool mk(int v) { return v & 1; } static int rd(const bool& t) { return t; } };
template <> struct K<E0> { static E0 mk(int) { return {}; } static int rd(const E0&) { return 0; } };
template <> struct K<E1> { static E1 mk(int) { return {}; } static int rd(const E1&) { return 0; } };
template <> struct K<TNich> { static int mk(int v) { return v; } static int rd(const TNich& t) { return t.v; } };
template <> struct K<int&> { static int& mk(int v) { return ipool[v]; } static int rd(const int& t) { return (int)(&t - ipool); } };
template <> struct K<const int&> { static const int& mk(int v) { return ipool[v]; } static int rd(const int& t) { return (int)(&t - ipool); } };
template <> struct K<int&&> { static int&& mk(int v) { return std::move(ipool[v]); } static int rd(const int& t) { return (int)(&t - ipool); } };
template <> struct K<int*> { static int* mk(int v) { return &ipool[v]; } static int rd(int* const& t) { return (int)(t - ipool); } };
template <> struct K<best::box<int>> { static best::box<int> mk(int v) { return best::box<int>(v); } static int rd(const best::box<int>& t) { return *t; } };
template <> struct K<best::box<Obj>> { static best::box<Obj> mk(int v) { return best::box<Obj>(v); } static int rd(const best::box<Obj>& t) { return t->get(); } };
template <> struct K<best::rune> { static best::rune mk(int v) { return *best::rune::from_int(0xd7c0 + v > 0xd7ff ? 0x10ffff - v : 0xd7c0 + v); } static int rd(const best::rune& t) { for (int v = 0; v < P; v++) if (mk(v) == t) return v; return -5; } };
template <> struct K<best::vec<Obj>> { static best::vec<Obj> mk(int v) { best::vec<Obj> r; for (int i = 0; i < v % 4 + 1; i++) r.push(v); return r; } static int rd(const best::vec<Obj>& t) { return (int)t.size() == t[0].get() % 4 + 1 ? t[0].get() : -5; } };
template <> struct K<best::option<int>> { static best::option<int> mk(int v) { return v & 1 ? best::option<int>(v) : best::none; } static int rd(const best::option<int>& t) { return t.has_value() ? *t : 0; } };
template <> struct K<best::option<best::box<int>>> { using T = best::option<best::box<int>>; static T mk(int v) { if (v & 1) return T(best::box<int>(v)); return best::none; } static int rd(const T& t) { return t.has_value() ? **t : 0; } };
template <> struct K<best::choice<int, void>> { using T = best::choice<int, void>; static T mk(int v) { if (v & 1) return T(best::index<0>, v); return T(best::index<1>); } static int rd(const T& t) { return t.which() == 0 ? t[best::index<0>] : 0; } };
template <> struct K<void> {};
template <class T> int norm(int v) { if constexpr (best::is_void<T> || std::is_same_v<T, E0> || std::is_same_v<T, E1>) return 0; else if constexpr (std::is_same_v<T, bool>) return v & 1; else if constexpr (std::is_same_v<T, best::option<int>> || std::is_same_v<T, best::option<best::box<int>>> || std::is_same_v<T, best::choice<int, void>>) return v & 1 ? v : 0; else return v; }
template <class T> constexpr bool cp1 = !std::is_same_v<T, Uniq> && !std::is_rvalue_reference_v<T>;
std::string nmc(const char* pf) { std::string s = pf; auto p = s.find("= <"); return s.substr(p + 3, s.find_last_of(">]") - p - 3); }

// which `choice` a call with each kind of receiver may produce
template <class... Ts> struct R {
  using C = best::choice<Ts...>; static constexpr size_t M = sizeof...(Ts); static constexpr bool cp = (cp1<Ts> && ...);
  template <size_t n> using T = typename C::template type<n>;
  static constexpr bool eq = (best::equatable<Ts, Ts> && ...) && cp;
  template <class F> static void each(F&& f) { [&]<size_t... i>(std::index_sequence<i...>) { (f(best::index<i>), ...); }(std::make_index_sequence<M>{}); }
  template <class F> static void pick(size_t k, F&& f) { each([&](auto i) { if (i.value == k) f(i); }); }
  static void put(std::optional<C>& s, size_t k, int v) { pick(k, [&](auto i) { using U = T<i.value>; if constexpr (best::is_void<U>) s.emplace(i); else s.emplace(i, K<U>::mk(v)); }); }

  static void run(Ctx& c) {
    constexpr int N = 3; static const std::string name = nmc(__PRETTY_FUNCTION__); std::string trace; u64 h = hstr(name);
    nextv = (int)c.rng.below(P); tr::begin(c, name.c_str()); trace.reserve(1024);
    {
      std::optional<C> s[N]; size_t w[N] = {}; int m[N] = {}; bool known[N] = {}; bool ok = true;
      auto bad = [&](const char* key, const std::string& d) { VH_FAIL(key, "choice<%s>: %s (after %s)", name.c_str(), d.c_str(), trace.c_str()); ok = false; };
      auto look = [&](int q) {
        C& x = *s[q]; const C& k = x; c.eval();
        if (k.which() != w[q]) { bad("which", fmt("slot %d reports alternative %zu, not %zu", q, k.which(), w[q])); return; }
        each([&](auto i) {
          if (!ok) return; constexpr size_t n = i.value; using U = T<n>; bool here = n == w[q];
          bool a0 = k.at(i).has_value(), a1 = x.at(i).has_value(), o0 = k.object(i).has_value(), o1 = x.object(i).has_value(), o3 = std::move(x).object(i).has_value(), o2 = std::move(k).object(i).has_value();
          if (a0 != here || a1 != here) return bad("at", fmt("at(%zu) of slot %d: %d %d, held %zu", n, q, a0, a1, w[q]));
          if (o0 != here || o1 != here || o2 != here || o3 != here) return bad("object", fmt("object(%zu) of slot %d: %d %d %d %d, held %zu", n, q, o0, o1, o2, o3, w[q]));
          if constexpr (!best::is_void<U>) {
            bool a2 = std::move(k).at(i).has_value(), a3 = std::move(x).at(i).has_value(); if (a2 != here || a3 != here) return bad("at", fmt("rvalue at(%zu) of slot %d: %d %d", n, q, a2, a3));
            auto p0 = k.as_ptr(i); auto p1 = x.as_ptr(i); if ((p0 != nullptr) != here || (void*)p0 != (void*)p1) return bad("as_ptr", fmt("as_ptr(%zu) of slot %d", n, q));
            if (here) {
              int vals[] = {K<U>::rd(k[i]), K<U>::rd(x[i]), K<U>::rd(*k.at(i)), K<U>::rd(*x.at(i)), K<U>::rd(*p0), K<U>::rd(k.at(best::unsafe("checked"), i)), K<U>::rd(x.at(best::unsafe("checked"), i)), K<U>::rd(**k.object(i))};
              for (int v : vals) if (v != m[q]) return bad("value", fmt("slot %d, alternative %zu holds %d, not %d", q, n, v, m[q]));
              auto&& r2 = std::move(k)[i]; auto&& r3 = std::move(x)[i]; auto&& r4 = *std::move(x).at(i); const void *a[] = {&k[i], &x[i], &*x.at(i), p0, &r2, &r3, &r4, (*k.object(i)).operator->(), (*std::move(x).object(i)).operator->()};
              for (auto p : a) if (p != a[0]) return bad("address", fmt("accessors of alternative %zu name different objects", n));
              static_assert(std::is_same_v<decltype(std::move(x)[i]), best::as_rref<U>> && std::is_same_v<decltype(x[i]), best::as_ref<U>> && std::is_same_v<decltype(k[i]), best::as_ref<const U>>);
              c.event("values_read");
            }
          } else if (here) { k[i]; x[i]; c.event("voids_read"); }
        });
        if (!ok) return;
        int calls = 0, got = -9; size_t tag = 99; const void* at = nullptr; const void* at2 = nullptr;
        auto h1 = [&](auto... y) { return 0; };
        k.match([&](auto&&... y) { calls++; ((at = &y), ...); });
        x.match([&](auto&&... y) { calls++; ((at2 = &y), ...); }); if (calls != 2 || at != at2) bad("match", fmt("match called %d handlers", calls));
        calls = 0; k.index_match([&](auto i, auto&&... y) { calls++; tag = i.value; using U = T<i.value>; if constexpr (best::is_void<U>) got = 0; else got = K<U>::rd(y...); }); if (calls != 1 || tag != w[q] || got != m[q]) bad("index_match", fmt("index_match called %d handlers, tag %zu value %d; expected %zu %d", calls, tag, got, w[q], m[q]));
        calls = 0; std::move(x).match([&](auto&&... y) { calls++; ((at2 = &y), ...); static_assert((std::is_rvalue_reference_v<decltype(y)> && ...) || (std::is_lvalue_reference_v<Ts> || ...)); }); if (calls != 1 || at != at2) bad("match", "rvalue match");
        calls = 0; std::move(x).index_match([&](auto i, auto&&... y) { calls++; tag = i.value; ((at2 = &y), ...); static_assert((std::is_same_v<decltype(y), best::as_rref<T<i.value>>> && ...)); }); if (calls != 1 || tag != w[q] || at != at2) bad("index_match", "rvalue index_match");
        int sum = k.match([&](auto&&...) { return 17; }); if (sum != 17) bad("match-result", "match did not return the handler's result");
        c.event("matches", 5);
      };
      int steps = 4 + (int)c.rng.below(24);
      for (int t = 0; t < steps && ok; t++) {
        int i = (int)c.rng.below(N), j = (int)c.rng.below(N), op = (int)c.rng.below(11); size_t n = c.rng.below(M); int v = nv();
        if (!s[i]) op = 0; if (op >= 3 && op <= 7 && (!s[j] || !known[j])) op = 1; if (op == 7 && !known[i]) op = 1;
        trace += fmt("%d(%d,%d,%zu) ", op, i, j, n); tr::op(trace.c_str()); h = hcomb(h, (op * 16 + i * 4 + j) * 512 + n);
        auto set = [&] { w[i] = n; pick(n, [&](auto q) { m[i] = norm<T<q.value>>(v); }); known[i] = true; };
        switch (op) {
          case 0: s[i].reset(); put(s[i], n, v); set(); c.event("makes"); break;
          case 1: case 2: pick(n, [&](auto q) { using U = T<q.value>; c.event(w[i] == n ? "emplaced_same" : "emplaced_other"); if constexpr (best::is_void<U>) s[i]->emplace(q); else { auto&& r = s[i]->emplace(q, K<U>::mk(v)); if (&r != s[i]->as_ptr(q)) bad("emplace", "emplace returned another object"); } }); set(); break;
          case 3: if constexpr (cp) { if (i == j) { *s[i] = *s[j]; c.event("self_assigns"); break; } c.event(w[i] == w[j] ? "copy_assigned_same" : "copy_assigned_other"); *s[i] = std::as_const(*s[j]); w[i] = w[j]; m[i] = m[j]; known[i] = true; } break;
          case 4: if (i == j) { break; } c.event(w[i] == w[j] ? "move_assigned_same" : "move_assigned_other"); *s[i] = std::move(*s[j]); w[i] = w[j]; m[i] = m[j]; known[i] = true; known[j] = false; break;
          case 5: if constexpr (cp) if (i != j) { s[i].reset(); s[i].emplace(std::as_const(*s[j])); w[i] = w[j]; m[i] = m[j]; known[i] = true; c.event("copies"); } break;
          case 6: if (i != j) { s[i].reset(); s[i].emplace(std::move(*s[j])); w[i] = w[j]; m[i] = m[j]; known[i] = true; known[j] = false; c.event("moves"); } break;
          case 7: if (i != j) { std::swap(*s[i], *s[j]); std::swap(w[i], w[j]); std::swap(m[i], m[j]); c.event("swaps"); } break;
          case 8: if (known[i]) { [&]<size_t... q>(std::index_sequence<q...>) {
              auto check = [&](auto&& y) { size_t ww = M - 1 - w[i]; if (y.which() != ww) return bad("permute", fmt("permuting %zu gave %zu", w[i], y.which())); y.index_match([&](auto g, auto&&... z) { using U = T<M - 1 - g.value>; if constexpr (!best::is_void<U>) if (K<U>::rd(z...) != m[i]) bad("permute", "permuting changed the value"); }); };
              if constexpr (cp) if (c.rng.flip()) { check(s[i]->template permute<(M - 1 - q)...>()); c.event("permutes"); return; }
              if constexpr (!(std::is_rvalue_reference_v<Ts> || ...)) { check(std::move(*s[i]).template permute<(M - 1 - q)...>()); known[i] = false; c.event("permutes_moved"); } }(std::make_index_sequence<M>{}); } break;
          case 9: if constexpr (eq) { for (int q = 0; q < N; q++) if (known[q] && known[i]) { bool ref = false; each([&](auto g) { if (g.value == w[i]) ref = best::is_ref<T<g.value>>; }); bool e = w[i] == w[q] && (m[i] == m[q] || ref); if ((*s[i] == *s[q]) != e) bad("equal", fmt("slots %d and %d (%zu/%d, %zu/%d) compare as %d", i, q, w[i], m[i], w[q], m[q], !e)); c.event("comparisons"); } } break;
          default: if (known[i] && M > 1 && c.rng.chance(1, 40)) { size_t x = (w[i] + 1 + c.rng.below(M - 1)) % M; int form = (int)c.rng.below(4); VH_MUST_CRASH("wrong-alternative", fmt("choice<%s>[%zu] holding %zu", name.c_str(), x, w[i]).c_str(), pick(x, [&](auto q) { if (form == 0) (void)std::as_const(*s[i])[q]; else if (form == 1) (void)(*s[i])[q]; else if (form == 2) (void)std::move(*s[i])[q]; else (void)std::move(std::as_const(*s[i]))[q]; })); c.event("crashing_accesses"); } break;
        }
        for (int q = 0; q < N && ok; q++) if (known[q]) look(q);
        c.state(h);
      }
      if (!ok) { for (auto& x : s) if (x) new std::optional<C>(std::move(x)); tr::reg().c = nullptr; return; }
    }
    tr::end(c);
  }
};
template <size_t> using IntAt = int;
}  // namespace
#define ROT(...) static void (*const fs[])(Ctx&) = {__VA_ARGS__}; fs[c.rng.below(sizeof(fs) / sizeof(fs[0]))](c)
using best::box; using best::rune; using best::vec; using best::option;
#if defined(PART_A)
VH_WORKLOAD(plain, 3000, 80000) { ROT((R<int>::run), (R<int, void>::run), (R<void, int>::run), (R<int, u8, double>::run), (R<bool, void>::run), (R<void, void>::run), (R<E0, void>::run), (R<E0, E1>::run), (R<int, int>::run), (R<int*, void>::run), (R<En, char, u8, bool>::run)); }
VH_WORKLOAD(many, 60, 600) {  // more alternatives than one byte of tag can count
  [&]<size_t... i>(std::index_sequence<i...>) {
    using C = best::choice<IntAt<i>...>; constexpr size_t M = sizeof...(i); static C (*const mk[])(int) = {+[](int v) { return C(best::index<i>, v); }...}; static void (*const em[])(C&, int) = {+[](C& x, int v) { x.emplace(best::index<i>, v); }...}; static bool (*const at[])(const C&) = {+[](const C& x) { return x.at(best::index<i>).has_value(); }...};
    C a = mk[c.rng.below(M)](0); for (int k = 0; k < 60; k++) { size_t n = c.rng.flip() ? c.rng.below(M) : 250 + c.rng.below(M - 250); int v = (int)c.rng.next(); if (c.rng.flip()) em[n](a, v); else a = mk[n](v); C b = a; size_t hit = 999; int got = 0; b.index_match([&](auto q, int x) { hit = q.value; got = x; }); c.eval(); c.state(hcomb(n, v)); c.event("large_tags");
      VH_CHECK(b.which() == n && hit == n && got == v, "large-tag", "alternative %zu of %zu: which %zu, matched %zu, value %d not %d", n, M, b.which(), hit, got, v); for (size_t q = 0; q < M; q++) VH_CHECK(at[q](b) == (q == n), "large-tag", "at(%zu) with %zu held", q, n); }
  }(std::make_index_sequence<300>{});
}
#elif defined(PART_B)
VH_WORKLOAD(tracked, 4000, 100000) { ROT((R<Obj>::run), (R<Obj, void>::run), (R<void, Obj, int>::run), (R<Obj, Obj, Obj>::run), (R<Obj, int, Big>::run), (R<Uniq, void>::run), (R<Uniq, Obj, int>::run), (R<Align, u8>::run), (R<NoAssign, Obj>::run), (R<Rel, int, E0>::run), (R<vec<Obj>, Obj>::run)); }
#elif defined(PART_C)
VH_WORKLOAD(niches, 4000, 100000) { ROT((R<box<int>, void>::run), (R<void, box<Obj>>::run), (R<E0, box<int>>::run), (R<rune, void>::run), (R<void, rune>::run), (R<Nich, void>::run), (R<E0, Nich>::run), (R<TNich, void>::run), (R<E1, TNich>::run), (R<TNich, int>::run)); }
#else
VH_WORKLOAD(mixed, 4000, 100000) { ROT((R<int&, void>::run), (R<void, int&>::run), (R<int&, int>::run), (R<const int&, int&>::run), (R<int&&, void>::run), (R<int&, Obj, void>::run), (R<option<int>, void>::run), (R<option<box<int>>, void>::run), (R<best::choice<int, void>, int>::run), (R<option<box<int>>, box<int>, void, Obj, int&, rune>::run)); }
VH_WORKLOAD(forms, 800, 20000) {  // conversion, overloads, const and void handlers
  int v = nv(); c.eval(); c.state(v); tr::begin(c, "forms");
  struct Str { const char* s; Str(const char* p) : s(p) {} };
  { best::choice<int, Str> a = v; VH_CHECK(a.which() == 0 && a[best::index<0>] == v, "convert", "int"); a = "x"; VH_CHECK(a.which() == 1 && a[best::index<1>].s[0] == 'x', "convert", "string"); a = v + 1; VH_CHECK(a.which() == 0 && a.at(best::index<0>) == v + 1, "convert", "int assigned");
    int hit = 0; a.match([&](int x) { hit = x; }, [&](Str) { hit = -1; }); VH_CHECK(hit == v + 1, "overload", "match by type"); a = "y"; int r = a.match([&](const int& x) { return 1; }, [&](const Str&) { return 2; }); VH_CHECK(r == 2, "overload", "match result by type"); }
  { best::choice<void, Str> a("x"); VH_CHECK(a.which() == 1, "convert", "void is never chosen"); best::choice<int, void> b(best::index<1>); int hit = 0; b.match([&](int) { hit = 1; }, [&] { hit = 2; }); VH_CHECK(hit == 2, "void-handler", "no-argument handler"); b.match([&](int) { hit = 1; }, [&](best::empty) { hit = 3; }); VH_CHECK(hit == 3, "void-handler", "empty handler"); b = v; b.match([&](int x) { hit = x; }, [&] { hit = -2; }); VH_CHECK(hit == v, "void-handler", "int handler"); }
  { best::choice<Uniq, int> a(best::index<0>, v); Uniq u = std::move(a).match([](Uniq&& x) { return std::move(x); }, [](int) { return Uniq(-1); }); VH_CHECK(u.get() == v && a[best::index<0>].get() == tr::Moved, "rvalue-match", "moving out in match"); a.emplace(best::index<0>, v + 1); Uniq u2 = std::move(a).index_match([](best::index_t<0>, Uniq&& x) { return std::move(x); }, [](best::index_t<1>, int) { return Uniq(-1); }); VH_CHECK(u2.get() == v + 1, "rvalue-match", "moving out in index_match"); a.emplace(best::index<0>, v); Uniq u3 = *std::move(a).at(best::index<0>); VH_CHECK(u3.get() == v, "rvalue-at", "moving out of at()"); a.emplace(best::index<0>, v); Uniq u4 = std::move(a)[best::index<0>]; VH_CHECK(u4.get() == v, "rvalue-at", "moving out of []"); a.emplace(best::index<0>, v); Uniq u5 = **std::move(a).object(best::index<0>); VH_CHECK(u5.get() == v, "rvalue-object", "moving out of object()"); }
  { best::choice<int, Obj> a(best::index<1>, v); const Obj* at = a.as_ptr(best::index<1>); a[best::index<1>].v = v + 5; a.at(best::index<1>)->v++; a.match([](int) {}, [](Obj& o) { o.v++; }); VH_CHECK(a[best::index<1>].get() == v + 7 && a.as_ptr(best::index<1>) == at, "mutate", "mutation through accessors"); int& r = a.emplace(best::index<0>, v); r = v + 2; VH_CHECK(a[best::index<0>] == v + 2, "mutate", "mutation through emplace"); }
  { best::choice<int, int, int> a(best::index<2>, v); auto b = a.permute<2, 0, 1>(); VH_CHECK(b.which() == 0 && b[best::index<0>] == v, "permute", "2,0,1"); auto d = b.permute<1, 2, 0>(); VH_CHECK(d.which() == 2 && d == a, "permute", "1,2,0 is its inverse"); }
  { std::vector<best::choice<vec<Obj>, int, box<Obj>>> vs; for (int i = 0; i < 9; i++) { if (i % 3 == 0) vs.emplace_back(best::index<0>, K<vec<Obj>>::mk(v + i)); else if (i % 3 == 1) vs.emplace_back(best::index<1>, v + i); else vs.emplace_back(best::index<2>, v + i); } for (int i = 0; i < 9; i++) { int got = vs[i].match([](const vec<Obj>& x) { return x[0].get(); }, [](int x) { return x; }, [](const box<Obj>& b) { return b->get(); }); VH_CHECK(vs[i].which() == (size_t)i % 3 && got == v + i, "growing", "element %d", i); } }
  tr::end(c); c.event("forms_checked");
}
#endif
