// C08: lifetimes. Histories of construct / copy / move / assign / self-assign / swap / mutate / destroy over slots holding
// one owning type, with element types whose every construction, use and destruction is checked against a registry, and
// heap accounting around each case.
#include "vh.h"
#include "track.h"
#include "monalloc.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/func/dyn.h"
#include "best/text/format.h"
#include "best/text/strbuf.h"
#include "best/text/utf8.h"
#include "best/text/utf16.h"
using namespace vh;
using tr::Obj; using tr::Big; using tr::Uniq; using tr::Rel; using tr::RelUniq; using tr::Align;

namespace {
using Vals = std::vector<int>;
std::string nmc(const char* pf) { std::string s = pf; auto p = s.find("T = "); return s.substr(p + 4, s.find_first_of(";]", p) - p - 4); }
int fresh_val = 1;
int nv() { return fresh_val++; }

// Constructible but not assignable.
struct NoAssign { Obj o; NoAssign(int x) : o(x) {} NoAssign(const NoAssign&) = default; NoAssign(NoAssign&&) = default; NoAssign& operator=(const NoAssign&) = delete; NoAssign& operator=(NoAssign&&) = delete; int get() const { return o.get(); } };

// Composites of move-only types claim to be copyable; go by name instead.
template <class T> constexpr bool cp() { std::string_view s = __PRETTY_FUNCTION__; return s.find("Uniq") == s.npos && s.find("dyn<") == s.npos; }
template <class T> constexpr bool assignable() { std::string_view s = __PRETTY_FUNCTION__; return s.find("row<") == s.npos || s.find("NoAssign") == s.npos; }
template <class T> concept Tracked = requires(const T& t) { { t.get() } -> std::same_as<int>; };
template <class T> void pv(const best::option<T>& t, Vals& o);
template <class T, class A> void pv(const best::box<T, A>& b, Vals& o);
template <class T, class A> void pv(const best::box<T[], A>& b, Vals& o);
template <class T, size_t N, class A> void pv(const best::vec<T, N, A>& v, Vals& o);
template <class... Ts> void pv(const best::choice<Ts...>& ch, Vals& o);
template <class T, class E> void pv(const best::result<T, E>& r, Vals& o);
template <class... Ts> void pv(const best::row<Ts...>& r, Vals& o);
template <class E> void pv(const best::textbuf<E>& t, Vals& o);
template <Tracked T> void pv(const T& t, Vals& o) { o.push_back(t.get()); }
inline void pv(int t, Vals& o) { o.push_back(t); }
template <class T> void pv(const best::option<T>& t, Vals& o) { o.push_back(-1 - (int)t.has_value()); if (t.has_value()) pv(*t, o); }
template <class T, class A> void pv(const best::box<T, A>& b, Vals& o) { pv(*b, o); }
template <class T, class A> void pv(const best::box<T[], A>& b, Vals& o) { o.push_back(-10 - (int)b->size()); for (size_t i = 0; i < b->size(); i++) pv((*b)[i], o); }
template <class T, size_t N, class A> void pv(const best::vec<T, N, A>& v, Vals& o) { o.push_back(-100 - (int)v.size()); for (auto& e : v) pv(e, o); }
template <class... Ts> void pv(const best::choice<Ts...>& ch, Vals& o) { o.push_back(-50 - (int)ch.which()); ch.match([] {}, [&](const auto& x) { pv(x, o); }); }
template <class T, class E> void pv(const best::result<T, E>& r, Vals& o) { o.push_back(r.is_ok() ? -70 : -71); if constexpr (best::is_void<T>) {} else if (r.is_ok()) pv(*r.ok(), o); if constexpr (best::is_void<E>) {} else if (r.is_err()) pv(*r.err(), o); }
template <class... Ts> void pv(const best::row<Ts...>& r, Vals& o) { r.apply([&](const auto&... xs) { (pv(xs, o), ...); }); }
template <class E> void pv(const best::textbuf<E>& t, Vals& o) { o.push_back(-200); for (auto x : t.runes()) o.push_back((int)x.to_int()); }

class Get : public best::interface_base<Get> { public: BEST_INTERFACE(Get, (int, get, (), const), (void, set, (int x))); };
template <class O> struct Impl { O o; Impl(int x) : o(x) {} int get() const { return o.get(); } void set(int x) { o.v = x; } };
using DynBox = best::dynbox<Get>;
inline void pv(const DynBox& b, Vals& o) { o.push_back(b->get()); }

// M<T>: how to make and mutate.
template <class T> struct M;
template <class T> T make(Rng& r) { return M<T>::make(r); }
template <Tracked T> struct M<T> { static T make(Rng&) { return T(nv()); } static void mutate(T& t, Rng& r) { if constexpr (requires { t = T(1); }) t = T(nv()); } };
template <> struct M<int> { static int make(Rng& r) { return nv(); } static void mutate(int& t, Rng&) { t = nv(); } };
template <class T> struct M<best::option<T>> {
  using O = best::option<T>;
  static O make(Rng& r) { if (r.chance(1, 3)) return best::none; if constexpr (requires { O(best::in_place, nv()); } && !best::is_box<T>) if (r.flip()) return O(best::in_place, nv()); return O(best::bind, ::make<T>(r)); }
  static void mutate(O& o, Rng& r) {
    switch (r.below(5)) { case 0: o.reset(); break; case 1: o = best::none; break; case 2: { tr::op("option emplace"); o.emplace(::make<T>(r)); break; }
      case 3: { tr::op("option take"); if constexpr (requires { o.take(); }) { auto t = o.take(); if (o.has_value()) abort(); } break; }
      default: { if (o.has_value()) { M<T>::mutate(*o, r); } break; } }
  }
};
template <class T, class A> struct M<best::box<T, A>> { using B = best::box<T, A>; static B make(Rng& r) { return B(best::in_place, ::make<T>(r)); } static void mutate(B& b, Rng& r) { M<T>::mutate(*b, r); } };
template <class T, class A> struct M<best::box<T[], A>> {
  using B = best::box<T[], A>; static B make(Rng& r) { best::vec<T> v; for (size_t i = 0, n = r.below(4); i < n; i++) v.push(::make<T>(r)); return std::move(v).to_box(); }
  static void mutate(B& b, Rng& r) { if (b->size()) M<T>::mutate((*b)[r.below(b->size())], r); }
};
template <class T, size_t N, class A> struct M<best::vec<T, N, A>> {
  using V = best::vec<T, N, A>; static V make(Rng& r) { V v; for (size_t i = 0, n = r.below(6); i < n; i++) v.push(::make<T>(r)); return v; }
  static void mutate(V& v, Rng& r) { switch (r.below(6)) { case 0: if (v.size()) v.remove(r.below(v.size())); break; case 1: v.insert(r.below(v.size() + 1), ::make<T>(r)); break; case 2: v.clear(); break; case 3: v.reserve(r.below(9)); break; case 4: if (v.size()) M<T>::mutate(v[r.below(v.size())], r); break; default: v.push(::make<T>(r)); } }
};
template <class... Ts> struct M<best::choice<Ts...>> {
  using C = best::choice<Ts...>;
  template <size_t n> static C mk(Rng& r) { using T = typename C::template type<n>; if constexpr (best::is_void<T>) return C(best::index<n>); else return C(best::index<n>, ::make<T>(r)); }
  template <size_t n> static void em(C& c, Rng& r) { using T = typename C::template type<n>; tr::op("choice emplace"); if constexpr (best::is_void<T>) c.emplace(best::index<n>); else c.emplace(best::index<n>, ::make<T>(r)); }
  static C make(Rng& r) { size_t k = r.below(sizeof...(Ts)); if (k == 0) return mk<0>(r); if constexpr (sizeof...(Ts) > 1) if (k == 1) return mk<1>(r); if constexpr (sizeof...(Ts) > 2) if (k == 2) return mk<2>(r); return mk<sizeof...(Ts) - 1>(r); }
  static void mutate(C& c, Rng& r) { size_t k = r.below(sizeof...(Ts)); if (k == 0) em<0>(c, r); else if (k == 1) em<(sizeof...(Ts) > 1)>(c, r); else em<sizeof...(Ts) - 1>(c, r); }
};
template <class T, class E> struct M<best::result<T, E>> {
  using R = best::result<T, E>; static R make(Rng& r) { if (r.flip()) { if constexpr (best::is_void<T>) return best::ok(); else return best::ok(::make<T>(r)); } if constexpr (best::is_void<E>) return best::err(); else return best::err(::make<E>(r)); }
  static void mutate(R& x, Rng& r) { x = make(r); }
};
template <class... Ts> struct M<best::row<Ts...>> { using R = best::row<Ts...>; static R make(Rng& r) { return R{::make<Ts>(r)...}; } static void mutate(R& x, Rng& r) { x.apply([&](auto&... xs) { size_t k = r.below(sizeof...(xs) + !sizeof...(xs)); ((k-- == 0 ? M<std::remove_cvref_t<decltype(xs)>>::mutate(xs, r) : void()), ...); }); } };
template <class E> struct M<best::textbuf<E>> {
  using B = best::textbuf<E>; static best::rune rn(Rng& r) { static const uint32_t k[] = {'a', 'z', 0xe9, 0x4e00, 0x1f600}; return *best::rune::from_int(k[r.below(5)]); }
  static B make(Rng& r) { B b; for (size_t i = 0, n = r.below(r.flip() ? 4 : 30); i < n; i++) b.push(rn(r)); return b; }
  static void mutate(B& b, Rng& r) { switch (r.below(4)) { case 0: b.clear(); break; case 1: b.reserve(r.below(40)); break; default: for (size_t i = 0, n = r.below(12); i < n; i++) b.push(rn(r)); } }
};
template <> struct M<DynBox> {
  static DynBox make(Rng& r) { switch (r.below(3)) { case 0: return best::box<Impl<Obj>>(nv()); case 1: return best::box<Impl<Big>>(nv()); default: return best::box<Impl<Uniq>>(nv()); } }
  static void mutate(DynBox& b, Rng& r) { if (r.flip()) { auto c2 = b.try_copy(); if (c2.has_value()) { if ((*c2)->get() != b->get()) abort(); b = std::move(*c2); } } else b->set(nv()); }
};

template <class T> void machine(Ctx& c) {
  constexpr int K = 4; alignas(T) char mem[K][sizeof(T)]; bool live[K] = {}, known[K] = {}; Vals m[K]; std::string name = nmc(__PRETTY_FUNCTION__), trace; u64 h = hstr(name);
  fresh_val = 1; tr::begin(c, name.c_str()); bool good = true;
  auto at = [&](int i) -> T& { return *(T*)mem[i]; };
  auto read = [&](int i) { Vals v; pv((const T&)at(i), v); return v; };
  auto spoil = [&](const char* key, const std::string& s) { VH_FAIL(key, "%s: %s(after: %s)", name.c_str(), s.c_str(), trace.c_str()); good = false; };
  int steps = 4 + (int)c.rng.below(26);
  for (int k = 0; k < steps && good; k++) {
    int i = (int)c.rng.below(K), j = (int)c.rng.below(K), op = (int)c.rng.below(10);
    if (!live[i]) op = 0; if (op >= 1 && op <= 7 && !live[j]) { j = i; }
    trace += fmt("%d(%d,%d) ", op, i, j); h = hcomb(h, op * 64 + i * 8 + j); tr::op(trace.c_str()); u64 copies = tr::reg().copies;
    switch (op) {
      case 0: if (!live[i]) { new (mem[i]) T(make<T>(c.rng)); live[i] = known[i] = true; m[i] = read(i); c.event("makes"); } break;
      case 1: if (i != j) { if constexpr (cp<T>()) { if (!known[j]) break; at(i).~T(); new (mem[i]) T(std::as_const(at(j))); m[i] = m[j]; known[i] = true; c.event("copy_constructs"); } } break;
      case 2: if (i != j) { at(i).~T(); new (mem[i]) T(std::move(at(j))); m[i] = m[j]; known[i] = known[j]; known[j] = false; c.event("move_constructs"); if (tr::reg().copies != copies) spoil("move-copied", "a move construction copied"); } break;
      case 3: if constexpr (cp<T>() && assignable<T>()) { if (!known[j]) break; at(i) = std::as_const(at(j)); m[i] = m[j]; known[i] = true; c.event(i == j ? "self_copy_assigns" : "copy_assigns"); } break;
      case 4: case 5: if constexpr (assignable<T>()) { if (!known[j]) break; at(i) = std::move(at(j)); if (i != j) { m[i] = m[j]; known[i] = true; known[j] = false; c.event("move_assigns"); } else { known[i] = false; c.event("self_move_assigns"); } if (tr::reg().copies != copies) spoil("move-copied", "a move assignment copied"); } break;
      case 6: if constexpr (assignable<T>()) if (i != j && known[i] && known[j]) { std::swap(at(i), at(j)); std::swap(m[i], m[j]); c.event("swaps"); if (tr::reg().copies != copies) spoil("move-copied", "a swap copied"); } break;
      case 7: if (known[i]) { M<T>::mutate(at(i), c.rng); m[i] = read(i); c.event("mutations"); } break;
      case 8: at(i).~T(); live[i] = known[i] = false; c.event("destructions"); break;
      default: if (known[i]) { T t(std::move(at(i))); Vals v; pv((const T&)t, v); if (v != m[i]) spoil("value", "a value changed by moving out"); known[i] = false; c.event("moved_out"); } break;
    }
    if (op == 4 || op == 5) if (i == j && live[i]) { /* self-move: only lifetimes are promised */ if constexpr (requires { make<T>(c.rng); } && assignable<T>()) { at(i) = make<T>(c.rng); m[i] = read(i); known[i] = true; } }
    for (int q = 0; q < K && good; q++) if (known[q]) { auto v = read(q); c.eval(); if (v != m[q]) spoil("value", fmt("slot %d no longer holds what was put there (%zu vs %zu values, first %d vs %d) ", q, v.size(), m[q].size(), v.size() ? v[0] : 0, m[q].size() ? m[q][0] : 0)); }
    c.state(h);
  }
  if (!good) { tr::reg().c = nullptr; return; }
  tr::op("final destruction"); for (int i = 0; i < K; i++) if (live[i]) at(i).~T();
  tr::end(c);
}
template <class T> void run(Ctx& c) {
  Heap a = heap_now(); machine<T>(c); Heap b = heap_now();
  if (heap_supported() && (a.blocks != b.blocks)) VH_FAIL("leaked-memory", "%s: %lld heap block(s), %lld bytes not returned", nmc(__PRETTY_FUNCTION__).c_str(), (long long)(b.blocks - a.blocks), (long long)(b.bytes - a.bytes));
  c.event("heap_balances");
}
}  // namespace
#define ROT(...) static void (*const fs[])(Ctx&) = {__VA_ARGS__}; fs[c.rng.below(sizeof(fs) / sizeof(fs[0]))](c)
#if defined(PART_A)
VH_WORKLOAD(options, 4000, 100000) { ROT(run<best::option<Obj>>, run<best::option<Uniq>>, run<best::option<Rel>>, run<best::option<NoAssign>>, run<best::option<best::option<Obj>>>, run<best::option<RelUniq>>, run<best::option<Align>>, run<best::option<int>>); }
VH_WORKLOAD(option_niche, 4000, 100000) { ROT(run<best::option<best::box<Obj>>>, run<best::option<best::box<Uniq>>>, run<best::option<best::option<best::box<Obj>>>>, run<best::option<best::box<Obj[]>>>, run<best::option<best::vec<Obj>>>, run<best::option<DynBox>>); }
#elif defined(PART_B)
VH_WORKLOAD(choices, 5000, 120000) { ROT((run<best::choice<Obj, int, Uniq>>), (run<best::choice<Obj, Big, Rel>>), (run<best::choice<void, Obj>>), (run<best::choice<NoAssign, Obj>>), (run<best::choice<Obj, Obj>>), (run<best::choice<best::box<Obj>, void>>), (run<best::choice<best::vec<Obj>, best::box<Big>, int>>), (run<best::choice<Obj>>)); }
VH_WORKLOAD(results, 3000, 80000) { ROT((run<best::result<Obj, Big>>), (run<best::result<void, Obj>>), (run<best::result<Uniq, void>>), (run<best::result<best::box<Obj>, best::vec<Obj>>>), (run<best::result<Obj, Obj>>)); }
#elif defined(PART_C)
VH_WORKLOAD(rows, 3000, 80000) { ROT((run<best::row<Obj, int, Obj>>), (run<best::row<Uniq, Rel>>), (run<best::row<best::option<Obj>, best::vec<Obj>>>), (run<best::row<best::box<Obj>, Big, Rel>>), (run<best::row<Obj>>), (run<best::row<NoAssign, Obj>>)); }
VH_WORKLOAD(boxes, 3000, 80000) { ROT(run<best::box<Obj>>, run<best::box<Big>>, run<best::box<Obj[]>>, run<best::box<Align>>, run<DynBox>, run<best::box<best::box<Obj>>>, run<best::box<Uniq>>, run<best::box<Rel[]>>); }
#else
VH_WORKLOAD(vecs, 4000, 100000) { ROT((run<best::vec<best::option<Obj>>>), (run<best::vec<best::box<Obj>>>), (run<best::vec<best::choice<Obj, Uniq>>>), (run<best::vec<best::vec<Obj>>>), (run<best::vec<best::row<Obj, int>>>), (run<best::vec<best::option<best::box<Big>>>>), (run<best::vec<DynBox>>)); }
VH_WORKLOAD(texts, 2000, 50000) { ROT((run<best::textbuf<best::utf8>>), (run<best::textbuf<best::utf16>>), (run<best::vec<best::textbuf<best::utf8>>>), (run<best::option<best::textbuf<best::utf8>>>), (run<best::choice<best::textbuf<best::utf8>, Obj>>)); }
#endif
