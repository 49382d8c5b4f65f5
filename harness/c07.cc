// C07: histories of operations on several growable arrays against std::vector models, for many element types, inline
// capacities and (monitored, stateful) allocators.
#include "vh.h"
#include "track.h"
#include "monalloc.h"
#include "best/container/vec.h"
#include "best/container/box.h"
#include "best/iter/iter.h"
#include <algorithm>
using namespace vh;

namespace {
struct P3 { u8 a, b, c; bool operator==(const P3&) const = default; };
struct Wide { i64 a, b; bool operator==(const Wide&) const = default; };
struct Heapy { std::unique_ptr<std::string> s; Heapy(int v) : s(new std::string(std::to_string(v) + "-----------------------")) {} Heapy(Heapy&&) = default; Heapy& operator=(Heapy&&) = default; Heapy(const Heapy& o) : s(o.s ? new std::string(*o.s) : nullptr) {} Heapy& operator=(const Heapy& o) { s.reset(o.s ? new std::string(*o.s) : nullptr); return *this; } bool operator==(const Heapy& o) const { return *s == *o.s; } };
using Nested = best::vec<int>;
template <class T> T mk(int x) {
  if constexpr (std::is_same_v<T, P3>) return {(u8)x, (u8)(x >> 8), (u8)~x}; else if constexpr (std::is_same_v<T, Wide>) return {x, ~x};
  else if constexpr (std::is_same_v<T, Nested>) { Nested n; for (int i = 0; i <= x % 9; i++) n.push(x + i); return n; }
  else if constexpr (std::is_same_v<T, const char*>) return (const char*)(uintptr_t)x; else return T(x);
}
template <class T> bool is(const T& t, int x) {
  if constexpr (requires { t.get(); }) return t.get() == x; else if constexpr (std::is_same_v<T, Nested>) { if (t.size() != (size_t)(x % 9 + 1)) return false; for (int i = 0; i <= x % 9; i++) if (t[i] != x + i) return false; return true; }
  else return t == mk<T>(x);
}
template <class T> std::string nm() { std::string s = __PRETTY_FUNCTION__; auto p = s.find("T = "); return s.substr(p + 4, s.find_first_of(";]", p) - p - 4); }
template <class A> A mka(Rng& r) { if constexpr (std::is_same_v<A, ma::Mon>) return ma::Mon{(int)r.below(2)}; else return A{}; }

struct FakeIter {};

template <class T, size_t N, class A> struct Test {
  using V = best::vec<T, N, A>; static constexpr bool copyable = best::copyable<T> && !std::is_same_v<T, tr::Uniq>;
  Ctx& c; static constexpr int K = 3; alignas(V) char mem[K][sizeof(V)]; std::vector<int> m[K]; std::string trace; int next = 1; u64 h = 0;
  V& v(int i) { return *(V*)mem[i]; }
  std::string id() { return fmt("vec<%s, %zu>: %s", nm<T>().c_str(), N, trace.c_str()); }
  bool check(int i) {
    V& x = v(i); const V& cx = x; auto& w = m[i]; bool ok = true; auto bad = [&](const char* key, const std::string& s) { if (ok) VH_FAIL(key, "%s; array %d: %s", id().c_str(), i, s.c_str()); ok = false; };
    if (x.size() != w.size()) { bad("size", fmt("size %zu, expected %zu", x.size(), w.size())); return false; }
    if (x.is_empty() != w.empty()) bad("empty", fmt("is_empty %d at size %zu", x.is_empty(), w.size()));
    if (x.capacity() < w.size()) bad("capacity", fmt("capacity %zu below size %zu", x.capacity(), w.size()));
    if (x.is_inlined() == x.is_on_heap()) bad("mode", "inlined and on heap at once");
    if (x.is_inlined() && (x.capacity() != N || (w.size() && ((char*)x.data().raw() < (char*)&x || (char*)(x.data().raw() + w.size()) > (char*)(&x + 1))))) bad("inline", "inlined elements not inside the array object");
    if (x.capacity() && (uintptr_t)x.data().raw() % alignof(T)) bad("align", "elements misaligned");
    auto s = x.as_span(); if (s.size() != w.size() || (w.size() && s.data().raw() != x.data().raw()) || cx.as_span().size() != w.size() || cx.data().raw() != x.data().raw()) { bad("span", "span does not cover the elements"); return false; }
    auto sp = x.spare_capacity(); if (sp.size() != x.capacity() - w.size() || sp.data().raw() != x.data().raw() + w.size()) bad("spare", "spare capacity");
    for (size_t j = 0; j < w.size(); j++) if (!is<T>(x.data().raw()[j], w[j])) { bad("content", fmt("element %zu of %zu is not %d", j, w.size(), w[j])); return false; }
    size_t j = 0; for (auto& e : cx) { if (j >= w.size() || &e != cx.data().raw() + j) { bad("iteration", fmt("iteration step %zu", j)); break; } j++; } if (j != w.size()) bad("iteration", fmt("iteration yields %zu elements", j));
    auto f = x.first(), l = x.last(); if (f.has_value() == w.empty() || l.has_value() == w.empty()) bad("ends", "first/last");
    if (!w.empty()) { if (!is<T>(*f, w.front()) || !is<T>(*l, w.back())) bad("ends", "first/last value"); size_t k = c.rng.below(w.size()); if (!is<T>(x[k], w[k]) || !is<T>(*x.at(k), w[k]) || !is<T>(cx[k], w[k])) bad("index", "indexing"); }
    if (x.at(w.size()).has_value()) bad("index", "at(size) is present");
    if (!ok) return false; c.eval(); return true;
  }
  V* fresh(int i) { m[i].clear(); return new (mem[i]) V(mka<A>(c.rng)); }
  int val() { return std::is_same_v<T, bool> ? (int)c.rng.below(2) : std::is_same_v<T, u8> || std::is_same_v<T, char> ? (int)c.rng.below(100) : next++; }
  std::vector<T> batch(size_t n, std::vector<int>& vals) { std::vector<T> b; if constexpr (!std::is_same_v<T, bool>) { b.reserve(n); for (size_t k = 0; k < n; k++) { vals.push_back(val()); b.push_back(mk<T>(vals.back())); } } return b; }
  // A vector of another type (inline capacity, allocator) as the source of an operation.
  template <class F> void other(size_t cnt, std::vector<int>& vals, F f) {
    auto with = [&]<size_t M>(std::integral_constant<size_t, M>) { best::vec<T, M> o; for (size_t k = 0; k < cnt; k++) { vals.push_back(val()); o.push(mk<T>(vals.back())); } if (c.rng.chance(1, 3)) o.spill_to_heap(cnt + 3); f(o); if (o.size() != cnt) VH_FAIL("source-changed", "%s: the source changed size", id().c_str()); for (size_t k = 0; k < cnt && k < o.size(); k++) if (!is<T>(o[k], vals[k])) { VH_FAIL("source-changed", "%s: element %zu of the source changed", id().c_str(), k); break; } c.event("other_vector_types"); };
    switch (c.rng.below(3)) { case 0: with(std::integral_constant<size_t, 0>{}); break; case 1: with(std::integral_constant<size_t, 2>{}); break; default: with(std::integral_constant<size_t, N + 40>{}); break; }
  }
  size_t small() { return c.rng.chance(1, 6) ? c.rng.below(40) : c.rng.below(6); }
  void run() {
    tr::begin(c, "history"); ma::begin(c); h = hcomb(hstr(nm<T>()), N * 8 + sizeof(A));
    for (int i = 0; i < K; i++) fresh(i);
    int steps = 4 + (int)c.rng.below(40); bool good = true;
    for (int k = 0; k < steps && good; k++) {
      int i = (int)c.rng.below(K), j = (int)c.rng.below(K), op = (int)c.rng.below(26); V &x = v(i), &y = v(j); auto &w = m[i], &z = m[j]; size_t n = w.size();
      auto T_ = [&](const std::string& s) { trace += s + " "; h = hcomb(h, hstr(s)); tr::op(trace.c_str()); };
      if (n > 600 && op < 8) op = 9;
      switch (op) {
        case 0: case 1: { T_(fmt("push(%d)", i)); size_t cap = x.capacity(); int a = val(); auto& r = x.push(mk<T>(a)); w.push_back(a); if (&r != x.data().raw() + n) VH_FAIL("push-ref", "%s: push returned a reference elsewhere", id().c_str()); if (n < cap && x.capacity() != cap) VH_FAIL("push-grew", "%s: capacity changed from %zu though not full", id().c_str(), cap); c.event("pushes"); break; }
        case 2: { size_t p = c.rng.below(n + 1); T_(fmt("insert(%d,%zu)", i, p)); int a = val(); auto& r = x.insert(p, mk<T>(a)); w.insert(w.begin() + p, a); if (&r != x.data().raw() + p) VH_FAIL("insert-ref", "%s: insert returned a reference elsewhere", id().c_str()); c.event("inserts"); break; }
        case 3: { size_t p = c.rng.below(n + 1); size_t cnt = small(); T_(fmt("splice(%d,%zu,+%zu)", i, p, cnt)); if constexpr (copyable) { std::vector<int> vals; if constexpr (std::is_same_v<T, bool>) { bool b[40]; for (size_t q = 0; q < cnt; q++) { vals.push_back(val()); b[q] = vals.back(); } x.splice(p, best::span<const bool>(b, cnt)); } else if (c.rng.chance(1, 3)) other(cnt, vals, [&](auto& o) { if (p == n) x.append(o); else x.splice(p, o); }); else { auto b = batch(cnt, vals); x.splice(p, best::span<const T>(b.data(), cnt)); } w.insert(w.begin() + p, vals.begin(), vals.end()); c.event("splices"); } break; }
        case 4: { size_t p = c.rng.below(n + 1), a = c.rng.below(n + 1), cnt = c.rng.below(n - a + 1); T_(fmt("splice_self(%d,%zu,[%zu+%zu])", i, p, a, cnt)); if constexpr (copyable) { if (cnt && n < 300) { std::vector<int> vals(w.begin() + a, w.begin() + a + cnt); x.splice(p, x[{.start = a, .count = cnt}]); w.insert(w.begin() + p, vals.begin(), vals.end()); c.event("self_splices"); } } break; }
        case 5: { T_(fmt("append(%d,%d)", i, j)); if constexpr (copyable) { if (n + z.size() < 600) { auto vals = z; x.append(y); w.insert(w.end(), vals.begin(), vals.end()); c.event("appends"); } } break; }
        case 6: { size_t cnt = small(); T_(fmt("reserve(%d,%zu)", i, cnt)); x.reserve(cnt); if (x.capacity() < n + cnt) VH_FAIL("reserve", "%s: capacity %zu after reserving %zu more than %zu", id().c_str(), x.capacity(), cnt, n); auto d = x.data().raw(); for (size_t q = 0; q < cnt; q++) { int a = val(); x.push(mk<T>(a)); w.push_back(a); } if (x.data().raw() != d) VH_FAIL("reserve-moved", "%s: pushing reserved elements reallocated", id().c_str()); c.event("reserves"); break; }
        case 7: { size_t cnt = small(); T_(fmt("insert_uninit(%d)", i)); size_t p = c.rng.below(n + 1); auto q = x.insert_uninit(best::unsafe("test"), p, cnt); if (q.raw() != x.data().raw() + p) VH_FAIL("insert_uninit", "%s: wrong slot", id().c_str()); std::vector<int> vals; for (size_t e = 0; e < cnt; e++) { int a = val(); vals.push_back(a); new (q.raw() + e) T(mk<T>(a)); } w.insert(w.begin() + p, vals.begin(), vals.end()); c.event("raw_inserts"); break; }
        case 8: { size_t a = c.rng.below(n + 1), cnt = c.rng.below(n - a + 1); if (c.rng.flip()) cnt = std::min<size_t>(cnt, 3); T_(fmt("erase(%d,[%zu+%zu])", i, a, cnt)); size_t cap = x.capacity(); x.erase({.start = a, .count = cnt}); w.erase(w.begin() + a, w.begin() + a + cnt); if (x.capacity() != cap) VH_FAIL("erase-cap", "%s: erase changed the capacity", id().c_str()); c.event("erases"); break; }
        case 9: { size_t a = c.rng.below(n + 1); T_(fmt("erase_tail(%d,%zu)", i, a)); x.erase({.start = a}); w.resize(a); c.event("erases"); break; }
        case 10: if (n) { size_t p = c.rng.below(n); T_(fmt("remove(%d,%zu)", i, p)); T t = x.remove(p); if (!is<T>(t, w[p])) VH_FAIL("remove", "%s: removed value is not %d", id().c_str(), w[p]); w.erase(w.begin() + p); c.event("removes"); } break;
        case 11: case 12: { T_(fmt("pop(%d)", i)); auto t = x.pop(); if (t.has_value() == w.empty() || (n && !is<T>(*t, w.back()))) VH_FAIL("pop", "%s: popped value", id().c_str()); if (n) w.pop_back(); c.event("pops"); break; }
        case 13: { size_t a = c.rng.below(n + 3); T_(fmt("truncate(%d,%zu)", i, a)); size_t cap = x.capacity(); x.truncate(a); if (a < n) w.resize(a); if (x.capacity() != cap) VH_FAIL("truncate-cap", "%s: truncate changed the capacity", id().c_str()); c.event("truncates"); break; }
        case 14: { T_(fmt("clear(%d)", i)); size_t cap = x.capacity(); x.clear(); w.clear(); if (x.capacity() != cap) VH_FAIL("clear-cap", "%s: clear changed the capacity", id().c_str()); c.event("clears"); break; }
        case 15: { T_(fmt("shrink(%d)", i)); x.shrink_to_fit(); if (x.capacity() != n && !x.is_inlined()) VH_FAIL("shrink", "%s: capacity %zu at size %zu after shrink_to_fit", id().c_str(), x.capacity(), n); c.event("shrinks"); break; }
        case 16: { T_(fmt("spill(%d)", i)); int how = (int)c.rng.below(3); size_t hint = n + c.rng.below(40), cap = x.capacity(); if (how == 0) x.spill_to_heap(); else if (how == 1) x.spill_to_heap(hint); else { x.spill_to_heap(hint, true); } if (how && (x.capacity() < hint || x.is_inlined()) && hint) VH_FAIL("spill", "%s: spill_to_heap(%zu) left capacity %zu (was %zu), inlined %d", id().c_str(), hint, x.capacity(), cap, x.is_inlined()); if (how == 2 && hint && x.capacity() != hint) VH_FAIL("spill-exact", "%s: exact capacity %zu became %zu", id().c_str(), hint, x.capacity()); if (n && x.is_inlined()) VH_FAIL("spill-mode", "%s: still inlined", id().c_str()); c.event("spills"); break; }
        case 17: { T_(fmt("copy_assign(%d=%d)", i, j)); if constexpr (copyable) { x = y; w = z; c.event("copy_assigns"); } break; }
        case 18: { T_(fmt("move_assign(%d=%d)", i, j)); auto t = z; x = std::move(y); if (i != j) { z.clear(); } w = t; if (i != j) { if (!y.is_empty() || !y.is_inlined()) VH_FAIL("moved-from", "%s: moved-from array still holds elements", id().c_str()); } c.event("move_assigns"); break; }
        case 19: if (i != j) { T_(fmt("copy_construct(%d=%d)", i, j)); if constexpr (copyable) { x.~V(); new (mem[i]) V(std::as_const(y)); w = z; c.event("copy_constructs"); } } break;
        case 20: if (i != j) { T_(fmt("move_construct(%d=%d)", i, j)); x.~V(); new (mem[i]) V(std::move(y)); w = z; z.clear(); if (!y.is_empty() || !y.is_inlined()) VH_FAIL("moved-from", "%s: moved-from array still holds elements", id().c_str()); c.event("move_constructs"); } break;
        case 21: if (i != j) { T_(fmt("swap(%d,%d)", i, j)); std::swap(x, y); std::swap(w, z); c.event("swaps"); } break;
        case 22: { T_(fmt("to_box(%d)", i)); { auto b = std::move(x).to_box(); if (!x.is_empty() || (n && !x.is_inlined())) VH_FAIL("to_box-source", "%s: source not empty after to_box", id().c_str()); if (b->size() != n) VH_FAIL("to_box-size", "%s: box of %zu elements", id().c_str(), b->size()); else for (size_t q = 0; q < n; q++) if (!is<T>(b->data().raw()[q], w[q])) { VH_FAIL("to_box-content", "%s: element %zu of the box", id().c_str(), q); break; }
            if (c.rng.flip()) { auto b2 = std::move(b); x.~V(); new (mem[i]) V(std::move(b2)); if (n && x.capacity() != n) VH_FAIL("from_box-capacity", "%s: capacity %zu from a box of %zu", id().c_str(), x.capacity(), n); c.event("from_boxes"); } else w.clear(); } c.event("to_boxes"); break; }
        case 23: { size_t cnt = small(); T_(fmt("assign(%d,+%zu)", i, cnt)); if constexpr (copyable && !std::is_same_v<T, bool>) { std::vector<int> vals; switch (c.rng.below(3)) { case 0: { auto b = batch(cnt, vals); x.assign(best::span<const T>(b.data(), cnt)); break; } case 1: { auto b = batch(cnt, vals); x.assign(b); break; } default: other(cnt, vals, [&](auto& o) { x.assign(o); }); break; } w = vals; c.event("assigns"); } break; }
        case 24: { size_t cnt = small(); T_(fmt("construct_range(%d,+%zu)", i, cnt)); if constexpr (copyable && !std::is_same_v<T, bool>) { std::vector<int> vals; auto b = batch(cnt, vals); x.~V(); A al = mka<A>(c.rng); switch (c.rng.below(3)) { case 0: new (mem[i]) V(al, best::span<const T>(b.data(), cnt)); break; case 1: new (mem[i]) V(al, b); break; default: new (mem[i]) V(al, best::span<const T>(b.data(), cnt).iter().map([](const T& t) { return T(t); })); } w = vals; c.event("range_constructs"); } break; }
        default: { size_t nn = small(); T_(fmt("resize_uninit(%d,%zu)", i, nn)); x.resize_uninit(nn); if (nn < n) w.resize(nn); if (x.capacity() < nn) VH_FAIL("resize_uninit", "%s: capacity %zu", id().c_str(), x.capacity()); std::vector<int> vals; if (nn > w.size()) { for (size_t q = w.size(); q < nn; q++) { int a = val(); w.push_back(a); new (x.data().raw() + q) T(mk<T>(a)); } x.set_size(best::unsafe("test"), nn); } c.event("resizes"); break; }
      }
      c.state(h);
      for (int q = 0; q < K; q++) if (!check(q)) { good = false; break; }
      if (good && c.rng.chance(1, 3)) { if constexpr (requires { v(0) == v(1); }) { bool e = m[i] == m[j]; if ((v(i) == v(j)) != e) VH_FAIL("equality", "%s: arrays %d and %d compare %s", id().c_str(), i, j, e ? "unequal" : "equal"); c.event("comparisons"); } }
    }
    if (v(0).is_inlined()) c.event("ended_inline"); else c.event("ended_on_heap");
    if (good) for (int i = 0; i < K; i++) v(i).~V();
    if (good) { tr::end(c); ma::end(c); } else { tr::reg().c = nullptr; ma::st().c = nullptr; }
    if (c.rng.chance(1, 400)) c.sample(id());
  }
};
template <class T, size_t N, class A> void go(Ctx& c) { auto t = std::make_unique<Test<T, N, A>>(c); t->run(); }
template <class T> constexpr size_t D = best::vec_inline_default<T>();
}  // namespace
#ifdef PART_A
VH_WORKLOAD(trivial, 6000, 200000) {
  using namespace ma;
  switch (c.rng.below(14)) {
    case 0: go<int, D<int>, best::malloc>(c); break; case 1: go<int, D<int>, Mon>(c); break; case 2: go<int, 0, Mon>(c); break; case 3: go<int, 200, Mon>(c); break; case 4: go<u8, D<u8>, Mon0>(c); break; case 5: go<u8, 127, Mon>(c); break;
    case 6: go<u8, 128, Mon0>(c); break; case 7: go<u8, 255, Mon0>(c); break; case 8: go<u8, 256, Mon>(c); break; case 9: go<P3, 7, Mon>(c); break; case 10: go<P3, D<P3>, Mon0>(c); break; case 11: go<Wide, 1, Mon>(c); break; case 12: go<bool, D<bool>, Mon>(c); break; default: go<i64, D<i64>, Mon0>(c); break;
  }
}
VH_WORKLOAD(reservations, 400, 4000) {  // impossible sizes must crash, not wrap
  best::vec<u32> v; for (size_t i = 0, n = c.rng.below(20); i < n; i++) v.push(i); size_t n = v.size();
  size_t k = SIZE_MAX - c.rng.below(n + 3); if (c.rng.flip()) k = (SIZE_MAX >> (1 + c.rng.below(3))) + c.rng.below(5); c.state(hcomb(n, k)); c.eval();
  VH_MUST_CRASH("reserve-overflow", fmt("reserve(%zu) at size %zu", k, n), v.reserve(k)); c.event("death_children");
  if (c.idx % 4 == 0) VH_MUST_CRASH("set_size-capacity", "set_size above the capacity", v.set_size(best::unsafe("x"), v.capacity() + 1 + c.rng.below(3)));
  if (c.idx % 4 == 1) VH_MUST_CRASH("insert-range", "insert past the end", v.insert(n + 1 + c.rng.below(3), 1u));
  if (c.idx % 4 == 2) VH_MUST_CRASH("erase-range", "erase past the end", v.erase({.start = c.rng.below(n + 1), .count = n + 1}));
  if (c.idx % 4 == 3) VH_MUST_CRASH("remove-range", "remove past the end", v.remove(n + c.rng.below(2)));
}
VH_WORKLOAD(init_lists, 60, 200) {
  best::vec<int> a{1, 2, 3}; best::vec b{4, 5}; best::vec<int, 1> d{7, 8, 9, 10}; best::vec<u8> e{}; best::vec<int> f(best::span<const int>{1, 2}); c.eval(5); c.state(c.idx % 2);
  VH_CHECK(a.size() == 3 && a[0] == 1 && a[2] == 3 && b.size() == 2 && b[1] == 5 && d.size() == 4 && d[3] == 10 && e.is_empty() && f.size() == 2 && f[1] == 2, "init-list", "initializer lists"); c.event("init_lists");
  std::vector<int> s; for (size_t i = 0, n = c.rng.below(30); i < n; i++) s.push_back((int)c.rng.below(100)); best::vec g(best::span<const int>(s.data(), s.size()).iter().map([](const int& i) { return i; })); VH_CHECK(g.size() == s.size(), "from-iter", "size"); for (size_t i = 0; i < s.size() && i < g.size(); i++) VH_CHECK(g[i] == s[i], "from-iter", "element %zu", i);
  auto col = best::span<const int>(s.data(), s.size()).iter().map([](const int& i) { return i; }).to_vec(); VH_CHECK(col.size() == s.size() && std::equal(s.begin(), s.end(), col.data().raw()), "to_vec", "to_vec"); c.state(hbytes(s.data(), s.size() * 4));
}
#elif defined(PART_B)
VH_WORKLOAD(objects, 4000, 120000) {
  using namespace ma;
  switch (c.rng.below(7)) { case 0: go<tr::Obj, D<tr::Obj>, Mon>(c); break; case 1: go<tr::Obj, 3, Mon>(c); break; case 2: go<tr::Obj, 0, Mon>(c); break; case 3: go<tr::Obj, 140, Mon0>(c); break; case 4: go<tr::Big, D<tr::Big>, Mon>(c); break; case 5: go<tr::Uniq, 2, Mon>(c); break; default: go<tr::Uniq, D<tr::Uniq>, Mon0>(c); break; }
}
#else
VH_WORKLOAD(objects2, 4000, 120000) {
  using namespace ma;
  switch (c.rng.below(7)) { case 0: go<tr::Rel, D<tr::Rel>, Mon>(c); break; case 1: go<tr::Rel, 5, Mon>(c); break; case 2: go<tr::Align, 2, Mon>(c); break; case 3: go<tr::Align, 0, Mon>(c); break; case 4: go<Heapy, D<Heapy>, Mon>(c); break; case 5: go<Heapy, 4, Mon>(c); break; default: go<Nested, 2, Mon>(c); break; }
}
#endif
