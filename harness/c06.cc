// C06: sorting, binary search and in-place rearrangement of spans. Oracle: std::vector models; element identity tracked.
#include "vh.h"
#include "track.h"
#include "best/memory/span.h"
#include "best/memory/span_sort.h"
#include "best/container/vec.h"
#include <algorithm>
using namespace vh;

namespace {
struct Rec { i32 key; u32 id; bool operator==(const Rec& o) const { return key == o.key; } auto operator<=>(const Rec& o) const { return key <=> o.key; } };  // equal keys stay distinguishable
struct Str { std::string s; u32 id; bool operator==(const Str& o) const { return s == o.s; } std::strong_ordering operator<=>(const Str& o) const { int x = s.compare(o.s); return x <=> 0; } };
size_t size_of(Rng& r) { switch (r.below(8)) { case 0: return r.below(4); case 1: return 30 + r.below(40); case 2: return 100 + r.below(400); default: return r.below(26); } }
std::vector<Rec> recs(Rng& r) {
  size_t n = size_of(r); std::vector<Rec> v; u64 alpha = r.flip() ? 1 + r.below(6) : 1 + r.below(1000); int shape = (int)r.below(6);
  for (size_t i = 0; i < n; i++) { i32 k; switch (shape) { case 0: k = (i32)i; break; case 1: k = (i32)(n - i); break; case 2: k = (i32)(i * 2 < n ? i : n - i); break; case 3: k = r.edge<i32>(); break; default: k = (i32)r.below(alpha); } v.push_back({k, (u32)i}); }
  return v;
}
u64 hk(const std::vector<Rec>& v) { u64 h = v.size(); for (auto& x : v) h = hcomb(h, (u64)x.key); return h; }
template <class T> struct Exact { T* p; size_t n; explicit Exact(const std::vector<T>& v) : p((T*)malloc(v.size() * sizeof(T) + !v.size())), n(v.size()) { for (size_t i = 0; i < n; i++) new (p + i) T(v[i]); } ~Exact() { for (size_t i = 0; i < n; i++) p[i].~T(); free(p); } best::span<T> span() const { return best::span<T>(p, n); } };
template <class T> bool perm(const std::vector<T>& was, const Exact<T>& now) { std::vector<u8> seen(was.size()); for (size_t i = 0; i < now.n; i++) { if (now.p[i].id >= was.size() || seen[now.p[i].id]++) return false; if (!(now.p[i] == was[now.p[i].id])) return false; } return true; }
}  // namespace

VH_WORKLOAD(sort, 4000, 100000) {
  auto v = recs(c.rng); Exact<Rec> e(v); int how = (int)c.rng.below(9); std::string d = fmt("form %d, %zu elements", how, v.size()); c.eval(); c.state(hcomb(hk(v), how));
  auto neg = [](const Rec& r) { return -(i64)r.key; }; auto low = [](const Rec& r) { return (u32)r.key % 5; };
  auto by = [](const Rec& a, const Rec& b) -> best::ord { return b.key <=> a.key; };
  bool stable = how >= 3 && how < 7;
  switch (how) {
    case 0: e.span().sort(); break; case 1: e.span().sort(neg); break; case 2: e.span().sort(by); break;
    case 3: e.span().stable_sort(); break; case 4: e.span().stable_sort(neg); break; case 5: e.span().stable_sort(by); break; case 6: e.span().stable_sort(low); break;
    case 7: e.span().sort(&Rec::key); break; default: e.span().sort([](const Rec& r) -> const i32& { return r.key; }); break;
  }
  auto key = [&](const Rec& r) -> i64 { switch (how) { case 1: case 4: return neg(r); case 2: case 5: return -(i64)r.key; case 6: return low(r); default: return r.key; } };
  VH_CHECK(perm(v, e), "sort-permutation", "sorting lost, duplicated or changed elements: %s", d.c_str());
  for (size_t i = 1; i < e.n; i++) {
    VH_CHECK(key(e.p[i - 1]) <= key(e.p[i]), "sort-order", "elements %zu and %zu out of order: %s", i - 1, i, d.c_str());
    if (stable && key(e.p[i - 1]) == key(e.p[i])) VH_CHECK(e.p[i - 1].id < e.p[i].id, "sort-stability", "equal elements swapped by a stable sort: %s", d.c_str());
  }
  c.event(stable ? "stable_sorts" : "sorts");
}
VH_WORKLOAD(sort_part, 1500, 30000) {  // sorting a sub-span leaves the rest alone; partial-ordering comparator
  auto v = recs(c.rng); Exact<Rec> e(v); size_t a = c.rng.below(v.size() + 1), n = c.rng.below(v.size() - a + 1); c.eval(); c.event("sub_span_sorts"); c.state(hcomb(hk(v), a * 1000 + n));
  auto sub = e.span()[{.start = a, .count = n}];
  int how = (int)c.rng.below(3); if (how == 0) sub.sort(); else if (how == 1) sub.stable_sort([](const Rec& x, const Rec& y) -> best::partial_ord { return (double)x.key <=> (double)y.key; }); else sub.sort([](const Rec& x, const Rec& y) -> best::partial_ord { return x.key <=> y.key; });
  auto w = v; std::stable_sort(w.begin() + a, w.begin() + a + n, [](auto& x, auto& y) { return x.key < y.key; });
  VH_CHECK(perm(v, e), "sort-permutation", "sub-span sort is no permutation");
  for (size_t i = 0; i < v.size(); i++) { VH_CHECK(e.p[i].key == w[i].key, "sort-sub", "element %zu after sorting [%zu, +%zu) has key %d, expected %d", i, a, n, e.p[i].key, w[i].key); if (how == 1 || i < a || i >= a + n) VH_CHECK(e.p[i].id == w[i].id, "sort-sub", "element %zu identity after sorting [%zu,+%zu)", i, a, n); }
}
VH_WORKLOAD(sort_objects, 1200, 20000) {  // element types with lifetimes
  size_t n = size_of(c.rng) % 120; std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back((int)c.rng.below(30)); int how = (int)c.rng.below(4); c.eval(); c.state(hcomb(hbytes(v.data(), n * 4), how));
  tr::begin(c, "sort");
  { best::vec<tr::Obj> o; best::vec<tr::Uniq> u; for (int x : v) { o.push(x); u.push(x); }
    auto w = v; 
    if (how & 1) { o->sort(); u->sort(); std::sort(w.begin(), w.end()); } else { auto k = [](const auto& x) { return -x.get(); }; o->stable_sort(k); u->stable_sort(k); std::sort(w.begin(), w.end(), std::greater<int>()); }
    VH_CHECK(o.size() == n && u.size() == n, "sort-objects", "size changed by sorting");
    for (size_t i = 0; i < n; i++) VH_CHECK(o[i].get() == w[i] && u[i].get() == w[i], "sort-objects", "element %zu is %d/%d, expected %d", i, o[i].get(), u[i].get(), w[i]); }
  tr::end(c);
  std::vector<Str> s; for (size_t i = 0; i < n; i++) s.push_back({std::string(c.rng.below(3) * 12, 'x') + std::to_string(v[i]), (u32)i}); Exact<Str> e(s);
  if (how & 2) e.span().sort(); else e.span().stable_sort();
  VH_CHECK(perm(s, e), "sort-permutation", "string sort is no permutation"); for (size_t i = 1; i < n; i++) { VH_CHECK(e.p[i - 1].s <= e.p[i].s, "sort-order", "strings out of order"); if (!(how & 2) && e.p[i - 1].s == e.p[i].s) VH_CHECK(e.p[i - 1].id < e.p[i].id, "sort-stability", "equal strings swapped"); }
}
VH_WORKLOAD(bisect, 4000, 100000) {
  auto v = recs(c.rng); bool dup = c.rng.flip(); std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.key < b.key; });
  if (!dup) v.erase(std::unique(v.begin(), v.end(), [](auto& a, auto& b) { return a.key == b.key; }), v.end());
  Exact<Rec> e(v); best::span<const Rec> s(e.p, e.n); c.event("bisections");
  for (int k = 0; k < 6; k++) {
    i32 q = v.empty() || c.rng.chance(1, 6) ? c.rng.edge<i32>() : v[c.rng.below(v.size())].key; if (c.rng.chance(1, 3) && q != INT32_MAX) q += 1; c.eval(3); c.state(hcomb(hk(v), (u64)q));
    size_t lo = std::lower_bound(v.begin(), v.end(), q, [](auto& a, i32 b) { return a.key < b; }) - v.begin(); bool has = lo < v.size() && v[lo].key == q;
    auto chk = [&](best::result<size_t, size_t> r, const char* w) {
      size_t at = 0; bool ok = r.is_ok(); if (ok) at = *r.ok(); else at = *r.err();
      VH_CHECK(ok == has, "bisect-found", "%s: found=%d, expected %d for %d in %zu elements", w, ok, has, q, v.size());
      if (ok) VH_CHECK(at < v.size() && v[at].key == q, "bisect-position", "%s: index %zu does not match", w, at); else VH_CHECK(at == lo, "bisect-insertion", "%s: insertion point %zu, expected %zu", w, at, lo);
    };
    size_t calls = 0;
    chk(s.bisect(Rec{q, 0}), "value"); chk(s.bisect(q, [](const Rec& r) { return r.key; }), "key"); chk(s.bisect(q, &Rec::key), "member key");
    chk(s.bisect([&](const Rec& r) -> best::ord { calls++; return r.key <=> q; }), "comparator"); chk(s.bisect([&](const Rec& r) -> best::partial_ord { return (double)r.key <=> (double)q; }), "partial comparator");
    VH_CHECK(calls <= 64 - (v.empty() ? 64 : __builtin_clzll(v.size())) + 1, "bisect-cost", "%zu comparisons for %zu elements", calls, v.size());
  }
}
VH_WORKLOAD(rearrange, 5000, 100000) {  // swap, reverse, copy_from, emplace_from, on tracked objects in an exact-size block
  size_t n = c.rng.len(24); c.eval(); tr::begin(c, "rearrange");
  std::vector<int> m; for (size_t i = 0; i < n; i++) m.push_back((int)i * 3 + 1);
  { tr::Obj* p = (tr::Obj*)malloc(n * sizeof(tr::Obj) + !n); for (size_t i = 0; i < n; i++) new (p + i) tr::Obj(m[i]); best::span<tr::Obj> s(p, n); u64 h = n;
    for (int k = 0; k < 6; k++) {
      int op = (int)c.rng.below(5); h = hcomb(h, op);
      if (op == 0) { tr::op("reverse"); size_t a = c.rng.below(n + 1), l = c.rng.below(n - a + 1); h = hcomb(h, a * 64 + l); s[{.start = a, .count = l}].reverse(); std::reverse(m.begin() + a, m.begin() + a + l); c.event("reversals"); }
      else if (op == 1 && n) { tr::op("swap"); size_t a = c.rng.below(n), b = c.rng.below(n); h = hcomb(h, a * 64 + b); s.swap(a, b); std::swap(m[a], m[b]); c.event("swaps"); }
      else if (op == 2) { tr::op("copy_from"); size_t l = c.rng.below(n + 4), a = c.rng.below(n + 1); h = hcomb(h, a * 64 + l); std::vector<tr::Obj> src; src.reserve(l); for (size_t i = 0; i < l; i++) src.emplace_back((int)(1000 + i)); s[{.start = a}].copy_from(best::span<const tr::Obj>(src.data(), l)); for (size_t i = 0; i < l && a + i < n; i++) m[a + i] = 1000 + i; c.event("copies"); for (size_t i = 0; i < l; i++) VH_CHECK(src[i].get() == (int)(1000 + i), "copy_from-source", "source changed"); }
      else if (op == 3) { tr::op("emplace_from"); size_t a = c.rng.below(n + 1), l = c.rng.below(n - a + 1); h = hcomb(h, a * 64 + l); auto sub = s[{.start = a, .count = l}]; sub.destroy(); std::vector<tr::Obj> src; src.reserve(l + 2); for (size_t i = 0; i < l + 2; i++) src.emplace_back((int)(2000 + i)); sub.emplace_from(best::span<const tr::Obj>(src.data(), l + (c.rng.flip() ? 2 : 0))); for (size_t i = 0; i < l; i++) m[a + i] = 2000 + i; c.event("emplacements"); }
      else { tr::op("swap out of range"); if (c.rng.chance(1, 10)) { VH_MUST_CRASH("swap-out-of-range", fmt("swap(%zu, 0) of %zu", n, n), s.swap(n, 0)); c.event("death_children"); } }
      for (size_t i = 0; i < n; i++) VH_CHECK(p[i].get() == m[i], "rearrange", "element %zu is %d, expected %d (%s)", i, p[i].get(), m[i], tr::reg().what);
    }
    c.state(h); tr::op("destroy"); s.destroy(); free(p); }
  tr::end(c);
}
template <class T> static void shift(Ctx& c) {
  size_t n = c.rng.len(20), cnt = c.rng.below(n + 1), src = c.rng.below(n - cnt + 1), dst = c.rng.below(n - cnt + 1); c.eval(); c.event("shifts"); c.state(hcomb(hcomb(n, cnt), hcomb(src * 64 + dst, sizeof(T))));
  if (src < dst ? src + cnt > dst : dst + cnt > src) c.event(src < dst ? "overlapping_forward" : "overlapping_backward");
  tr::begin(c, "shift_within");
  { // Only the source range is initialised; everything else (outside too) is raw memory.
    size_t pre = 1 + c.rng.below(3); T* blk = (T*)aligned_alloc(alignof(T) < 16 ? 16 : alignof(T), (((n + 2 * pre) * sizeof(T)) + 63) / 64 * 64); memset((void*)blk, 0x77, (n + 2 * pre) * sizeof(T)); T* p = blk + pre;
    for (size_t i = 0; i < cnt; i++) new (p + src + i) T((int)(500 + i));
    best::span<T>(p, n).shift_within(best::unsafe("test"), dst, src, cnt);
    for (size_t i = 0; i < cnt; i++) { int g; if constexpr (requires { p->get(); }) g = p[dst + i].get(); else g = (int)p[dst + i]; VH_CHECK(g == (int)(500 + i) || (sizeof(T) == 1 && (u8)g == (u8)(500 + i)), "shift", "shift_within(%zu <- %zu, %zu) of %zu: element %zu is %d", dst, src, cnt, n, i, g); }
    for (size_t i = 0; i < pre * sizeof(T); i++) VH_CHECK(((u8*)blk)[i] == 0x77 && ((u8*)(p + n))[i] == 0x77, "shift-outside", "shift_within wrote outside the span");
    for (size_t i = 0; i < n; i++) if ((i < src || i >= src + cnt) && (i < dst || i >= dst + cnt)) for (size_t k = 0; k < sizeof(T); k++) VH_CHECK(((u8*)(p + i))[k] == 0x77, "shift-outside", "shift_within wrote to element %zu, which is neither source nor destination", i);
    if (tr::reg().live != cnt && requires { p->get(); }) VH_FAIL("shift-lifetimes", "%zu live objects after shifting %zu", (size_t)tr::live(), cnt);
    tr::op("destroy"); best::span<T>(p + dst, cnt).destroy(); free(blk); }
  tr::end(c);
}
VH_WORKLOAD(shift_within, 4000, 80000) { switch (c.rng.below(6)) { case 0: shift<tr::Obj>(c); break; case 1: shift<tr::Uniq>(c); break; case 2: shift<tr::Rel>(c); break; case 3: shift<u8>(c); break; case 4: shift<i64>(c); break; default: shift<tr::Align>(c); } }
// Every small (size, count, src, dst).
VH_WORKLOAD(shift_grid, 9, 9) {
  size_t n = c.idx; for (size_t cnt = 0; cnt <= n; cnt++) for (size_t src = 0; src + cnt <= n; src++) for (size_t dst = 0; dst + cnt <= n; dst++) {
    c.eval(); c.state(hcomb(hcomb(n, cnt), src * 64 + dst + 7777)); tr::begin(c, "shift_within grid");
    { tr::Obj* p = (tr::Obj*)malloc(n * sizeof(tr::Obj) + 1); for (size_t i = 0; i < cnt; i++) new (p + src + i) tr::Obj((int)i); best::span<tr::Obj>(p, n).shift_within(best::unsafe("test"), dst, src, cnt);
      for (size_t i = 0; i < cnt; i++) VH_CHECK(p[dst + i].get() == (int)i, "shift", "shift_within(%zu <- %zu, %zu): element %zu", dst, src, cnt, i); best::span<tr::Obj>(p + dst, cnt).destroy(); free(p); }
    tr::end(c);
  }
}
