// C23: iterators and adaptors against lazy list models, with the callbacks' order recorded on both sides.
#include <memory>
#include <optional>
#include <deque>
#include "vh.h"
#include "track.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/container/vec.h"
#include "best/container/row.h"
#include "best/memory/span.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#ifdef PART_A
#define PARTNS pa
#elif defined PART_B
#define PARTNS pb
#elif defined PART_C
#define PARTNS pc
#else
#define PARTNS pd
#endif
namespace PARTNS {
using namespace vh;
using Log = std::vector<i64>;
struct M {  // the model of an iterator: lazy, with the same callbacks
  virtual ~M() = default;
  virtual std::optional<i64> next(Log& l) = 0; virtual std::optional<i64> back(Log& l) = 0;
  virtual std::unique_ptr<M> clone() const = 0;
  size_t left() const { auto m = clone(); Log l; size_t n = 0; while (m->next(l)) n++; return n; }
};
using MP = std::unique_ptr<M>;
struct Src : M { std::deque<i64> v; Src(std::deque<i64> v) : v(std::move(v)) {} std::optional<i64> next(Log&) override { if (v.empty()) return {}; i64 x = v.front(); v.pop_front(); return x; } std::optional<i64> back(Log&) override { if (v.empty()) return {}; i64 x = v.back(); v.pop_back(); return x; } MP clone() const override { return std::make_unique<Src>(v); } };
template <class F> struct Map : M { MP in; F f; Map(MP in, F f) : in(std::move(in)), f(f) {} std::optional<i64> next(Log& l) override { auto x = in->next(l); if (x) return f(*x, l); return {}; } std::optional<i64> back(Log& l) override { auto x = in->back(l); if (x) return f(*x, l); return {}; } MP clone() const override { return std::make_unique<Map>(in->clone(), f); } };
template <class F> MP map(MP in, F f) { return std::make_unique<Map<F>>(std::move(in), f); }
struct Enum : M { MP in; i64 i = 0; Enum(MP in, i64 i) : in(std::move(in)), i(i) {} std::optional<i64> next(Log& l) override { auto x = in->next(l); if (x) return *x * 7 + i++ * 1000003; return {}; } std::optional<i64> back(Log&) override { abort(); } MP clone() const override { return std::make_unique<Enum>(in->clone(), i); } };
struct Take : M { MP in; size_t n; Take(MP in, size_t n) : in(std::move(in)), n(n) {} std::optional<i64> next(Log& l) override { if (!n) return {}; n--; return in->next(l); } std::optional<i64> back(Log&) override { abort(); } MP clone() const override { return std::make_unique<Take>(in->clone(), n); } };
struct Rev : M { MP in; Rev(MP in) : in(std::move(in)) {} std::optional<i64> next(Log& l) override { return in->back(l); } std::optional<i64> back(Log& l) override { return in->next(l); } MP clone() const override { return std::make_unique<Rev>(in->clone()); } };
static i64 wr(i64 a, i64 b, i64 k) { return (i64)((u64)a * (u64)b + (u64)k); }

// Steps the iterator and its model together, then finishes in one of several ways.
template <class It> void drive(Ctx& c, const std::string& id, It it, MP m, Log& log) {
  static constexpr bool dbl = It::double_ended;
  Log want; log.clear(); std::string how = id; auto& g = c.rng;
  auto val = [](auto&& o) -> std::optional<i64> { if (!o.has_value()) return {}; return (i64)*std::move(o); };
  auto str = [](const std::optional<i64>& o) { return o ? vh::fmt("%lld", (long long)*o) : std::string("none"); };
  auto logs = [&](const char* key) { if (log != want) { VH_FAIL(key, "%s: callbacks ran %zu times (last %lld), must be %zu times", how.c_str(), log.size(), log.empty() ? 0ll : (long long)log.back(), want.size()); return false; } return true; };
  size_t steps = g.chance(1, 4) ? 0 : g.below(14); bool ended = false;
  for (size_t k = 0; k < steps && !ended; k++) {
    auto h = it.size_hint(); size_t left = m->left();
    VH_CHECK(h.lower <= left && (!h.upper || *h.upper >= left), "size_hint", "%s: size hint [%zu, %zd] with %zu left", how.c_str(), h.lower, h.upper ? (ssize_t)*h.upper : -1, left);
    c.event("hints"); if (h.upper && h.lower == *h.upper) c.event("exact_hints");
    std::optional<i64> a, b;
    if (dbl && g.chance(2, 5)) { how += " back"; if constexpr (dbl) { a = val(it.next_back()); b = m->back(want); c.event("back_steps"); } }
    else { how += " next"; a = val(it.next()); b = m->next(want); c.event("front_steps"); }
    if (a != b) { VH_FAIL("step", "%s: got %s, must be %s", how.c_str(), str(a).c_str(), str(b).c_str()); return; }
    if (!logs("callbacks")) return;
    if (!b) ended = true;
  }
  if (ended) { c.event("ended_stepping"); c.state(hstr(how)); c.eval(); return; }
  { auto h = it.size_hint(); size_t left = m->left(); VH_CHECK(h.lower <= left && (!h.upper || *h.upper >= left), "size_hint", "%s: size hint [%zu, %zd] with %zu left", how.c_str(), h.lower, h.upper ? (ssize_t)*h.upper : -1, left); }
  // A copy continues on its own.
  if (g.chance(1, 4)) { auto copy = it; Log sink; auto mm = m->clone(); size_t n = g.below(4); Log keep = log; for (size_t k = 0; k < n; k++) { auto a = val(copy.next()), b = mm->next(sink); VH_CHECK(a == b, "copy", "%s: a copy yields %s, must be %s", how.c_str(), str(a).c_str(), str(b).c_str()); if (!b) break; } log = keep; c.event("copies"); }
  std::vector<i64> rest; { auto mm = m->clone(); Log sink; while (auto x = mm->next(sink)) rest.push_back(*x); }
  auto finish = [&] { Log more; auto mm = m->clone(); while (mm->next(want)) {} };
  switch (g.below(7)) {
    case 0: { how += " count"; size_t n = std::move(it).count(); VH_CHECK(n == rest.size(), "count", "%s: count %zu, must be %zu", how.c_str(), n, rest.size()); finish(); logs("count-callbacks"); c.event("counts"); break; }
    case 1: { how += " last"; auto a = val(std::move(it).last()); std::optional<i64> b; if (!rest.empty()) b = rest.back(); VH_CHECK(a == b, "last", "%s: last is %s, must be %s", how.c_str(), str(a).c_str(), str(b).c_str()); finish(); logs("last-callbacks"); c.event("lasts"); break; }
    case 2: { how += " for"; size_t i = 0; bool ok = true; for (auto&& x : it) { if (i >= rest.size() || (i64)x != rest[i]) { ok = false; break; } i++; } VH_CHECK(ok && i == rest.size(), "for", "%s: range-for differs at element %zu of %zu", how.c_str(), i, rest.size()); if (ok) { finish(); logs("for-callbacks"); } c.event("for_loops"); break; }
    case 3: if constexpr (!std::is_reference_v<typename It::item>) { how += " vec"; auto v = std::move(it).to_vec(); bool ok = v.size() == rest.size(); for (size_t i = 0; ok && i < rest.size(); i++) ok = (i64)v[i] == rest[i]; VH_CHECK(ok, "to_vec", "%s: to_vec gives %zu elements, must be %zu", how.c_str(), v.size(), rest.size()); finish(); logs("to_vec-callbacks"); c.event("to_vecs"); break; } [[fallthrough]];
    case 4: { how += " collect"; best::vec<i64> v = std::move(it).collect(); bool ok = v.size() == rest.size(); for (size_t i = 0; ok && i < rest.size(); i++) ok = v[i] == rest[i]; VH_CHECK(ok, "collect", "%s: collect gives %zu elements, must be %zu", how.c_str(), v.size(), rest.size()); finish(); logs("collect-callbacks"); c.event("collects"); break; }
    case 5: { how += " partial-for"; size_t stop = g.below(rest.size() + 1), i = 0; bool ok = true; if (stop) { for (auto&& x : it) { if (i >= rest.size() || (i64)x != rest[i]) { ok = false; break; } if (++i == stop) break; } VH_CHECK(ok && i == stop, "for", "%s: range-for differs at element %zu", how.c_str(), i); }
      if (ok) { for (; i <= rest.size(); i++) { auto a = val(it.next()); std::optional<i64> b; if (i < rest.size()) b = rest[i]; if (a != b) { VH_FAIL("for-rest", "%s: after a partial range-for: %s, must be %s", how.c_str(), str(a).c_str(), str(b).c_str()); break; } } } c.event("partial_loops"); break; }
    default: { how += " drain"; bool front = true; for (size_t i = 0, j = rest.size(); i <= j;) { if (i == j) { auto a = val(it.next()); VH_CHECK(!a, "end", "%s: yields %s after the end", how.c_str(), str(a).c_str()); break; } front = !dbl || g.flip(); std::optional<i64> a; i64 b; if (front) { a = val(it.next()); b = rest[i++]; } else { if constexpr (dbl) a = val(it.next_back()); b = rest[--j]; } if (a != b) { VH_FAIL("drain", "%s: %s gives %s, must be %lld", how.c_str(), front ? "next" : "next_back", str(a).c_str(), (long long)b); break; } }
      if (!rest.empty() && false) finish(); c.event("drains"); break; }
  }
  c.state(hstr(how)); c.eval(); if (c.rng.chance(1, 3000)) c.sample(how);
}
// Adds up to D adaptors, then drives.
template <int D, class It> void chain(Ctx& c, std::string id, It it, MP m, Log& log) {
  if constexpr (D > 0) {
    i64 k = c.rng.range(1, 9);
    switch (c.rng.below(7)) {
      case 0: return chain<D - 1>(c, id + " map", std::move(it).map([k, &log](auto&& x) -> i64 { log.push_back(1); log.push_back((i64)x); return wr((i64)x, 3, k); }), map(std::move(m), [k](i64 x, Log& l) { l.push_back(1); l.push_back(x); return wr(x, 3, k); }), log);
      case 1: return chain<D - 1>(c, id + " inspect0", std::move(it).inspect([k, &log] { log.push_back(100 + k); }), map(std::move(m), [k](i64 x, Log& l) { l.push_back(100 + k); return x; }), log);
      case 2: { using item = typename It::item; return chain<D - 1>(c, id + " inspect1", std::move(it).inspect([k, &log](std::remove_reference_t<item>& x) { log.push_back(200 + k); log.push_back((i64)x); }), map(std::move(m), [k](i64 x, Log& l) { l.push_back(200 + k); l.push_back(x); return x; }), log); }
      case 3: return chain<D - 1>(c, id + " enumerate", std::move(it).enumerate().map([](auto&& r) -> i64 { return wr((i64)r[best::index<1>], 7, (i64)r[best::index<0>] * 1000003); }), std::make_unique<Enum>(std::move(m), 0), log);
      case 4: { size_t n = c.rng.chance(1, 8) ? (size_t)-1 - c.rng.below(3) : c.rng.below(12); return chain<D - 1>(c, id + vh::fmt(" take(%zu)", n), std::move(it).take(n), std::make_unique<Take>(std::move(m), n), log); }
      case 5: if constexpr (It::double_ended) return chain<D - 1>(c, id + " rev", std::move(it).rev(), std::make_unique<Rev>(std::move(m)), log); [[fallthrough]];
      default: break;
    }
  }
  c.event(vh::fmt("chain_of_%d", 4 - D).c_str());
  drive(c, id, std::move(it), std::move(m), log);
}
#ifdef PART_A
static void ints8(Ctx& c) {
  int a = c.rng.range(0, 255), b = c.rng.chance(1, 3) ? 255 : c.rng.range(0, 255); if (c.rng.chance(1, 6)) a = 0; if (a > b) std::swap(a, b); Log log;
  std::deque<i64> d; for (int x = a; x <= b; x++) d.push_back(x); best::int_range<u8> r{.start = (u8)a, .including_end = (u8)b}; std::string id = vh::fmt("[%d,%d]", a, b);
  if (c.rng.flip()) { d.pop_back(); r = {.start = (u8)a, .end = (u8)b}; id = vh::fmt("[%d,%d)", a, b); }
  chain<3>(c, id, r.iter(), std::make_unique<Src>(d), log);
}
VH_WORKLOAD(ranges, 12000, 300000) { ints8(c); }
#elif defined PART_B
VH_WORKLOAD(spans, 12000, 300000) {
  size_t n = c.rng.len(30); std::unique_ptr<int[]> p(new int[n]); std::deque<i64> d; for (size_t i = 0; i < n; i++) { p[i] = (int)c.rng.range(-1000, 1000); d.push_back(p[i]); } Log log;
  chain<3>(c, vh::fmt("span of %zu", n), best::span<int>(p.get(), n).iter(), std::make_unique<Src>(d), log);
}
#elif defined PART_C
struct Count { int n, i = 0; constexpr best::option<int> next() { if (i >= n) return best::none; return i++ * i; } };  // a user's iterator: one-ended, without a hint
struct Loose { int a, b; best::option<long> next() { if (a >= b) return best::none; return a++; } best::option<long> next_back() { if (a >= b) return best::none; return --b; } best::size_hint size_hint() const { return {size_t(b - a) / 2, best::none}; } };
VH_WORKLOAD(users, 12000, 300000) {
  Log log; int n = (int)c.rng.len(30);
  if (c.rng.flip()) { std::deque<i64> d; for (int i = 0; i < n; i++) d.push_back(Count{i + 1, i}.next().has_value() ? 0 : 0); d.clear(); Count k{n}; while (auto x = k.next()) d.push_back(*x); chain<3>(c, vh::fmt("count %d", n), best::iter(Count{n}), std::make_unique<Src>(d), log); }
  else { std::deque<i64> d; for (int i = 0; i < n; i++) d.push_back(i); chain<3>(c, vh::fmt("loose %d", n), best::iter(Loose{0, n}), std::make_unique<Src>(d), log); }
}
#else
// Integer ranges of every type.
template <class I> std::string rs(const best::int_range<I>& r) { std::string s = vh::fmt("%s%zu{%lld", std::is_signed_v<I> ? "i" : "u", sizeof(I) * 8, (long long)r.start); if (r.end) s += vh::fmt(", end %lld", (long long)*r.end); if (r.including_end) s += vh::fmt(", including_end %lld", (long long)*r.including_end); if (r.count) s += vh::fmt(", count %lld", (long long)*r.count); return s + "}"; }
// Checks the range against [lo, hi) given exactly.
template <class I> void range(Ctx& c, const best::int_range<I>& r, i128 lo, i128 hi) {
  std::string id = rs(r); u128 n = hi > lo ? (u128)(hi - lo) : 0; auto it = r.iter(); c.eval(); c.state(hstr(id));
  auto hint = [&](auto& it, u128 left) { auto h = it.size_hint(); VH_CHECK((u128)h.lower <= left && (!h.upper || (u128)*h.upper >= left || left > (u128)(size_t)-1), "range-hint", "%s: size hint [%zu, %zd] with %s left", id.c_str(), h.lower, h.upper ? (ssize_t)*h.upper : -1, vh::u128s(left).c_str()); };
  hint(it, n);
  if (n <= (size_t)-1) VH_CHECK(r.iter().count() == (size_t)n, "range-count", "%s: count %zu, must be %s", id.c_str(), r.iter().count(), vh::u128s(n).c_str());
  auto l = r.iter().last(); VH_CHECK(l.has_value() == (n > 0) && (!n || (i128)*l == hi - 1), "range-last", "%s: last is %lld", id.c_str(), l ? (long long)*l : -1);
  i128 a = lo, b = hi; int mode = (int)c.rng.below(3);
  for (int k = 0; k < 600; k++) {
    bool front = mode == 0 || (mode == 1 && c.rng.flip());
    if (front) { auto x = it.next(); if (x.has_value() != (a < b) || (x && (i128)*x != a)) { VH_FAIL("range-next", "%s: next gives %s after %s steps, must be %s", id.c_str(), x ? vh::i128s(*x).c_str() : "none", vh::i128s(a - lo).c_str(), a < b ? vh::i128s(a).c_str() : "none"); return; } if (!x) break; a++; }
    else { auto x = it.next_back(); if (x.has_value() != (a < b) || (x && (i128)*x != b - 1)) { VH_FAIL("range-back", "%s: next_back gives %s, must be %s", id.c_str(), x ? vh::i128s(*x).c_str() : "none", a < b ? vh::i128s(b - 1).c_str() : "none"); return; } if (!x) break; b--; }
    if (k % 16 < 2) hint(it, (u128)(b - a));
    if (k % 64 == 5) { auto t = it; auto l = std::move(t).last(); VH_CHECK(l.has_value() == (a < b) && (a >= b || (i128)*l == b - 1), "range-last", "%s: last after %d steps", id.c_str(), k); auto u = it; size_t cn = std::move(u).count(); VH_CHECK((u64)(b - a) == cn, "range-count", "%s: count after %d steps is %zu", id.c_str(), k, cn); }
  }
  if (n && n < 300) { auto v = r.iter().to_vec(); VH_CHECK(v.size() == n && (i128)v[0] == lo && (i128)v[(size_t)n - 1] == hi - 1, "range-vec", "%s: to_vec", id.c_str()); size_t q = 0; for (auto x : r) { VH_CHECK((i128)x == lo + (i128)q, "range-for", "%s: element %zu", id.c_str(), q); q++; } VH_CHECK(q == n, "range-for", "%s: %zu elements", id.c_str(), q); }
  c.event("ranges"); if (lo == (i128)std::numeric_limits<I>::min() && hi - 1 == (i128)std::numeric_limits<I>::max()) c.event("whole_types"); if (!n) c.event("empty_ranges");
}
template <class I> void three(Ctx& c, I a, I b) {
  if (a > b) std::swap(a, b);
  range<I>(c, {.start = a, .end = b}, a, b); range<I>(c, {.start = a, .including_end = b}, a, (i128)b + 1);
  i128 n = (i128)b - a; if (n <= (i128)std::numeric_limits<I>::max()) { range<I>(c, {.start = a, .count = (I)n}, a, b); }
  if (b < std::numeric_limits<I>::max()) range<I>(c, {.start = a, .end = b, .including_end = a, .count = I(1)}, a, b);
}
template <class I> void edges(Ctx& c) { I a = c.rng.edge<I>(), b = c.rng.chance(1, 3) ? (I)((u64)a + c.rng.below(40)) : c.rng.edge<I>(); three<I>(c, a, b); constexpr I lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max(); switch (c.rng.below(12)) { case 0: three<I>(c, lo, hi); break; case 1: three<I>(c, hi, hi); break; case 2: three<I>(c, lo, lo); break; case 3: three<I>(c, (I)(hi - c.rng.below(50)), hi); break; case 4: three<I>(c, lo, (I)(lo + (I)c.rng.below(50))); break; case 5: range<I>(c, {.start = lo}, lo, (i128)hi + 1); break; default: break; } }
VH_WORKLOAD(int_ranges, 3000, 60000) { edges<i16>(c); edges<u16>(c); edges<i32>(c); edges<u32>(c); edges<i64>(c); edges<u64>(c); edges<i8>(c); edges<u8>(c); }
VH_WORKLOAD(all_8_bit_ranges, 256, 256) { for (int b = c.idx; b < 256; b++) { if (!c.thorough && (b % 4) != (int)c.rng.below(4) && b != 255 && b != (int)c.idx) continue; three<u8>(c, (u8)c.idx, (u8)b); three<i8>(c, (i8)((int)c.idx - 128), (i8)(b - 128)); } }
// The compute_count() of bounds.
VH_WORKLOAD(bounds, 4000, 100000) {
  auto z = [&] { return c.rng.chance(1, 6) ? c.rng.edge<size_t>() : (size_t)c.rng.below(12); };
  best::bounds b{.start = z()}; int k = (int)c.rng.below(5); size_t v = z(), max = z(); u128 end;
  switch (k) { case 0: b.end = v; end = v; break; case 1: b.including_end = v; end = (u128)v + 1; if (b.start > v) return; break; case 2: b.count = v; end = (u128)b.start + v; break; case 3: b.end = v; b.including_end = z(); b.count = z(); end = v; break; default: end = max; break; }
  bool ok = (u128)b.start <= end && end <= (u128)max; std::string id = rs(b); c.eval(); c.state(hstr(id + vh::fmt("%zu", max)));
  auto got = b.try_compute_count(max); VH_CHECK(got.has_value() == ok && (!ok || *got == (size_t)(end - b.start)), "bounds-try", "%s of %zu: %s, must be %s", id.c_str(), max, got ? vh::fmt("%zu", *got).c_str() : "none", ok ? vh::u128s(end - b.start).c_str() : "none");
  if (ok) VH_CHECK(b.compute_count(max) == (size_t)(end - b.start), "bounds-count", "%s of %zu", id.c_str(), max); else if (c.rng.chance(1, 60)) VH_MUST_CRASH("bounds-crash", id, { (void)b.compute_count(max); });
  if (ok && k != 4) { auto w = b.wrapping_normalize(max); VH_CHECK(w.start == b.start && w.count && *w.count == (size_t)(end - b.start) && !w.end && !w.including_end, "bounds-normalize", "%s", id.c_str()); }
  c.event(ok ? "good_bounds" : "bad_bounds");
}
// References stay references to the very elements; containers iterate their elements.
VH_WORKLOAD(references, 3000, 60000) {
  size_t n = c.rng.len(20); best::vec<tr::Obj> v; tr::begin(c, "references"); {
  best::vec<int> w; for (size_t i = 0; i < n; i++) w.push((int)i);
  int* p = w.data().raw(); size_t k = 0;
  for (auto& x : w.iter()) { VH_CHECK(&x == p + k, "ref", "vec.iter() element %zu is elsewhere", k); k++; } VH_CHECK(k == n, "ref", "vec.iter() yields %zu of %zu", k, n);
  k = 0; for (auto& x : w.iter().rev()) { VH_CHECK(&x == p + n - 1 - k, "ref-rev", "rev element %zu is elsewhere", k); k++; }
  k = 0; int seen = 0; for (auto& x : w.iter().inspect([&] { seen++; })) { VH_CHECK(&x == p + k, "ref-inspect", "inspect element %zu is elsewhere", k); x += 100; k++; } VH_CHECK(seen == (int)n, "ref-inspect", "inspected %d of %zu", seen, n);
  k = 0; for (auto& x : w.iter().inspect([&](int& y) { y += 1000; }).take(3)) { VH_CHECK(&x == p + k && x == (int)k + 1100, "ref-inspect", "inspect(&) element %zu", k); k++; } VH_CHECK(k == (n < 3 ? n : 3), "ref-take", "take yields %zu", k);
  k = 0; for (auto&& r : w.iter().enumerate()) { VH_CHECK(r[best::index<0>] == k && &r[best::index<1>] == p + k, "ref-enumerate", "enumerate element %zu", k); k++; }
  const auto& cw = w; k = 0; for (auto& x : cw.iter()) { static_assert(std::is_const_v<std::remove_reference_t<decltype(x)>>); VH_CHECK(&x == p + k, "ref-const", "const iteration element %zu", k); k++; }
  auto it = w.iter(); size_t a = c.rng.below(n + 1), b = c.rng.below(n - a + 1); for (size_t i = 0; i < a; i++) it.next(); for (size_t i = 0; i < b; i++) it.next_back();
  auto rest = it->rest(); VH_CHECK(rest.size() == n - a - b && (rest.is_empty() || rest.data().raw() == p + a), "rest", "rest() after %zu and %zu of %zu", a, b, n); auto h = it.size_hint(); VH_CHECK(h.lower == n - a - b && h.upper && *h.upper == n - a - b, "span-hint", "span hint");
  auto cp = it; auto l = std::move(cp).last(); VH_CHECK(l.has_value() == (a + b < n) && (a + b >= n || &*l == p + n - b - 1), "span-last", "last() after %zu and %zu of %zu", a, b, n); VH_CHECK(std::move(it).count() == n - a - b, "span-count", "count"); } c.event("reference_checks"); c.eval(); c.state(n);
  tr::end(c);
}
// Values made by callbacks are passed along without copies or leaks.
template <class T> void owned(Ctx& c) {
  tr::begin(c, "owned"); int n = (int)c.rng.len(12), calls = 0;
  auto mk = [&] { return best::int_range<int>{.start = 0, .end = n}.iter().map([](int x) { return T(x + 1); }); };
  auto vals = [&](const char* key, auto&& v, int from, int count) { VH_CHECK((int)v.size() == count, key, "%d elements, must be %d", (int)v.size(), count); for (int i = 0; i < count && i < (int)v.size(); i++) VH_CHECK(v[i].get() == from + i, key, "element %d", i); };
  { auto v = mk().to_vec(); vals("owned-map", v, 1, n); }
  { auto v = mk().inspect([&] { calls++; }).to_vec(); vals("owned-inspect", v, 1, n); VH_CHECK(calls == n, "owned-inspect", "%d calls", calls); }
  { auto v = mk().inspect([&](T& t) { calls += t.get(); }).to_vec(); vals("owned-inspect1", v, 1, n); VH_CHECK(calls == n + n * (n + 1) / 2, "owned-inspect1", "%d calls", calls); }
  { int k = (int)c.rng.below(n + 3); auto v = mk().take(k).to_vec(); vals("owned-take", v, 1, k < n ? k : n); }
  { auto v = mk().rev().to_vec(); VH_CHECK((int)v.size() == n, "owned-rev", "size"); for (int i = 0; i < n && i < (int)v.size(); i++) VH_CHECK(v[i].get() == n - i, "owned-rev", "element %d", i); }
  { auto l = mk().last(); VH_CHECK(l.has_value() == (n > 0) && (!n || l->get() == n), "owned-last", "last"); }
  { VH_CHECK((int)mk().count() == n, "owned-count", "count"); }
  { int i = 0; for (auto&& r : mk().enumerate()) { VH_CHECK((int)r[best::index<0>] == i && r[best::index<1>].get() == i + 1, "owned-enumerate", "element %d", i); i++; } VH_CHECK(i == n, "owned-enumerate", "size"); }
  { int i = 0; for (auto&& t : mk().map([](auto&& t) { return T(t.get() * 2); })) { VH_CHECK(t.get() == (i + 1) * 2, "owned-map2", "element %d", i); i++; } }
  c.event("owned_values", n); c.eval(); c.state(hcomb(n, sizeof(T))); tr::end(c);
}
VH_WORKLOAD(owners, 600, 10000) { owned<tr::Obj>(c); owned<tr::Uniq>(c); owned<tr::Big>(c); }
// Huge ranges: lazily taken, nothing is allocated for what is never yielded.
VH_WORKLOAD(huge, 300, 4000) {
  u64 a = c.rng.below(1000), n = c.rng.below(50);
  auto v = best::bounds{.start = a, .count = ((size_t)-1 >> c.rng.below(8)) - a}.iter().take(n).to_vec(); VH_CHECK(v.size() == n, "huge-take", "%zu elements, must be %zu", v.size(), (size_t)n); for (size_t i = 0; i < n && i < v.size(); i++) VH_CHECK(v[i] == a + i, "huge-take", "element %zu", i);
  auto w = best::int_range<u64>{.start = 0}.iter().take(n).map([](u64 x) { return x * 2; }).to_vec(); VH_CHECK(w.size() == n, "huge-take", "%zu elements", w.size());
  auto x = best::int_range<u64>{.start = 0}.iter().rev().take(n).to_vec(); VH_CHECK(x.size() == n && (!n || x[n - 1] == (u64)-1 - (n - 1)), "huge-rev", "reversed");
  c.event("huge_ranges", 3); c.eval(); c.state(hcomb(a, n));
}
#endif
}  // namespace PARTNS
