// C12: rows. Every way to read, slice, join, insert into, erase from, scatter, gather, forward or iterate rows of seeded
// values, for every index and every pair of bounds, against an index-by-index definition on vectors of (type, value).
#include "vh.h"
#include "track.h"
#include "best/container/object.h"
#include "best/container/option.h"
#include "best/container/row.h"
#include "best/meta/tlist.h"
#include <algorithm>
#define index best::index
using namespace vh;
using tr::Obj; using tr::Uniq; using best::row; using best::bounds;

namespace {
struct E0 {}; struct E1 {};
class TP { int a = 0; char b = 0; public: TP() = default; TP(int v) : a(v), b((char)~v) {} int get() const { return b == (char)~a ? a : -99; } };  // has tail padding another field may live in
struct Key {}; struct KeyedA { using BestRowKey = Key; int v; int get() const { return v; } }; struct KeyedB { using BestRowKey = Key; int v; int get() const { return v; } };
int ipool[64];
struct F { const char* type; int v; const void* at; };  // `at` matters for references only
using Fs = std::vector<F>;
template <class T> const char* ty() { return __PRETTY_FUNCTION__; }
template <class T> int rd(const T& t) { if constexpr (std::is_empty_v<T>) return 0; else if constexpr (requires { t.get(); }) return t.get(); else return (int)t; }
template <class T> F fd(const T& t, const char* type, bool ref) { return {type, rd(t), ref ? (const void*)&t : nullptr}; }
template <class R> Fs codes(const R& r) {
  Fs o; [&]<size_t... i>(std::index_sequence<i...>) { (([&] { using T = typename R::template type<i>; if constexpr (best::is_void<T>) o.push_back({ty<T>(), 0, nullptr}); else { o.push_back(fd(*r.object(index<i>), ty<T>(), best::is_ref<T>)); } }()), ...); }(std::make_index_sequence<R::size()>{}); return o;
}
bool same(const Fs& a, const Fs& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (strcmp(a[i].type, b[i].type) || a[i].v != b[i].v || a[i].at != b[i].at) return false; return true; }
std::string show(const Fs& f) { std::string s = "{"; for (auto& x : f) { std::string t = x.type; t = t.substr(t.find("T = ") + 4); s += t.substr(0, t.size() - 1) + ":" + std::to_string(x.v) + (x.at ? "@ " : " "); } return s + "}"; }
Fs cut(const Fs& f, size_t s, size_t n) { return Fs(f.begin() + s, f.begin() + s + n); }
Fs put(Fs f, size_t s, size_t n, const Fs& in) { f.erase(f.begin() + s, f.begin() + s + n); f.insert(f.begin() + s, in.begin(), in.end()); return f; }
Ctx* cc; const char* rname = "";
void is(const Fs& got, const Fs& want, const char* what, size_t a = 0, size_t b = 0) { Ctx& c = *cc; c.eval(); c.event("rows_compared"); if (!same(got, want)) VH_FAIL(what, "%s(%zu, %zu) of %s gave %s, not %s", what, a, b, rname, show(got).c_str(), show(want).c_str()); }
template <class R> void eq(const R& got, const Fs& want, const char* what, size_t a = 0, size_t b = 0) { is(codes(got), want, what, a, b); }
template <class F> void seq(size_t, F&&) {}
template <size_t N, class F> void upto(F&& f) { [&]<size_t... i>(std::index_sequence<i...>) { (f(index<i>), ...); }(std::make_index_sequence<N>{}); }

// Operations that copy, on a row with only copyable fields.
template <class R> void copying(Ctx& c, R r) {
  cc = &c; static const std::string nm = show(codes(r)); rname = __PRETTY_FUNCTION__; constexpr size_t N = R::size(); const R& k = r; Fs m = codes(r); u64 h = hstr(rname); for (auto& f : m) h = hcomb(h, f.v); c.state(h); tr::op(rname);
  VH_CHECK(N == R::types.size() && R::is_empty() == (N == 0), "size", "%s: size", rname);
  // reading
  upto<N>([&](auto i) { using T = typename R::template type<i.value>; if constexpr (!best::is_void<T>) {
      const void* ps[] = {&k[i], &r[i], &k.at(i), &r.at(i), &k.get(i), &r.get(i), k.object(i).operator->(), r.object(i).operator->()}; for (auto p : ps) VH_CHECK(p == ps[0], "access", "%s: accessors of field %zu name different objects", rname, i.value);
      auto&& a = std::move(r)[i]; auto&& b = std::move(r).at(i); auto&& d = std::move(r).get(i); auto&& e = std::move(r).object(i); VH_CHECK(&a == ps[0] && &b == ps[0] && &d == ps[0] && e.operator->() == ps[0], "access", "%s: rvalue accessors of field %zu", rname, i.value);
      static_assert(std::is_same_v<decltype(k[i]), best::as_ref<const T>> && std::is_same_v<decltype(r[i]), best::as_ref<T>> && std::is_same_v<decltype(std::move(r)[i]), best::as_rref<T>> && std::is_same_v<decltype(r.get(i)), best::as_ref<T>>); VH_CHECK(rd(k[i]) == m[i.value].v, "value", "%s: field %zu", rname, i.value); c.event("fields_read");
      if constexpr (best::is_object<T> && !std::is_empty_v<T>) upto<N>([&](auto j) { using U = typename R::template type<j.value>; if constexpr (j.value > i.value && best::is_object<U> && !std::is_empty_v<U>) { auto x = (uintptr_t)&k[i], y = (uintptr_t)&k[j]; VH_CHECK(x != y, "overlap", "%s: fields %zu and %zu share storage", rname, i.value, j.value); } });
    } else { static_assert(std::is_same_v<decltype(k.get(i)), best::empty>); k[i]; } });
  if constexpr (N > 0) { if constexpr (!(best::is_void<typename R::template type<0>>)) VH_CHECK(&k.first() == &k[index<0>] && &r.first() == &r[index<0>], "first", "%s", rname); if constexpr (!(best::is_void<typename R::template type<N - 1>>)) VH_CHECK(&k.last() == &k[index<N - 1>] && &r.last() == &r[index<N - 1>], "last", "%s", rname); if constexpr (N > 1) if constexpr (!(best::is_void<typename R::template type<1>>)) VH_CHECK(&k.second() == &k[index<1>], "second", "%s", rname); }
  // iterating and forwarding
  { Fs g; size_t n = 0; k.each([&](auto&&... x) { n++; if constexpr (sizeof...(x) > 0) ((g.push_back({m[n - 1].type, rd(x), m[n - 1].at ? (const void*)&x : nullptr})), ...); else g.push_back({m[n - 1].type, 0, nullptr}); }); is(g, m, "each"); n = 0; r.each([&](auto&&... x) { n++; }); VH_CHECK(n == N, "each", "%s: each ran %zu times", rname, n);
    Fs g2; int calls = 0; int ret = k.apply([&](const auto&... x) { calls++; size_t q = 0; ((g2.push_back({m[q].type, rd(x), m[q].at ? (const void*)&x : nullptr}), q++), ...); return 7; }); is(g2, m, "apply"); VH_CHECK(calls == 1 && ret == 7, "apply", "%s: apply ran %d times", rname, calls);
    if constexpr (N == 0) { } else if constexpr (!requires { requires best::is_void<typename R::template type<0>>; } && !requires { requires best::is_void<typename R::template type<N - 1>>; }) { auto as = k.as_args(); size_t q = 0; Fs g3; as.row.apply([&](const auto&... x) { ((g3.push_back({m[q].type, rd(x), m[q].at ? (const void*)&x : nullptr}), q++), ...); }); is(g3, m, "as_args"); R again = R(k); eq(again, m, "copy"); auto refs = r.as_ref(); upto<N>([&](auto i) { VH_CHECK(&refs[i] == &r[i], "as_ref", "%s: field %zu", rname, i.value); }); auto crefs = k.as_ref(); upto<N>([&](auto i) { VH_CHECK(&crefs[i] == &k[i], "as_ref", "%s: field %zu", rname, i.value); static_assert(std::is_same_v<decltype(crefs[i]), best::as_ref<const typename R::template type<i.value>>>); }); } }
  // slicing, erasing, splicing at every pair of bounds
  int lv = (int)c.rng.below(50); auto ins = row<long, Obj>{(long)lv, Obj(lv + 1)}; Fs mi = codes(ins);
  upto<N + 1>([&](auto s) { upto<N + 1 - s.value>([&](auto n) { constexpr size_t S = s.value, L = n.value; constexpr bounds b{.start = S, .count = L}, be{.start = S, .end = S + L};
      eq(k.at(best::vals<b>), cut(m, S, L), "slice", S, L); eq(r[best::vals<be>], cut(m, S, L), "slice", S, L); if constexpr (S + L == N) eq(k[best::vals<bounds{.start = S}>], cut(m, S, L), "slice", S, L); if constexpr (L > 0) eq(k[best::vals<bounds{.start = S, .including_end = S + L - 1}>], cut(m, S, L), "slice", S, L);
      eq(k.erase(best::vals<b>), put(m, S, L, {}), "erase", S, L); eq(r.splice(ins, best::vals<b>), put(m, S, L, mi), "splice", S, L); eq(k.splice(row<>{}, best::vals<b>), put(m, S, L, {}), "splice", S, L);
      auto other = row<int, int>{lv, lv + 2}; eq(k.splice(best::types<long, Obj>, other, best::vals<b>), put(m, S, L, Fs{{ty<long>(), lv, nullptr}, {ty<Obj>(), lv + 2, nullptr}}), "splice-types", S, L); c.event("slices", 4); }); });
  // inserting, updating, removing at every index
  Obj o(lv + 3); int x = lv + 4;
  upto<N + 1>([&](auto i) { constexpr size_t I = i.value; eq(k.insert(o, i), put(m, I, 0, {{ty<Obj>(), lv + 3, nullptr}}), "insert", I); eq(r.insert(best::bind, o, i), put(m, I, 0, {{ty<Obj&>(), lv + 3, &o}}), "insert-bind", I); eq(k.insert(best::types<long>, x, i), put(m, I, 0, {{ty<long>(), x, nullptr}}), "insert-types", I);
    if constexpr (I < N) { eq(k.update(o, i), put(m, I, 1, {{ty<Obj>(), lv + 3, nullptr}}), "update", I); eq(r.update(best::bind, o, i), put(m, I, 1, {{ty<Obj&>(), lv + 3, &o}}), "update-bind", I); eq(k.update(best::types<long>, x, i), put(m, I, 1, {{ty<long>(), x, nullptr}}), "update-types", I); eq(k.remove(i), put(m, I, 1, {}), "remove", I); c.event("removals"); } c.event("insertions"); });
  eq(k.push(o), put(m, N, 0, {{ty<Obj>(), lv + 3, nullptr}}), "push"); eq(r.push(best::bind, o), put(m, N, 0, {{ty<Obj&>(), lv + 3, &o}}), "push-bind"); eq(k.push(best::types<long>, x), put(m, N, 0, {{ty<long>(), x, nullptr}}), "push-types"); eq(k.push(Obj(5)), put(m, N, 0, {{ty<Obj>(), 5, nullptr}}), "push");
  // joining
  Fs two = m; two.insert(two.end(), mi.begin(), mi.end()); eq(k.join(ins), two, "join"); eq(r + ins, two, "plus"); eq(k.join(), m, "join"); Fs three = two; three.insert(three.end(), m.begin(), m.end()); eq(k.join(ins, k), three, "join"); eq(r.join(row<>{}, ins, row<>{}, r), three, "join"); c.event("joins", 5);
  // gathering and scattering
  if constexpr (N > 0) [&]<size_t... i>(std::index_sequence<i...>) {
    Fs rev(m.rbegin(), m.rend()), dup = m; dup.insert(dup.end(), m.begin(), m.end()); eq(k.gather(best::vals<(N - 1 - i)...>), rev, "gather"); eq(r.gather(best::vals<i..., i...>), dup, "gather"); Fs evens; for (size_t q = 0; q < N; q++) evens.push_back(m[q / 2 * 2]); eq(k.gather(best::vals<(i / 2 * 2)...>), evens, "gather"); eq(k.gather(best::vals<>), {}, "gather"); c.event("gathers", 3);
    upto<N>([&](auto a) { upto<N>([&](auto b) { if constexpr (a.value != b.value) { Fs w = m; w[a.value] = mi[0]; w[b.value] = mi[1]; eq(k.scatter(ins, best::vals<a.value, b.value>), w, "scatter", a.value, b.value); auto other = row<int, int>{lv, lv + 2}; w[a.value] = {ty<long>(), lv, nullptr}; w[b.value] = {ty<Obj>(), lv + 2, nullptr}; eq(k.scatter(best::types<long, Obj>, other, best::vals<a.value, b.value>), w, "scatter-types", a.value, b.value); c.event("scatters"); } }); Fs w = m; w[a.value] = mi[0]; eq(k.scatter(ins, best::vals<a.value>), w, "scatter", a.value); });
  }(std::make_index_sequence<N>{});
  // lookup by key
  upto<N>([&](auto i) { using T = typename R::template type<i.value>; auto look = [&]<class Q>(std::type_identity<Q>) { std::vector<size_t> want; Fs wf; upto<N>([&](auto j) { using U = typename R::template type<j.value>; bool hit = std::is_same_v<Q, U>; if constexpr (requires { typename U::BestRowKey; }) hit |= std::is_same_v<Q, typename U::BestRowKey>; if (hit) { want.push_back(j.value); wf.push_back(m[j.value]); } }); std::vector<size_t> got; R::select_indices(best::types<Q>).each([&](auto v) { got.push_back(v.value); }); VH_CHECK(got == want, "select_indices", "%s: %zu indices, not %zu", rname, got.size(), want.size()); if constexpr (!(best::is_void<Q>)) eq(k.select(best::types<Q>), wf, "select"); VH_CHECK(R::template selectable<Q> == !want.empty(), "selectable", "%s", rname); c.event(want.empty() ? "selections_empty" : "selections"); }; look(std::type_identity<T>{}); look(std::type_identity<Key>{}); look(std::type_identity<struct Nope>{}); look(std::type_identity<int>{}); });
  is(codes(r), m, "receiver-changed"); // nothing above may have changed the row
  // mutating one field leaves the others alone
  upto<N>([&](auto i) { using T = typename R::template type<i.value>; if constexpr (best::is_object<T> && !std::is_empty_v<T> && std::is_assignable_v<T&, T>) { int v = (int)c.rng.below(90) + 1; if constexpr (requires { T(v); }) r[i] = T(v); else r[i] = T{v}; Fs w = m; w[i.value].v = v; eq(r, w, "mutate", i.value); m = w; c.event("mutations"); } });
  R cp = k; eq(cp, m, "copy"); R mvd = std::move(cp); eq(mvd, m, "move"); cp = k; eq(cp, m, "assign"); std::swap(cp, mvd); eq(mvd, m, "swap");
}
// Operations that move out of the row, on any row: exactly the wanted fields are moved, the rest stay.
template <class R, class Mk> void moving(Ctx& c, Mk mk) {
  cc = &c; rname = __PRETTY_FUNCTION__; constexpr size_t N = R::size(); Fs m; { R r = mk(); m = codes(r); } u64 h = hstr(rname); for (auto& f : m) h = hcomb(h, f.v); c.state(h); tr::op(rname); u64 copies = tr::reg().copies; int lv = (int)c.rng.below(50);
  auto mi = Fs{{ty<long>(), lv, nullptr}, {ty<Uniq>(), lv + 1, nullptr}}; auto ins = [&] { return row<long, Uniq>{(long)lv, Uniq(lv + 1)}; };
  upto<N + 1>([&](auto s) { upto<N + 1 - s.value>([&](auto n) { constexpr size_t S = s.value, L = n.value; constexpr bounds b{.start = S, .count = L};
      R r = mk(); eq(std::move(r).at(best::vals<b>), cut(m, S, L), "move-slice", S, L); upto<N>([&](auto i) { using T = typename R::template type<i.value>; if constexpr (std::is_same_v<T, Uniq> || std::is_same_v<T, Obj>) VH_CHECK(r[i].get() == (i.value >= S && i.value < S + L ? tr::Moved : m[i.value].v), "moved-wrong-fields", "%s: slice(%zu, %zu) left field %zu with %d", rname, S, L, i.value, r[i].get()); });
      eq(mk().erase(best::vals<b>), put(m, S, L, {}), "move-erase", S, L); eq(mk().splice(ins(), best::vals<b>), put(m, S, L, mi), "move-splice", S, L); c.event("moving_slices", 3); }); });
  upto<N + 1>([&](auto i) { constexpr size_t I = i.value; eq(mk().insert(Uniq(lv), i), put(m, I, 0, {{ty<Uniq>(), lv, nullptr}}), "move-insert", I); if constexpr (I < N) { eq(mk().update(Uniq(lv), i), put(m, I, 1, {{ty<Uniq>(), lv, nullptr}}), "move-update", I); eq(mk().remove(i), put(m, I, 1, {}), "move-remove", I); } c.event("moving_insertions"); });
  eq(mk().push(Uniq(lv)), put(m, N, 0, {{ty<Uniq>(), lv, nullptr}}), "move-push"); Fs two = m; two.insert(two.end(), mi.begin(), mi.end()); eq(mk().join(ins()), two, "move-join"); eq(mk() + ins(), two, "move-plus"); two.insert(two.end(), m.begin(), m.end()); eq(mk().join(ins(), mk()), two, "move-join"); c.event("moving_joins", 3);
  [&]<size_t... i>(std::index_sequence<i...>) { eq(mk().gather(best::vals<(N - 1 - i)...>), Fs(m.rbegin(), m.rend()), "move-gather"); R r = mk(); int k = 0; Fs g; std::move(r).apply([&](auto&&... x) { size_t q = 0; ((g.push_back({m[q].type, rd(x), m[q].at ? (const void*)&x : nullptr}), q++), ...); static_assert((!std::is_lvalue_reference_v<decltype(x)> || ...)); k++; }); is(g, m, "move-apply"); size_t n = 0; std::move(r).each([&](auto&& x) { n++; }); VH_CHECK(n == N && k == 1, "move-each", "%s", rname); auto refs = std::move(r).as_ref(); upto<N>([&](auto j) { VH_CHECK(&refs[j] == &r[j], "move-as_ref", "%s: field %zu", rname, j.value); static_assert(std::is_same_v<typename decltype(refs)::template type<j.value>, best::as_rref<typename R::template type<j.value>>>); }); R q = R(std::move(r)); eq(q, m, "move"); }(std::make_index_sequence<N>{});
  VH_CHECK(tr::reg().copies == copies, "copied-instead-of-moved", "%s: %llu copies were made", rname, (unsigned long long)(tr::reg().copies - copies));
}
// Rows far wider than a person would spell out by hand in a test: the same definitions, at chosen places.
template <class R> void wide(Ctx& c, R r) {
  cc = &c; rname = "a wide row"; constexpr size_t N = R::size(); const R& k = r; Fs m = codes(r); u64 h = hstr(__PRETTY_FUNCTION__); for (auto& f : m) h = hcomb(h, f.v); c.state(h); int lv = (int)c.rng.below(50); auto ins = row<long, Obj>{(long)lv, Obj(lv + 1)}; Fs mi = codes(ins); Obj o(lv + 3);
  VH_CHECK(N == R::types.size() && N == m.size(), "size", "%zu", N); c.event("wide_rows");
  upto<N>([&](auto i) { using T = typename R::template type<i.value>; VH_CHECK(&k[i] == &r.at(i) && &k[i] == &k.get(i), "access", "field %zu", i.value); if constexpr (best::is_object<T> && !std::is_empty_v<T>) upto<N>([&](auto j) { using U = typename R::template type<j.value>; if constexpr (j.value > i.value && best::is_object<U> && !std::is_empty_v<U>) { auto a = (const char*)&k[i]; auto b = (const char*)&k[j]; VH_CHECK(a + sizeof(T) <= b || b + sizeof(U) <= a, "overlap", "fields %zu and %zu overlap", i.value, j.value); } }); });
  VH_CHECK((const void*)&k.last() == (const void*)&k[index<N - 1>] && (const void*)&k.first() == (const void*)&k[index<0>] && (const void*)&r.second() == (const void*)&r[index<1>], "ends", "first, second, last");
  { Fs g; size_t n = 0; k.each([&](const auto& x) { g.push_back({m[n].type, rd(x), m[n].at ? (const void*)&x : nullptr}); n++; }); is(g, m, "each"); }
  { Fs g; k.apply([&](const auto&... x) { size_t q = 0; ((g.push_back({m[q].type, rd(x), m[q].at ? (const void*)&x : nullptr}), q++), ...); }); is(g, m, "apply"); }
  auto look = [&]<class Q>(std::type_identity<Q>) { std::vector<size_t> want; Fs wf; upto<N>([&](auto j) { using U = typename R::template type<j.value>; bool hit = std::is_same_v<Q, U>; if constexpr (requires { typename U::BestRowKey; }) hit |= std::is_same_v<Q, typename U::BestRowKey>; if (hit) { want.push_back(j.value); wf.push_back(m[j.value]); } });
    std::vector<size_t> got; R::select_indices(best::types<Q>).each([&](auto v) { got.push_back(v.value); }); VH_CHECK(got == want, "select_indices", "%zu indices, not %zu", got.size(), want.size()); eq(k.select(best::types<Q>), wf, "select"); VH_CHECK(R::template selectable<Q> == !want.empty(), "selectable", ""); c.event("wide_selections"); c.event(wf.size() > 3 ? "selections_of_many" : "selections_of_few"); };
  look(std::type_identity<int>{}); look(std::type_identity<char>{}); look(std::type_identity<Obj>{}); look(std::type_identity<Key>{}); look(std::type_identity<int&>{}); look(std::type_identity<KeyedA>{}); look(std::type_identity<struct Nope>{});
  auto at = [&]<size_t S, size_t L>(std::index_sequence<S, L>) { constexpr bounds b{.start = S, .count = L}; eq(k.at(best::vals<b>), cut(m, S, L), "slice", S, L); eq(k.erase(best::vals<b>), put(m, S, L, {}), "erase", S, L); eq(k.splice(ins, best::vals<b>), put(m, S, L, mi), "splice", S, L); c.event("wide_slices"); };
  at(std::index_sequence<0, 0>{}); at(std::index_sequence<0, N>{}); at(std::index_sequence<N, 0>{}); at(std::index_sequence<1, N - 2>{}); at(std::index_sequence<N / 2, N - N / 2>{}); at(std::index_sequence<0, N - 1>{}); at(std::index_sequence<N - 2, 1>{});
  auto put1 = [&](auto i) { constexpr size_t I = decltype(i)::value; eq(k.insert(o, i), put(m, I, 0, {{ty<Obj>(), lv + 3, nullptr}}), "insert", I); if constexpr (I < N) { eq(k.update(o, i), put(m, I, 1, {{ty<Obj>(), lv + 3, nullptr}}), "update", I); eq(k.remove(i), put(m, I, 1, {}), "remove", I); } };
  put1(index<0>); put1(index<4>); put1(index<N - 3>); put1(index<N - 1>); put1(index<N>);
  eq(k.push(o), put(m, N, 0, {{ty<Obj>(), lv + 3, nullptr}}), "push"); { Fs two = m; two.insert(two.end(), mi.begin(), mi.end()); eq(k.join(ins), two, "join"); eq(ins.join(k), put(m, 0, 0, mi), "join-before"); Fs three = two; three.insert(three.end(), m.begin(), m.end()); eq(k.join(ins, k), three, "join3"); }
  [&]<size_t... i>(std::index_sequence<i...>) { eq(k.gather(best::vals<(N - 1 - i)...>), Fs(m.rbegin(), m.rend()), "gather"); Fs odd; for (size_t q = 0; q < N; q++) odd.push_back(m[q * 5 % N]); eq(k.gather(best::vals<(i * 5 % N)...>), odd, "gather-mixed"); }(std::make_index_sequence<N>{});
  { Fs w = m; w[2] = mi[0]; w[N - 2] = mi[1]; eq(k.scatter(ins, best::vals<(size_t)2, N - 2>), w, "scatter"); Fs w2 = m; w2[N - 2] = mi[0]; w2[2] = mi[1]; eq(k.scatter(ins, best::vals<N - 2, (size_t)2>), w2, "scatter-back"); }
  is(codes(r), m, "receiver-changed"); R cp = k; eq(cp, m, "copy"); R mvd = std::move(cp); eq(mvd, m, "move"); cp = k; eq(cp, m, "assign");
  VH_CHECK(k == mvd, "equal", "a row and its copy"); upto<N>([&](auto i) { using T = typename R::template type<i.value>; if constexpr (std::is_same_v<T, int> || std::is_same_v<T, char>) { auto old = mvd[i]; mvd[i] = (T)(old + 1); VH_CHECK(!(k == mvd), "equal", "rows that differ in field %zu compare equal", i.value); VH_CHECK((k < mvd) == (old < mvd[i]), "order", "rows that differ in field %zu", i.value); mvd[i] = old; c.event("wide_comparisons"); } });
}
}  // namespace
#define BEGIN static bool once = [] { for (int i = 0; i < 64; i++) ipool[i] = i; return true; }(); (void)once; int v = (int)c.rng.below(60) + 1, w = (int)c.rng.below(60) + 1; int &p = ipool[v], &q = ipool[w]; (void)p; (void)q; tr::begin(c, "rows")
#ifdef PART_A
VH_WORKLOAD(small, 600, 20000) { BEGIN;
  switch (c.rng.below(7)) { case 0: copying(c, row<>{}); break; case 1: copying(c, row<int>{v}); break; case 2: copying(c, row<Obj>{v}); break; case 3: copying(c, row<int&>(p)); break; case 4: copying(c, row<int, Obj>{v, w}); break; case 5: copying(c, row<int&, const int&>(p, q)); break; case 6: copying(c, row<E0, int>{E0{}, v}); } tr::end(c); }
#elif defined(PART_B)
VH_WORKLOAD(three, 300, 10000) { BEGIN;
  switch (c.rng.below(4)) { case 0: copying(c, row<int, int, int>{v, w, v + w}); break; case 1: copying(c, row<Obj, int&, char>(Obj(v), p, (char)w)); break; case 2: copying(c, row<TP, char, char>{TP(v), (char)w, (char)v}); break; case 3: copying(c, row<E0, E1, Obj>{E0{}, E1{}, Obj(w)}); } tr::end(c); }
#elif defined(PART_C)
VH_WORKLOAD(four, 200, 8000) { BEGIN;
  switch (c.rng.below(2)) { case 0: copying(c, row<KeyedA, int, KeyedB, int>{KeyedA{v}, w, KeyedB{v + 1}, w + 1}); break; case 1: copying(c, row<TP, E0, const int&, Obj>(TP(v), E0{}, q, Obj(w))); } tr::end(c); }
#elif defined(PART_D)
VH_WORKLOAD(five, 100, 4000) { BEGIN; copying(c, row<Obj, int, Key, KeyedA, int&>(Obj(v), w, Key{}, KeyedA{v + 2}, p)); tr::end(c); }
VH_WORKLOAD(moved, 400, 15000) { BEGIN;
  switch (c.rng.below(4)) { case 0: moving<row<Uniq>>(c, [&] { return row<Uniq>{Uniq(v)}; }); break; case 1: moving<row<Uniq, Obj>>(c, [&] { return row<Uniq, Obj>{Uniq(v), Obj(w)}; }); break; case 2: moving<row<Obj, int, Uniq>>(c, [&] { return row<Obj, int, Uniq>{Obj(v), w, Uniq(v + 1)}; }); break; case 3: moving<row<Uniq, Uniq, Obj, Uniq>>(c, [&] { return row<Uniq, Uniq, Obj, Uniq>{Uniq(v), Uniq(w), Obj(v + w), Uniq(7)}; }); } tr::end(c); }
#elif defined(PART_F)
VH_WORKLOAD(wide, 200, 6000) { BEGIN;
  switch (c.rng.below(2)) {
    case 0: wide(c, row<int, char, int, char, int, int, char, char, int, int, int, char>{v, (char)w, w, (char)v, v + w, v - w, 'a', 'b', 7, v * 2, w * 2, 'z'}); break;
    default: wide(c, row<int, int, int, int, int, Obj, int, int, char, Obj, int, char, int, Obj, int, int>{v, w, 3, 4, v + 5, Obj(v), w + 6, 7, 'c', Obj(w), v, 'd', w, Obj(v + w), 8, 9}); break;
  }
  tr::end(c); }
VH_WORKLOAD(widek, 100, 3000) { BEGIN; cc = &c; {
  row<KeyedA, int, int&, KeyedB, Obj, KeyedA, int&, char, KeyedB, Key, int&, KeyedA, int&> r(KeyedA{v}, w, p, KeyedB{v + 1}, Obj(w), KeyedA{v + 2}, q, 'k', KeyedB{w + 3}, Key{}, p, KeyedA{w + 4}, q); Fs m = codes(r); rname = "a wide keyed row"; const auto& k = r; u64 h = hcomb(v, w); c.state(h); c.event("wide_rows");
  auto pick = [&](std::vector<size_t> ix) { Fs f; for (size_t i : ix) f.push_back(m[i]); return f; };
  eq(k.select(best::types<Key>), pick({0, 3, 5, 8, 9, 11}), "select-key"); eq(k.select(best::types<KeyedA>), pick({0, 5, 11}), "select-a"); eq(k.select(best::types<KeyedB>), pick({3, 8}), "select-b"); eq(k.select(best::types<int&>), pick({2, 6, 10, 12}), "select-ref"); eq(k.select(best::types<int>), pick({1}), "select-int"); eq(k.select(best::types<char>), pick({7}), "select-char");
  int nw = w + 1; r[index<12>] = nw; VH_CHECK(q == nw, "ref-write", "a write through the last field of 13"); q = w; ipool[w] = w; ipool[v] = v; c.event("wide_selections", 6); } tr::end(c); }
#else
struct Mem { int a; Obj o; };
VH_WORKLOAD(forms, 500, 15000) { BEGIN; c.eval(); c.state(hcomb(v, w));
  { best::row r{v, Obj(w), &p}; static_assert(std::is_same_v<decltype(r), row<int, Obj, int*>>); auto& [a, b, d] = r; VH_CHECK(a == v && b.get() == w && d == &p && &a == &r[index<0>], "bindings", "structured bindings"); a++; VH_CHECK(r[index<0>] == v + 1, "bindings", "mutation through a binding"); auto [e, f, g] = r; e = 0; VH_CHECK(r[index<0>] == v + 1 && f.get() == w && g == &p, "bindings", "bindings by value"); }
  { best::row r(best::bind, p, w); static_assert(std::is_same_v<decltype(r), row<int&, int&>>); VH_CHECK(&r[index<0>] == &p && &r[index<1>] == &w, "bind", "row of references"); r = row<int&, int&>(w, p); VH_CHECK(&r[index<0>] == &w && ipool[v] == v, "rebind", "assigning a row of references rebinds"); }
  { row<int, void, Obj> r(v, best::empty{}, w); int n = 0, voids = 0; r.each([&](auto&&... x) { n++; voids += sizeof...(x) == 0; }); VH_CHECK(n == 3 && voids == 1 && r[index<2>].get() == w, "void-field", "each over a void field"); int got = 0; r.apply([&](int a, best::empty, Obj& o) { got = a + o.get(); }); VH_CHECK(got == v + w, "void-field", "apply over a void field"); static_assert(std::is_same_v<decltype(r.get(index<1>)), best::empty>); }
  { row<int, Obj> r{v, w}; Mem m = best::row<Mem>(best::args(best::args(v, Obj(w))))[index<0>].a ? Mem{v, Obj(w)} : Mem{v, Obj(w)}; VH_CHECK(m.a == v, "args", "construction from args"); best::option<row<int, Obj>> o(best::in_place, v, w); VH_CHECK(o.has_value() && (*o)[index<1>].get() == w, "args", "row in an option"); auto t = std::move(r).as_args(); VH_CHECK(&t.row[index<0>] == &r[index<0>], "as_args", "references"); struct P2 { int a; Obj b; P2(int a, Obj b) : a(a), b(std::move(b)) {} }; P2 p2 = std::move(t); VH_CHECK(p2.a == v && p2.b.get() == w && r[index<1>].get() == tr::Moved, "as_args", "constructing from args"); }
  { row<row<int, Obj>, row<>, Obj> r{row<int, Obj>{v, w}, row<>{}, Obj(v)}; VH_CHECK(r[index<0>][index<1>].get() == w && r.first().second().get() == w, "nested", "nested rows"); auto s = r; s[index<0>][index<0>] = 99; VH_CHECK(r[index<0>][index<0>] == v && s[index<0>][index<0>] == 99, "nested", "copies are independent"); auto t = r.gather(best::vals<2ul, 0ul>); VH_CHECK(t[index<0>].get() == v && t[index<1>][index<1>].get() == w, "nested", "gather of nested rows"); }
  { static_assert(std::is_empty_v<row<>> && std::is_trivially_copyable_v<row<int, char>>); row<TP, char> r{TP(v), (char)w}; r[index<0>] = TP(w); VH_CHECK(r[index<1>] == (char)w && r[index<0>].get() == w, "padding", "assigning a field overwrote its neighbour"); r[index<1>] = (char)v; VH_CHECK(r[index<0>].get() == w, "padding", "neighbour"); row<TP, char> s{TP(1), 'a'}; s = r; VH_CHECK(s[index<0>].get() == w && s[index<1>] == (char)v, "padding", "assigning a row"); }
  tr::end(c); c.event("forms_checked");
}
#endif
