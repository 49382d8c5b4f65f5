// C11: options and results. Every combinator, in every receiver category, on seeded histories of full and empty states,
// compared with its definition on std::optional<int>-like models; callbacks are counted and their arguments recorded.
#include "vh.h"
#include "track.h"
#include "best/base/guard.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/memory/span.h"
#include "best/container/vec.h"
#include "best/text/format.h"
#include "best/text/rune.h"
#include "best/text/str.h"
#include "best/text/utf8.h"
#include <optional>
using namespace vh;
using tr::Obj; using tr::Uniq; using tr::Rel; using tr::Align;
using best::option; using best::result; using best::none; using best::box;

namespace {
constexpr int P = 64; int ipool[P]; char cpool[P];
int nextv; int nv() { return nextv = nextv % (P - 2) + 1; }
using MV = std::optional<int>;  // the model of an option
template <class T> struct K { static int mk(int v) { return v; } static int rd(const T& t) { return t.get(); } static constexpr bool mv = true; };
template <> struct K<int> { static int mk(int v) { return v; } static int rd(const int& t) { return t; } static constexpr bool mv = false; };
template <> struct K<void> { static void mk(int) {} static int rd(auto&&...) { return 0; } };
template <> struct K<bool> { static bool mk(int v) { return v & 1; } static int rd(const bool& t) { return t; } static constexpr bool mv = false; };
template <> struct K<int&> { static int& mk(int v) { return ipool[v]; } static int rd(const int& t) { return (int)(&t - ipool); } static constexpr bool mv = false; };
template <> struct K<const int&> { static const int& mk(int v) { return ipool[v]; } static int rd(const int& t) { return (int)(&t - ipool); } static constexpr bool mv = false; };
template <> struct K<best::rune> { static best::rune mk(int v) { return *best::rune::from_int(v < 32 ? v : 0x10ffff - v); } static int rd(const best::rune& t) { return t.to_int() < 32 ? (int)t.to_int() : 0x10ffff - (int)t.to_int(); } static constexpr bool mv = false; };
template <> struct K<best::str> { static best::str mk(int v) { return best::str(best::unsafe("t"), best::span<const char>(cpool, v)); } static int rd(const best::str& t) { return (int)t.size(); } static constexpr bool mv = false; };
template <> struct K<best::span<int>> { static best::span<int> mk(int v) { return best::span<int>(ipool, v); } static int rd(const best::span<int>& t) { return (int)t.size(); } static constexpr bool mv = false; };
template <> struct K<box<int>> { static box<int> mk(int v) { return box<int>(v); } static int rd(const box<int>& t) { return *t; } static constexpr bool mv = true; };
template <> struct K<best::vec<Obj>> { static best::vec<Obj> mk(int v) { best::vec<Obj> r; r.push(v); return r; } static int rd(const best::vec<Obj>& t) { return t[0].get(); } static constexpr bool mv = true; };
template <class U> struct K<option<U>> { static option<U> mk(int v) { if (v & 1) return option<U>(best::in_place, K<U>::mk(v)); return none; } static int rd(const option<U>& t) { return t.has_value() ? K<U>::rd(*t) : 0; } static constexpr bool mv = K<U>::mv; };
template <class T> int norm(int v) { if constexpr (std::is_same_v<T, bool>) return v & 1; else if constexpr (best::is_option<T>) return v & 1 ? v : 0; else return v; }
template <class T> constexpr bool cp = !std::is_same_v<T, Uniq>;
std::string nmc(const char* pf) { std::string s = pf; auto p = s.find("T = "); return s.substr(p + 4, s.find_last_of("]") - p - 4); }
std::string ms(MV m) { return m ? fmt("full %d", *m) : "empty"; }

template <class T> void opts(Ctx& c) {
  using O = option<T>; using Kk = K<T>; static const std::string name = nmc(__PRETTY_FUNCTION__); std::string trace; trace.reserve(1024);
  nextv = (int)c.rng.below(P - 2); tr::begin(c, name.c_str()); u64 h = hstr(name);
  {
    constexpr int N = 2; O s[N]; MV m[N]; bool ok = true;
    auto bad = [&](const char* key, const std::string& d) { VH_FAIL(key, "option<%s>: %s (after %s)", name.c_str(), d.c_str(), trace.c_str()); ok = false; };
    auto isU = [&]<class U>(std::type_identity<U>, const auto& o, MV want, const char* what) { MV got; if (o.has_value()) got = K<U>::rd(*o); if (o.has_value() == o.is_empty() || (bool)o != o.has_value()) return bad("consistent", fmt("%s: has_value and is_empty agree", what)); if (got != want) bad(what, fmt("%s gave %s, not %s", what, ms(got).c_str(), ms(want).c_str())); };
    auto is = [&](const auto& o, MV want, const char* what) { isU(std::type_identity<T>{}, o, want, what); };
    auto isi = [&](const option<int>& o, MV want, const char* what) { isU(std::type_identity<int>{}, o, want, what); };
    auto mk = [&](MV v) -> O { if (v) return O(best::in_place, Kk::mk(*v)); return O(); };
    int steps = 5 + (int)c.rng.below(30);
    for (int t = 0; t < steps && ok; t++) {
      int i = (int)c.rng.below(N), j = 1 - i, op = (int)c.rng.below(26), v = nv(), nvv = norm<T>(v), calls = 0, arg = -9; MV was = m[i]; bool full = was.has_value(); size_t cat = c.rng.below(4);
      trace += fmt("%d(%d,%zu) ", op, i, cat); tr::op(trace.c_str()); h = hcomb(h, op * 16 + i * 8 + full * 4 + cat); if (m[0]) h = hcomb(h, 1);
      auto& x = s[i]; const auto& k = s[i]; bool consumed = false;  // `consumed`: the receiver may have been moved from
      auto rec = [&](auto&& y) { calls++; arg = K<T>::rd(y); };
      auto want_calls = [&](int n) { if (calls != n || (n && arg != *was)) bad("calls", fmt("callback ran %d times with %d, expected %d times with %d", calls, arg, n, was ? *was : -9)); };
      switch (op) {
        case 0: case 1: x.reset(); { auto&& r = x.emplace(Kk::mk(v)); if (K<T>::rd(r) != nvv) bad("emplace", "emplace's result"); } m[i] = nvv; c.event("emplaces"); break;
        case 2: { auto&& r = x.emplace(Kk::mk(v)); if (&r != x.as_ptr()) bad("emplace", "emplace's result"); m[i] = nvv; c.event("emplaces"); break; }
        case 3: if (v & 1) x.reset(); else x = none; m[i] = {}; c.event("resets"); break;
        case 4: if constexpr (cp<T>) { x = std::as_const(s[j]); m[i] = m[j]; c.event("assigns"); break; } [[fallthrough]];
        case 5: x = std::move(s[j]); m[i] = m[j]; m[j] = {}; s[j] = none; c.event("assigns"); break;
        case 6: if constexpr (!best::is_ref<T> && !std::is_same_v<T, bool> && !best::is_option<T>) { x = O(best::bind, T(Kk::mk(v))); m[i] = nvv; c.event("from_values"); } else if constexpr (best::is_ref<T>) { auto* p = v % 3 ? &Kk::mk(v) : nullptr; x = p; m[i] = p ? MV(v) : MV(); c.event("from_pointers"); } break;
        case 7: { auto&& r = x.or_emplace(Kk::mk(v)); if (&r != x.as_ptr()) bad("or_emplace", "or_emplace's result"); if (!full) m[i] = nvv; c.event("or_emplaces"); break; }
        case 8: { bool yes = v & 2; bool g = k.has_value([&](const auto& y) { rec(y); return yes; }); if (g != (full && yes)) bad("has_value(p)", "has_value with a predicate"); want_calls(full); c.event("predicates"); break; }
        case 9: { auto f = [&](auto&& y) { rec(y); return 1000 + arg; }; auto run = [&](option<int> r) { isi(r, full ? MV(1000 + *was) : MV(), "map"); }; if (cat == 0) run(k.map(f)); else if (cat == 1) run(x.map(f)); else if (cat == 2) run(k.map(f)); else run(std::move(x).map(f)); want_calls(full); c.event("maps"); break; }
        case 10: { auto f = [&](auto&& y) { rec(y); return 1000 + arg; }; int got; if (cat == 0) got = k.map(v, f); else if (cat == 1) got = x.map(v, f); else if (cat == 2) got = k.map(v, f); else got = std::move(x).map(v, f); if (got != (full ? 1000 + *was : v)) bad("map-default", fmt("map with a default gave %d", got)); want_calls(full); int dcalls = 0; calls = 0; int g2 = k.map([&] { dcalls++; return v; }, f); if (g2 != (full ? 1000 + *was : v) || dcalls != !full) bad("map-default", fmt("map with a default callback gave %d, default ran %d times", g2, dcalls)); want_calls(full); c.event("map_defaults"); break; }
        case 11: { auto f = [&](auto&& y) { rec(y); }; bool same; if (cat == 0) same = &k.inspect(f) == &x; else if (cat == 1) same = &x.inspect(f) == &x; else if (cat == 2) { auto&& r = k.inspect(f); same = &r == &x; } else { auto&& r = std::move(x).inspect(f); same = &r == &x; } if (!same) bad("inspect", "inspect returned another option"); want_calls(full); c.event("inspects"); break; }
        case 12: if constexpr (cp<T>) { MV b = c.rng.flip() ? MV(nvv) : MV(); is(k & mk(b), full ? b : MV(), "and"); is(k | mk(b), full ? was : b, "or"); is(k ^ mk(b), full == b.has_value() ? MV() : full ? was : b, "xor"); c.event("ands_ors_xors", 3); } break;
        case 13: { MV b = c.rng.flip() ? MV(nvv) : MV(); if (v & 2) is(std::move(x) | mk(b), full ? was : b, "or"); else { is(std::move(x) ^ mk(b), full == b.has_value() ? MV() : full ? was : b, "xor"); } consumed = true; c.event("ands_ors_xors"); break; }
        case 14: { bool yes = v & 2; auto f = [&](auto&& y) -> option<int> { rec(y); return yes ? option<int>(arg + 500) : none; }; auto run = [&](option<int> r) { isi(r, full && yes ? MV(*was + 500) : MV(), "then"); }; if (cat == 0) run(k.then(f)); else if (cat == 1) run(x.then(f)); else if (cat == 2) run(k.then(f)); else run(std::move(x).then(f)); want_calls(full); c.event("thens"); break; }
        case 15: { bool yes = v & 2; auto p = [&](const auto& y) { rec(y); return yes; }; if (cp<T> && cat < 2) { if constexpr (cp<T>) is(k.filter(p), yes ? was : MV(), "filter"); } else { is(std::move(x).filter(p), yes ? was : MV(), "filter"); consumed = true; } want_calls(full); c.event("filters"); break; }
        case 16: { int dcalls = 0; using V = best::as_auto<T>; auto val = [&](const V& y) { if constexpr (best::is_ref<T>) return y; else return K<T>::rd(y); }; auto dflt = [&](int q) { if constexpr (best::is_ref<T>) return ipool[q]; else return norm<T>(q); }; int want = full ? (best::is_ref<T> ? ipool[*was] : *was) : dflt(v); auto cb = [&]() -> V { dcalls++; return V(Kk::mk(v)); };
          if constexpr (cp<T>) { int g = val(k.value_or(Kk::mk(v))), g2 = val(k.value_or(cb)); if (g != want || g2 != want || dcalls != !full) bad("value_or", fmt("value_or gave %d and %d (default ran %d times), not %d", g, g2, dcalls, want)); }
          dcalls = 0; int g3 = v & 2 ? val(std::move(x).value_or(Kk::mk(v))) : val(std::move(x).value_or(cb)); if (g3 != want || (!(v & 2) && dcalls != !full)) bad("value_or", fmt("rvalue value_or gave %d, not %d", g3, want)); consumed = true; c.event("value_ors"); break; }
        case 17: if constexpr (cp<T>) { auto q = k.copy(); using V = best::as_auto<T>; if constexpr (best::is_ref<T>) { static_assert(std::is_same_v<decltype(q), option<int>>); if (q.has_value() != full || (full && *q != ipool[*was])) bad("copy", "copy of a reference"); } else { is(q, was, "copy"); } c.event("copies"); } break;
        case 18: { is(k.as_ref(), was, "as_ref"); is(x.as_ref(), was, "as_ref"); if (full) { if (&*k.as_ref() != k.as_ptr() || &*x.as_ref() != x.as_ptr()) bad("as_ref", "as_ref refers to another object"); } auto rr = std::move(x).as_ref(); is(rr, was, "as_ref"); auto cr = k.as_ref(); is(cr, was, "as_ref"); if (k.as_object().has_value() != full || x.as_object().has_value() != full) bad("as_object", "as_object"); if (std::move(x).as_object().has_value() != full || k.as_object().has_value() != full) bad("as_object", "rvalue as_object"); c.event("as_refs", 4); break; }
        case 19: if (full) { auto&& a = *k; auto&& b = *x; auto&& d = k.value(); auto&& e = std::move(x).value(); auto&& f = k.value(best::unsafe("t")); const void* ps[] = {&a, &b, &d, &e, &f, k.as_ptr(), x.as_ptr(), k.operator->(), x.operator->()}; for (auto p : ps) if (p != ps[0]) bad("access", "accessors name different objects"); if (K<T>::rd(a) != *was) bad("access", "wrong value"); c.event("accesses", 9); }
          else { if (k.as_ptr() != nullptr || x.as_ptr() != nullptr) bad("as_ptr", "as_ptr of an empty option"); if (c.rng.chance(1, 15)) { auto die = [&](auto f) { auto d = in_child(f); if (d.kind != Death::Crashed || d.err.find("unwrapped a best::none") == d.err.npos) bad("unwrap", "reading an empty option did not crash cleanly: " + d.err.substr(0, 200)); }; int f = (int)c.rng.below(6); die([&] { switch (f) { case 0: (void)*k; break; case 1: (void)*x; break; case 2: (void)x.value(); break; case 3: (void)std::move(x).value(); break; case 4: (void)x.operator->(); break; default: (void)*k; } }); c.event("crashing_accesses"); } } break;
        case 20: if constexpr (cp<T>) { // the error side is only made when needed; the receiver is left alone
          int ecalls = 0; auto eb = [&] { ecalls++; return v; }; auto rs = [&](auto&& r, const char* w) { using Rr = std::remove_cvref_t<decltype(r)>; MV got; if (r.is_ok()) { auto o = r.ok(); if constexpr (requires { K<T>::rd(*o); }) got = K<T>::rd(*o); } else if (*r.err() != v) return bad(w, fmt("%s carries error %d", w, *r.err())); if (got != was) bad(w, fmt("%s gave %s, not %s", w, ms(got).c_str(), ms(was).c_str())); };
          auto es = [&](auto&& r, const char* w) { MV got; if (r.is_err()) { auto o = r.err(); got = K<T>::rd(*o); } else if (*r.ok() != v) return bad(w, fmt("%s carries %d", w, *r.ok())); if (got != was) bad(w, fmt("%s gave %s, not %s", w, ms(got).c_str(), ms(was).c_str())); };
          switch (v % 3) { case 0: rs(k.template ok_or<int>(v), "ok_or"); is(k, was, "ok_or-receiver"); rs(x.template ok_or<int>(v), "ok_or"); is(k, was, "ok_or-receiver"); es(k.template err_or<int>(v), "err_or"); es(x.template err_or<int>(v), "err_or"); break;
            case 1: rs(k.ok_or(v), "ok_or"); is(k, was, "ok_or-receiver"); rs(x.ok_or(v), "ok_or"); is(k, was, "ok_or-receiver"); es(k.err_or(v), "err_or"); es(x.err_or(v), "err_or"); break;
            default: rs(k.ok_or(eb), "ok_or"); is(k, was, "ok_or-receiver"); rs(x.ok_or(eb), "ok_or"); is(k, was, "ok_or-receiver"); if (ecalls != 2 * !full) bad("ok_or-calls", fmt("ok_or's callback ran %d times", ecalls)); es(k.err_or(eb), "err_or"); es(x.err_or(eb), "err_or"); if (ecalls != 4 * !full) bad("err_or-calls", fmt("err_or's callback ran %d times", ecalls)); } c.event("ok_ors", 4); } break;
        case 21: { int ecalls = 0; auto eb = [&] { ecalls++; return v; }; bool isok = true; MV got; int e = v; auto un = [&](auto&& r, auto okside) { if constexpr (okside.value) { isok = r.is_ok() == full; if (r.is_ok()) got = K<T>::rd(*r.ok()); else e = *r.err(); } else { isok = r.is_err() == full; if (r.is_err()) got = K<T>::rd(*r.err()); else e = *r.ok(); } }; switch (v % 6) { case 0: un(std::move(x).template ok_or<int>(v), std::true_type{}); break; case 1: un(std::move(x).ok_or(v), std::true_type{}); break; case 2: un(std::move(x).ok_or(eb), std::true_type{}); break; case 3: un(std::move(x).template err_or<int>(v), std::false_type{}); break; case 4: un(std::move(x).err_or(v), std::false_type{}); break; default: un(std::move(x).err_or(eb), std::false_type{}); } if (!isok || got != was || e != v) bad("ok_or", fmt("rvalue ok_or/err_or form %d", v % 6)); consumed = true; c.event("ok_ors"); break; }
        case 22: if constexpr (best::is_object<T> && !best::is_option<T> && !std::is_same_v<T, bool>) { option<T&> r = x; is(r, was, "to-reference"); option<const T&> q = k; is(q, was, "to-reference"); if (full && (&*r != x.as_ptr() || &*q != x.as_ptr())) bad("to-reference", "refers to another object"); if constexpr (cp<T>) { option<T> back = r.copy(); is(back, was, "from-reference"); } if constexpr (std::is_same_v<T, int>) { option<long> l = k; if (l.has_value() != full || (full && *l != *was)) bad("widen", "conversion to option<long>"); option<double> dd; dd = x; if (dd.has_value() != full || (full && *dd != *was)) bad("widen", "assignment to option<double>"); } c.event("conversions"); } break;
        case 23: { auto f = [&]() -> option<int> { BEST_GUARD(x); calls++; return 5; }; auto r = f(); if (r.has_value() != full || calls != full) bad("guard", "BEST_GUARD on an option"); c.event("guards"); break; }
        case 24: if constexpr (cp<T>) { option<O> nest(best::in_place, k); if (!nest.has_value()) { bad("nested", "an option holding an empty option is empty"); break; } is(*nest, was, "nested"); option<O> e = none; if (e.has_value()) bad("nested", "empty option of option is full"); nest = none; if (nest.has_value()) bad("nested", "emptied option of option is full"); nest.emplace(); if (!nest.has_value() || nest->has_value()) bad("nested", "option of an emplaced empty option"); c.event("nested"); } break;
        default: { if (full != (k != none) || (k == none) == full || ((k <=> none) == 0) == full || (k > none) != full) bad("none", "comparison with none"); c.event("compared_to_none"); break; }
      }
      if (consumed) { x = mk(was); }
      for (int q = 0; q < N && ok; q++) { c.eval(); is(s[q], m[q], "state"); }
      c.state(h);
    }
    if (!ok) { for (auto& x : s) new O(std::move(x)); tr::reg().c = nullptr; return; }
  }
  tr::end(c);
}

// ---- results ----
template <class T, class E> void res(Ctx& c) {
  using Rs = result<T, E>; static const std::string name = nmc(__PRETTY_FUNCTION__); std::string trace; trace.reserve(1024);
  nextv = (int)c.rng.below(P - 2); tr::begin(c, name.c_str()); u64 h = hstr(name); constexpr bool vt = best::is_void<T>, ve = best::is_void<E>, copyable = cp<T> && cp<E>;
  {
    std::optional<Rs> s[2]; bool okm[2] = {}; int m[2] = {}; bool ok = true;
    auto bad = [&](const char* key, const std::string& d) { VH_FAIL(key, "result<%s>: %s (after %s)", name.c_str(), d.c_str(), trace.c_str()); ok = false; };
    auto put = [&](int i, bool o, int v) { s[i].reset(); if (o) { if constexpr (vt) s[i].emplace(best::ok()); else s[i].emplace(best::ok(K<T>::mk(v))); } else { if constexpr (ve) s[i].emplace(best::err()); else s[i].emplace(best::err(K<E>::mk(v))); } okm[i] = o; m[i] = o ? (vt ? 0 : norm<T>(v)) : ve ? 0 : norm<E>(v); };
    auto val = [&](const auto& r, bool o) -> int { if (o) { if constexpr (vt) return 0; else return K<T>::rd(*r.ok()); } else { if constexpr (ve) return 0; else return K<E>::rd(*r.err()); } };
    auto is = [&](const auto& r, bool o, int v, const char* what) { if (r.is_ok() != o || r.is_err() == o || (bool)r != o || r.ok().has_value() != o || r.err().has_value() == o) return bad(what, fmt("%s: wrong side", what)); if (val(r, o) != v) bad(what, fmt("%s: holds %d, not %d", what, val(r, o), v)); };
    put(0, c.rng.flip(), nv()); put(1, c.rng.flip(), nv());
    int steps = 4 + (int)c.rng.below(20);
    for (int t = 0; t < steps && ok; t++) {
      int i = (int)c.rng.below(2), j = 1 - i, op = (int)c.rng.below(12), v = nv(), calls = 0, arg = 0; size_t cat = c.rng.below(4); bool o = okm[i]; int was = m[i]; bool consumed = false;
      trace += fmt("%d(%d,%zu) ", op, i, cat); tr::op(trace.c_str()); h = hcomb(h, op * 16 + i * 8 + o * 4 + cat); Rs& x = *s[i]; const Rs& k = x;
      auto rok = [&](auto&&... y) { calls++; if constexpr (sizeof...(y) > 0 && !vt) arg = K<T>::rd(y...); return arg + 1000; }; auto rerr = [&](auto&&... y) { calls++; if constexpr (sizeof...(y) > 0 && !ve) arg = K<E>::rd(y...); return arg + 1000; };
      auto want_calls = [&](int n) { if (calls != n || (n && arg != was)) bad("calls", fmt("callback ran %d times with %d, expected %d times with %d", calls, arg, n, was)); };
      switch (op) {
        case 0: put(i, v & 1, v); c.event("result_makes"); break;
        case 1: if constexpr (copyable) { x = std::as_const(*s[j]); okm[i] = okm[j]; m[i] = m[j]; c.event("result_assigns"); break; } [[fallthrough]];
        case 2: x = std::move(*s[j]); okm[i] = okm[j]; m[i] = m[j]; put(j, okm[j], m[j]); c.event("result_assigns"); break;
        case 3: case 4: { auto chk = [&](auto r) { static_assert(std::is_same_v<decltype(r), result<int, E>>); if (r.is_ok() != o) return bad("result-map", "map changed the side"); if (o) { if (*r.ok() != was + 1000) bad("result-map", fmt("map gave %d", *r.ok())); } else if constexpr (!ve) { if (K<E>::rd(*r.err()) != was) bad("result-map", "map changed the error"); } }; bool mv_ = !copyable || cat == 3; if (!mv_) { if constexpr (copyable) { if (cat == 0) chk(k.map(rok)); else if (cat == 1) chk(x.map(rok)); else chk(k.map(rok)); } } else { chk(std::move(x).map(rok)); consumed = true; } want_calls(o); c.event("result_maps"); break; }
        case 5: case 6: { auto chk = [&](auto r) { static_assert(std::is_same_v<decltype(r), result<T, int>>); if (r.is_ok() != o) return bad("map_err", "map_err changed the side"); if (!o) { if (*r.err() != was + 1000) bad("map_err", fmt("map_err gave %d", *r.err())); } else if constexpr (!vt) { if (K<T>::rd(*r.ok()) != was) bad("map_err", "map_err changed the value"); } }; bool mv_ = !copyable || cat == 3; if (!mv_) { if constexpr (copyable) { if (cat == 0) chk(k.map_err(rerr)); else if (cat == 1) chk(x.map_err(rerr)); else chk(k.map_err(rerr)); } } else { chk(std::move(x).map_err(rerr)); consumed = true; } want_calls(!o); c.event("result_map_errs"); break; }
        case 7: case 8: { bool yes = v & 2; auto f = [&](auto&&... y) -> result<int, E> { rok(y...); if (yes) return best::ok(arg + 7); if constexpr (ve) return best::err(); else return best::err(K<E>::mk(v)); }; auto chk = [&](auto r) { bool w = o && yes; if (r.is_ok() != w) return bad("result-then", "wrong side"); if (w) { if (*r.ok() != was + 7) bad("result-then", "wrong value"); } else if constexpr (!ve) { int wv = o ? norm<E>(v) : was; if (K<E>::rd(*r.err()) != wv) bad("result-then", fmt("error %d, not %d", K<E>::rd(*r.err()), wv)); } }; bool mv_ = !copyable || cat == 3; if (!mv_) { if constexpr (copyable) { if (cat == 0) chk(k.then(f)); else if (cat == 1) chk(x.then(f)); else chk(k.then(f)); } } else { chk(std::move(x).then(f)); consumed = true; } want_calls(o); c.event("result_thens"); break; }
        case 9: if constexpr (!ve) { if (o) { if constexpr (!vt) { auto&& a = *k; auto&& b = *x; auto&& d = *std::move(x); auto&& oo = *x.ok(); auto&& o2 = *std::move(x).ok(); auto&& o3 = *k.ok(); const void* ps[] = {&a, &b, &d, &oo, &o2, &o3, k.operator->(), x.operator->()}; for (auto p : ps) if (p != ps[0]) bad("result-access", "accessors name different objects"); } else { (void)*k; } c.event("result_accesses"); }
          else { if constexpr (!ve) { auto&& a = *k.err(); auto&& b = *x.err(); auto&& d = *std::move(x).err(); auto&& e = *k.err(); const void* ps[] = {&a, &b, &d, &e}; for (auto p : ps) if (p != ps[0]) bad("result-access", "accessors name different objects"); } if (c.rng.chance(1, 6)) { auto d = in_child([&] { int f = (int)c.rng.below(3); if (f == 0) *k; else if (f == 1) *std::move(x); else { if constexpr (!vt) (void)k.operator->(); else *x; } }); if (d.kind != Death::Crashed || d.err.find("unwrapped a best::err(") == d.err.npos) bad("result-unwrap", "reading the value of an error did not crash cleanly: " + d.err.substr(0, 200)); c.event("crashing_accesses"); } } } break;
        case 10: { if constexpr (!ve && std::is_same_v<E, int>) { auto f = [&]() -> result<double, int> { BEST_GUARD(k); calls++; return best::ok(1.5); }; auto r = f(); if (r.is_ok() != o || calls != o || (!o && *r.err() != was)) bad("result-guard", "BEST_GUARD on a result"); auto g = [&]() -> result<void, long> { BEST_GUARD(x) + 3; return best::ok(); }; auto q = g(); if (q.is_ok() != o || (!o && *q.err() != was + 3)) bad("result-guard", "BEST_GUARD with a postfix"); c.event("result_guards"); } break; }
        default: if constexpr (copyable && !vt && !ve && best::is_object<T> && best::is_object<E>) { result<T&, E&> r = x; if (r.is_ok() != o || val(x, o) != was || (o ? (const void*)&*r.ok() != &*x.ok() : (const void*)&*r.err() != &*x.err())) bad("result-to-reference", "conversion to a result of references"); if constexpr (std::is_same_v<T, int>) { result<long, E> w2(best::err(K<E>::mk(1))); (void)w2; } c.event("result_conversions"); } else if constexpr (!vt && !ve && copyable) { c.event("result_conversions", 0); }
          { if constexpr (vt) { if ((k == best::ok()) != o || (k == best::err()) == o) bad("side", "comparison with ok()"); } if ((k == best::ok()) != o || (k == best::err()) == o) bad("side", "comparison with a side"); } break;
      }
      if (consumed) put(i, o, was);
      for (int q = 0; q < 2 && ok; q++) { c.eval(); is(*s[q], okm[q], m[q], "result-state"); }
      c.state(h);
    }
    if (!ok) { for (auto& x : s) new std::optional<Rs>(std::move(x)); tr::reg().c = nullptr; return; }
  }
  tr::end(c);
}
}  // namespace
#define ROT(...) static void (*const fs[])(Ctx&) = {__VA_ARGS__}; fs[c.rng.below(sizeof(fs) / sizeof(fs[0]))](c)
#define SETUP static bool once = [] { for (int i = 0; i < P; i++) ipool[i] = 300 + i; return true; }(); (void)once
#if defined(PART_A)
VH_WORKLOAD(plain, 3000, 80000) { SETUP; ROT(opts<int>, opts<Obj>, opts<Uniq>, opts<Align>, opts<bool>, opts<best::vec<Obj>>); }
#elif defined(PART_B)
VH_WORKLOAD(niches, 3000, 80000) { SETUP; ROT(opts<box<int>>, opts<best::rune>, opts<best::str>, opts<best::span<int>>, opts<Rel>); }
#elif defined(PART_C)
VH_WORKLOAD(nested, 3000, 80000) { SETUP; ROT(opts<int&>, opts<const int&>, opts<option<int>>, opts<option<box<int>>>, opts<option<int&>>); }
#else
VH_WORKLOAD(results, 3000, 80000) { SETUP; ROT((res<int, int>), (res<Obj, int>), (res<void, int>), (res<int, void>), (res<Uniq, Obj>), (res<box<int>, int>), (res<int&, int>), (res<option<int>, int>), (res<Obj, Uniq>)); }
VH_WORKLOAD(voids, 600, 10000) {
  SETUP; int v = nv(), calls = 0; c.eval(); c.state(v * 2); bool full = v & 1; option<void> o; if (full) o.emplace(); const auto& k = o;
  VH_CHECK(o.has_value() == full && o.is_empty() != full, "void", "state"); auto r = k.map([&] { calls++; return v; }); VH_CHECK(r.has_value() == full && calls == full && (!full || *r == v), "void-map", "map"); calls += full;
  auto r3 = k.then([&]() -> option<int> { calls++; return v; }); VH_CHECK(r3.has_value() == full && calls == 3 * full, "void-then", "then"); o.inspect([&] { calls++; }); VH_CHECK(calls == 4 * full, "void-inspect", "inspect"); VH_CHECK(k.has_value([&] { calls++; return (bool)(v & 2); }) == (full && (v & 2)), "void-predicate", "has_value(p)");
  auto e = k.ok_or(v); VH_CHECK(e.is_ok() == full && (full || *e.err() == v), "void-ok_or", "ok_or"); auto e2 = o.ok_or([&] { return v; }); VH_CHECK(e2.is_ok() == full, "void-ok_or", "ok_or(callback)"); auto e3 = k.template err_or<int>(v); VH_CHECK(e3.is_err() == full, "void-err_or", "err_or");
  option<int> oi = full ? option<int>(v) : none; option<int&> ref = oi; auto mm = ref.map([](int& x) -> int& { return x; }); VH_CHECK(mm.has_value() == full && (!full || &*mm == &*oi), "map-reference", "map to a reference"); auto rr = o; VH_CHECK(rr == o && (rr == none) == !full, "void-compare", "comparison"); o.reset(); VH_CHECK(!o.has_value(), "void", "reset"); o = rr; VH_CHECK(o.has_value() == full, "void", "assign"); VH_CHECK(best::VoidOption.has_value(), "void", "VoidOption"); if (!full) VH_MUST_CRASH("void-unwrap", "*option<void>()", *rr); else *rr;
  c.event("void_checks");
}
#endif
