// C24: function references, interfaces, deferred actions, taps, calls, arrows and guards against an event log: every target
// records who ran on which object with which arguments.
#include <memory>
#include <optional>
#include "vh.h"
#include "track.h"
#include "best/func/fnref.h"
#include "best/func/dyn.h"
#include "best/func/defer.h"
#include "best/func/tap.h"
#include "best/func/arrow.h"
#include "best/base/guard.h"
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/result.h"
#ifdef PART_A
#define PARTNS pa
#elif defined PART_B
#define PARTNS pb
#elif defined PART_C
#define PARTNS pc
#else
#define PARTNS pd
#endif
namespace PARTNS {
using namespace vh;
struct Ev { int who; const void* on; i64 a, b; bool operator==(const Ev&) const = default; };
static std::vector<Ev> LOG;
static void note(int who, const void* on, i64 a = 0, i64 b = 0) { HeapPause hp; LOG.push_back({who, on, a, b}); }
static i64 mx(i64 who, i64 a, i64 b) { return (i64)(mix((u64)who * 7919 + (u64)a * 31 + (u64)b) % 1000003); }
// What ran must be exactly `want`.
static void ran(Ctx& c, const char* key, const std::string& what, std::vector<Ev> want) {
  if (LOG != want) { std::string s; for (auto& e : LOG) s += vh::fmt(" [%d on %p with %lld,%lld]", e.who, e.on, (long long)e.a, (long long)e.b); std::string w; for (auto& e : want) w += vh::fmt(" [%d on %p with %lld,%lld]", e.who, e.on, (long long)e.a, (long long)e.b); VH_FAIL(key, "%s: ran%s; must run%s", what.c_str(), s.c_str(), w.c_str()); }
  LOG.clear();
}

#ifdef PART_A
static int free0(int a, int b) { note(1, nullptr, a, b); return (int)mx(1, a, b); }
static int free1(int a, int b) { note(2, nullptr, a, b); return (int)mx(2, a, b); }
static int free2(int a, int b) noexcept { note(3, nullptr, a, b); return (int)mx(3, a, b); }
struct Fn { int who; mutable int calls = 0; int state = 0; int operator()(int a, int b) const { note(who, this, a, b); calls++; return (int)mx(who, a, b); } };
struct MutFn { int who; int sum = 0; int operator()(int a, int b) { sum = (int)((u32)sum + (u32)a); note(who, this, a, b); return (int)mx(who, a, (int)((u32)b + (u32)sum)); } };
// Which one runs depends on the constness.
struct Both { int who; int operator()(int a, int b) { note(who, this, a, b); return (int)mx(who, a, b); } int operator()(int a, int b) const { note(who + 1, this, a, b); return (int)mx(who + 1, a, b); } };
struct Padded { char pad[40] = {}; int who; int operator()(i64 a, i64 b) const { note(who, this, a, b); return (int)mx(who, a, b); } };  // other argument types
template <class F> void pool(Ctx& c) {
  constexpr bool cst = F::is_const; auto& g = c.rng; LOG.clear();
  Fn fs[3] = {{10}, {11}, {12}}; const Fn cf{13}; MutFn ms[2] = {{20}, {21}}; Both bo{30}; const Both cbo{40}; Padded pd{.who = 50};
  int capt = 0; auto lam = [&capt](int a, int b) { capt++; note(60, &capt, a, b); return (int)mx(60, a, b); };
  auto nocap = [](int a, int b) { note(61, nullptr, a, b); return (int)mx(61, a, b); };
  auto gen = [&capt](auto a, auto b) { note(62, &capt, a, b); return (int)mx(62, a, b); };
  int (*fp)(int, int) = free1;
  best::fnref<int(int, int) const> inner = fs[2];
  struct T { F f; int kind; }; std::vector<T> v;  // a pool of references
  auto make = [&](int k) -> F { switch (k) {
    case 0: return free0; case 1: return &free1; case 2: return free2; case 3: return fs[0]; case 4: return fs[1]; case 5: return cf; case 6: if constexpr (cst) return (const Both&)bo; else return bo;
    case 7: return cbo; case 8: return pd; case 9: return lam; case 10: return nocap; case 11: return gen; case 12: return fp; case 13: if constexpr (cst) return inner; else return best::fnref<int(int, int)>(inner);
    case 14: { typename F::fnptr raw = [](const Fn& f, int a, int b) { return f(b, a); }; return F(best::unsafe{"a Fn"}, &fs[1], raw); }
    case 15: return nullptr;
    case 16: if constexpr (!cst) return ms[0]; else return fs[0]; default: if constexpr (!cst) return ms[1]; else return cf; } };
  auto expect = [&](int k, int a, int b) -> Ev { switch (k) {
    case 0: return {1, nullptr, a, b}; case 1: case 12: return {2, nullptr, a, b}; case 2: return {3, nullptr, a, b}; case 3: return {10, &fs[0], a, b}; case 4: return {11, &fs[1], a, b}; case 5: return {13, &cf, a, b};
    case 6: return {cst ? 31 : 30, &bo, a, b}; case 7: return {41, &cbo, a, b}; case 8: return {50, &pd, a, b}; case 9: return {60, &capt, a, b}; case 10: return {61, nullptr, a, b}; case 11: return {62, &capt, a, b}; case 13: return {12, &fs[2], a, b};
    case 14: return {11, &fs[1], b, a}; case 16: return cst ? Ev{10, &fs[0], a, b} : Ev{20, &ms[0], a, b}; default: return cst ? Ev{13, &cf, a, b} : Ev{21, &ms[1], a, b}; } };
  // A nested reference to a local reference would dangle: 13 is only used for immediate calls when mutable.
  std::string hist; i64 sums[2] = {0, 0};
  for (int step = 0; step < 24; step++) {
    int k = (int)g.below(18); if (!cst && k == 13) k = 3;
    switch (g.below(4)) {
      case 0: v.push_back({make(k), k}); hist += vh::fmt(" new(%d)", k); break;
      case 1: if (!v.empty()) { size_t i = g.below(v.size()); v[i].f = make(k); v[i].kind = k; hist += vh::fmt(" set(%zu,%d)", i, k); c.event("rebinds"); } break;
      case 2: if (!v.empty()) { size_t i = g.below(v.size()), j = g.below(v.size()); v[i] = v[j]; hist += vh::fmt(" copy(%zu,%zu)", i, j); } break;
      default: break;
    }
    if (v.empty()) continue;
    size_t i = g.below(v.size()); auto& t = v[i];
    bool null = t.kind == 15; VH_CHECK((t.f == nullptr) == null && (nullptr == t.f) == null && (bool)t.f == !null && (t.f != nullptr) == !null, "null", "%s: reference of kind %d: is null: %d", hist.c_str(), t.kind, t.f == nullptr); c.event("null_checks");
    if (null) continue;
    int a = g.edge<int>() / 4, b = g.edge<int>() / 4; Ev e = expect(t.kind, a, b); int r;
    if constexpr (cst) { const F& cf2 = t.f; r = cf2(a, b); } else r = t.f(a, b);
    i64 extra = 0; if (e.who == 20 || e.who == 21) { sums[e.who - 20] += a; extra = (int)((u32)sums[e.who - 20]); }
    int want = (int)mx(e.who, e.a, e.b); if (e.who == 20 || e.who == 21) want = (int)mx(e.who, e.a, (int)((u32)e.b + (u32)extra));
    VH_CHECK(r == want, "result", "%s: call of kind %d with %d,%d returned %d, must be %d", hist.c_str(), t.kind, a, b, r, want);
    ran(c, "call", hist + vh::fmt(" call(%zu of kind %d)", i, t.kind), {e}); c.event("calls"); c.event(vh::fmt("kind_%d", t.kind).c_str());
  }
  c.state(hcomb(hstr(hist), cst)); c.eval(); if (g.chance(1, 500)) c.sample(hist);
}
VH_WORKLOAD(refs_const, 4000, 400000) { pool<best::fnref<int(int, int) const>>(c); }
VH_WORKLOAD(refs_mutable, 4000, 400000) { pool<best::fnref<int(int, int)>>(c); }

// Argument and result passing.
struct Rr { int v; int id = 0; int get(int k) const { note(70, this, v, k); return v * 3 + k; } int& at(int k) { note(71, this, v, k); return v; } int val() const { return v; } };
static int via(best::fnref<int(int) const> f, int x) { return f(x); }
static int fold(best::fnref<int(int, int)> f, int n) { int acc = 1; for (int i = 0; i < n; i++) acc = f(acc, i); return acc; }
VH_WORKLOAD(passing, 3000, 200000) {
  auto& g = c.rng; LOG.clear(); tr::begin(c, "calls through references"); int x = (int)g.range(-1000, 1000);
  {  // by value: moved, never copied, even through several layers
    auto take = [](tr::Uniq u) { return u.get(); }; best::fnref<int(tr::Uniq)> f = take; VH_CHECK(f(tr::Uniq(x)) == x, "move-only-arg", "move-only argument %d arrived wrong", x);
    int seen = 0; auto byval = [&](tr::Obj o) { seen = o.get(); }; best::fnref<void(tr::Obj)> h = byval; u64 cp = tr::reg().copies; h(tr::Obj(x)); VH_CHECK(seen == x && tr::reg().copies == cp, "arg-copied", "an argument passed by value arrived as %d (sent %d) after %llu copies", seen, x, (unsigned long long)(tr::reg().copies - cp));
    tr::Obj lv(x + 1); cp = tr::reg().copies; h(lv); VH_CHECK(seen == x + 1 && tr::reg().copies == cp + 1 && lv.get() == x + 1, "lvalue-arg", "an lvalue passed by value was not copied exactly once");
    best::fnref<void(const tr::Obj&) const> q = [](const tr::Obj& o) { note(80, &o, o.get()); }; cp = tr::reg().copies; u64 mv = tr::reg().moves; q(lv); VH_CHECK(tr::reg().copies == cp && tr::reg().moves == mv, "ref-arg", "a reference argument was copied"); ran(c, "ref-arg", "const reference argument", {{80, &lv, x + 1, 0}});
    auto sink = [](tr::Obj&& o) { note(81, &o, o.get()); }; best::fnref<void(tr::Obj&&)> rr = sink; rr(std::move(lv)); ran(c, "rref-arg", "rvalue reference argument", {{81, &lv, x + 1, 0}}); VH_CHECK(lv.get() == x + 1, "rref-arg", "an rvalue reference argument was consumed on the way");
    auto mk = [](int k) { return tr::Uniq(k); }; best::fnref<tr::Uniq(int)> ret = mk; VH_CHECK(ret(x).get() == x, "move-only-result", "move-only result");
    c.event("owned_passes", 6);
  }
  {  // references in and out
    Rr a{x}, b{x + 5}; auto pick = [&](bool k) -> Rr& { return k ? a : b; }; best::fnref<Rr&(bool)> f = pick; VH_CHECK(&f(true) == &a && &f(false) == &b, "ref-result", "a reference result refers elsewhere");
    best::fnref<int(const Rr&, int)> m = &Rr::get; (void)m; auto direct = [&](best::fnref<int(const Rr&, int)> q) { return q(a, 4); }; VH_CHECK(direct(&Rr::get) == x * 3 + 4, "member", "a member function reference"); ran(c, "member", "member function", {{70, &a, x, 4}});
    auto field = [&](best::fnref<int&(Rr&)> q) -> int& { return q(b); }; VH_CHECK(&field(&Rr::v) == &b.v, "field", "a data member reference");
    auto ptr = [&](best::fnref<int(Rr*, int)> q) { return q(&b, 2); }; VH_CHECK(ptr(&Rr::get) == (x + 5) * 3 + 2, "member-pointer", "a member function on a pointer"); ran(c, "member-pointer", "member function on a pointer", {{70, &b, x + 5, 2}});
    // converting results and arguments, discarding results
    auto narrow = [&](short s) -> short { note(90, nullptr, s); return (short)(s + 1); }; best::fnref<i64(i64)> w = narrow; VH_CHECK(w(x) == x + 1, "convert", "converted call gives %lld", (long long)w(x)); LOG.clear();
    auto loud = [&](int k) { note(91, nullptr, k); return k; }; best::fnref<void(int)> v = loud; v(x); ran(c, "void", "discarded result", {{91, nullptr, x, 0}});
    c.event("reference_passes", 6);
  }
  {  // temporaries live for the call
    int k = x; VH_CHECK(via([&](int y) { return y + k; }, 7) == x + 7, "temporary", "a temporary closure"); VH_CHECK(via([](int y) { return y * 2; }, 7) == 14, "temporary", "a temporary function"); VH_CHECK(via([s = std::string(40, 'q')](int y) { return y + (int)s.size(); }, 7) == 47, "temporary", "a temporary closure with state");
    int n = (int)g.below(12), cnt = 0, want = 1; for (int i = 0; i < n; i++) want = (int)((u32)want * 3u + (u32)i + (u32)i); VH_CHECK(fold([cnt2 = 0](int acc, int i) mutable { return (int)((u32)acc * 3u + (u32)i + (u32)cnt2++); }, n) == want, "mutable-temporary", "a mutable closure keeps its state between calls"); (void)cnt;
    c.event("temporaries", 4);
  }
  tr::end(c); c.state(hcomb((u64)x, g.s)); c.eval();
}
static_assert(best::constructible<best::fnref<int(int) const>, int (*)(int)>);
namespace { auto mutl = [y = 0](int x) mutable { return y += x; }; }
template <class F, class T> concept takes = requires(T t) { F(t); };
static_assert(!takes<best::fnref<int(int) const>, decltype(mutl)&> && takes<best::fnref<int(int)>, decltype(mutl)&> && !takes<best::fnref<int*(int) const>, int (*)(int)>);
static_assert(best::callable<decltype(mutl)&, int(int)> && !best::callable<const decltype(mutl)&, int(int)> && !best::callable<decltype(mutl)&, int(int, int)>);
static_assert(best::callable<int (*)(int), void(char)> && !best::callable<int (*)(int*), void(char)>);

// call(): functions, members, explicit template arguments.
struct Tm { template <class T> int operator()(T t) const { note(100, this, (i64)sizeof(T), (i64)t); return (int)sizeof(T); } template <auto k, auto j> int operator()(int t) const { note(101, this, k + j, t); return k; } };
struct Mm { int v; int ro(int k) const& { note(110, this, k); return v + k; } int rw(int k) & { note(111, this, k); return v += k; } int mv(int k) && { note(112, this, k); return v * k; } };
static int over(int) { return 1; } static int over(double) { return 2; } static int over(const char*) { return 3; }
VH_WORKLOAD(calls, 2000, 100000) {
  auto& g = c.rng; LOG.clear(); int x = (int)g.range(-100, 100), k = (int)g.range(-100, 100);
  VH_CHECK(best::call(free0, x, k) == mx(1, x, k) && best::call(&free1, x, k) == mx(2, x, k), "call", "call of a function"); ran(c, "call", "call of functions", {{1, nullptr, x, k}, {2, nullptr, x, k}});
  Mm m{x}; const Mm cm{x + 1}; VH_CHECK(best::call(&Mm::ro, m, k) == x + k && best::call(&Mm::ro, cm, k) == x + 1 + k && best::call(&Mm::ro, &cm, k) == x + 1 + k, "call-member", "call of a member function");
  VH_CHECK(LOG.size() == 3 && LOG[0].on == &m && LOG[1].on == &cm && LOG[2].on == &cm, "call-member", "a member function ran on another object"); LOG.clear();
  VH_CHECK(best::call(&Mm::rw, m, k) == x + k && m.v == x + k && best::call(&Mm::rw, &m, k) == x + 2 * k && m.v == x + 2 * k, "call-member", "call of a mutating member function"); LOG.clear();
  VH_CHECK(&best::call(&Mm::v, m) == &m.v && &best::call(&Mm::v, &m) == &m.v && best::call(&Mm::v, Mm{k}) == k, "call-field", "call of a data member");
  Tm t; VH_CHECK(best::call<char>(t, 'c') == 1 && best::call<i64>(t, x) == 8 && (best::call<3, 4>(t, x) == 3), "call-template", "call with template arguments"); ran(c, "call-template", "call with template arguments", {{100, &t, 1, 'c'}, {100, &t, 8, x}, {101, &t, 7, x}});
  auto f = BEST_CALLABLE(over); VH_CHECK(f(1) == 1 && f(1.5) == 2 && f("x") == 3, "callable-macro", "overloads");
  bool did = false; best::empty e = best::call_devoid([&] { did = true; }); (void)e; VH_CHECK(did && best::call_devoid([&] { return x; }) == x, "devoid", "call_devoid");
  int z = x; VH_CHECK(&best::call_devoid([&]() -> int& { return z; }) == &z, "devoid", "call_devoid keeps references");
  c.event("direct_calls", 14); c.state(hcomb((u64)x, (u64)k)); c.eval();
}
#endif

#ifdef PART_B
// Interfaces and types: small, large, over-aligned, move-only; members, free vtables and defaults.
struct Tok { int v; constexpr Tok(int x) : v(x) {} constexpr Tok(Tok&& o) : v(o.v) { o.v = -77777; } Tok(const Tok&) = delete; constexpr int get() const { return v; } };  // move-only argument
class Cell : public best::interface_base<Cell> {
 public:
  BEST_INTERFACE(Cell, (i64, get, (), const), (i64, put, (i64 x, int k)), (i64, both, (Tok a, i64& out), const), (i64, twice, (i64 x)));
 private:
  i64 twice(best::defaulted, i64 x) { put(x, 1); return put(x, 2) + get(); }
};
class Name : public best::interface_base<Name> { public: BEST_INTERFACE(Name, (int, name, (), const), (int, tag, (), const)); private: int name(best::defaulted) const { return -1; } };
class Ref : public best::interface_base<Ref> { public: BEST_INTERFACE(Ref, (i64&, ref, ())); };
#define CELL(WHO)                                                                                                                       \
  i64 get() const { note(WHO, this, v.get()); return v.get(); }                                                                          \
  i64 put(i64 x, int k) { note(WHO + 1, this, x, k); v.v = (int)(x * 3 + k); return mx(WHO, x, k); }                                     \
  i64 both(Tok a, i64& out) const { note(WHO + 2, this, a.get()); out = a.get() + WHO; return v.get() - a.get(); }                  \
  i64& ref() { note(WHO + 4, this); return r; }                                                                                         \
  int tag() const { return WHO; }
struct Small { tr::Obj v; i64 r = 0; Small(int x) : v(x) {} CELL(100) };
struct Large { char pad[300] = {}; tr::Obj v; i64 r = 0; Large(int x) : v(x) {} CELL(200) i64 twice(i64 x) { note(203, this, x); v.v = (int)x; return x + 1; } int name() const { note(205, this); return 2; } };
struct alignas(64) Wide { tr::Align v; i64 r = 0; Wide(int x) : v(x) {} CELL(300) int name() const { note(305, this); return 3; } };
struct Once { tr::Uniq v; i64 r = 0; Once(int x) : v(x) {} CELL(400) int name() const { note(405, this); return 4; } };
struct Tiny { char c; int tag() const { return 500; } };  // implements through free vtables
constexpr best::vtable<Cell> BestImplements(Tiny*, Cell*) {
  return {.get = [](const Tiny& t) -> i64 { note(500, &t, t.c); return t.c; }, .put = [](Tiny& t, i64 x, int k) -> i64 { note(501, &t, x, k); t.c = (char)(i8)x; return mx(500, x, k); }, .both = [](const Tiny& t, Tok a, i64& out) -> i64 { note(502, &t, a.get()); out = a.get() + 500; return t.c - a.get(); }};
}
constexpr best::vtable<Ref> BestImplements(Tiny*, Ref*) { return {.ref = [](Tiny& t) -> i64& { note(504, &t); static i64 z; return z; }}; }
static_assert(best::interface<Cell> && !best::interface<int> && best::implements<Small, Cell> && best::implements<Tiny, Cell> && !best::implements<int, Cell> && !best::implements<int, Name> && !best::implements<int, Ref>);
static_assert(best::implements<Once, Cell> && best::implements<Wide, Name>);

// The state of one erased object.
struct Model { int type; i64 v; };
template <class P> const void* where(const P& p) { if constexpr (requires { p.raw(); }) return (const void*)p.raw(); else return (const void*)p.ptr().raw(); }
// Calls every method once through `h` (anything the accessors work on); checks effects against the model.
template <class H> void poke(Ctx& c, const std::string& hist, H& h, Model& m, const void* at) {
  auto& g = c.rng; const int W = m.type * 100; i64 x = g.range(-30, 30); int k = (int)g.range(0, 5); std::string id = hist + vh::fmt(" poke(type %d)", m.type);
  switch (g.below(6)) {
    case 0: { i64 r = Cell::of(h)->get(); VH_CHECK(r == m.v, "get", "%s: got %lld, must be %lld", id.c_str(), (long long)r, (long long)m.v); ran(c, "dispatch", id + " get", {{W, at, m.v, 0}}); break; }
    case 1: { i64 r = Cell::of(h)->put(x, k); VH_CHECK(r == mx(W, x, k), "put", "%s: put returned %lld", id.c_str(), (long long)r); ran(c, "dispatch", id + " put", {{W + 1, at, x, k}}); m.v = m.type == 5 ? (i8)x : x * 3 + k; break; }
    case 2: { i64 out = 0; i64 r = Cell::of(h)->both(Tok((int)x), out); VH_CHECK(r == m.v - x && out == x + W, "arguments", "%s: got %lld and %lld", id.c_str(), (long long)r, (long long)out); ran(c, "dispatch", id + " both", {{W + 2, at, x, 0}}); break; }
    case 3: { i64 r = Cell::of(h)->twice(x); if (m.type == 2) { VH_CHECK(r == x + 1, "override", "%s: a type's own method must be used instead of the default", id.c_str()); ran(c, "dispatch", id + " twice", {{203, at, x, 0}}); m.v = x; } else { i64 nv = m.type == 5 ? (i8)x : x * 3 + 2; VH_CHECK(r == mx(W, x, 2) + nv, "default", "%s: the default gave %lld", id.c_str(), (long long)r); ran(c, "dispatch", id + " default twice", {{W + 1, at, x, 1}, {W + 1, at, x, 2}, {W, at, nv, 0}}); m.v = nv; } c.event(m.type == 2 ? "own_methods" : "default_methods"); break; }
    case 4: { VH_CHECK(Name::of(h)->tag() == W, "second-interface", "%s: tag", id.c_str()); int r = Name::of(h)->name(); if (m.type == 1 || m.type == 5) { VH_CHECK(r == -1, "default", "%s: name %d", id.c_str(), r); ran(c, "dispatch", id + " default name", {}); } else { VH_CHECK(r == m.type, "second-interface", "%s: name %d", id.c_str(), r); ran(c, "dispatch", id + " name", {{W + 5, at, 0, 0}}); } c.event("second_interface"); break; }
    default: { i64& r = Ref::of(h)->ref(); r++; ran(c, "dispatch", id + " ref", {{W + 4, at, 0, 0}}); if (m.type != 5) VH_CHECK((const char*)&r > (const char*)at && (const char*)&r < (const char*)at + 600, "reference", "%s: a reference result refers elsewhere", id.c_str()); break; }
  }
  c.event("dispatches"); c.event(vh::fmt("type_%d", m.type).c_str());
}
using DB = best::box<best::dyn<Cell, Name, Ref>>; using DP = best::ptr<best::dyn<Cell, Name, Ref>>;
// Histories of boxes of erased values.
VH_WORKLOAD(boxes, 4000, 300000) {
  auto& g = c.rng; LOG.clear(); tr::begin(c, "erased boxes"); Heap h0 = heap_now(); std::string hist;
  {
    std::vector<std::pair<DB, Model>> v; { HeapPause hp; v.reserve(64); }
    auto mk = [&](int t, int x) -> DB { switch (t) { case 1: return best::box(Small(x)); case 2: return best::box(Large(x)); case 3: return best::box(Wide(x)); case 4: return best::box(Once(x)); default: return best::box(Tiny{(char)x}); } };
    for (int step = 0; step < 30; step++) {
      int t = 1 + (int)g.below(5), x = (int)g.range(-100, 100); size_t i = v.empty() ? 0 : g.below(v.size()), j = v.empty() ? 0 : g.below(v.size());
      switch (v.empty() ? 0 : g.below(9)) {
        case 0: if (v.size() < 8) { DB b = mk(t, x); v.emplace_back(std::move(b), Model{t, x}); hist += vh::fmt(" new(%d,%d)", t, x); tr::op(hist.c_str()); } break;
        case 1: v[i].first = mk(t, x); v[i].second = {t, x}; hist += vh::fmt(" set(%zu,%d,%d)", i, t, x); c.event("box_assigns"); break;
        case 2: { auto cp = v[i].first.try_copy(); bool can = v[i].second.type != 4; hist += vh::fmt(" copy(%zu)", i); VH_CHECK(cp.has_value() == can, "can-copy", "%s: copying type %d: %d", hist.c_str(), v[i].second.type, (int)cp.has_value()); if (cp && v.size() < 8) { DB b = *std::move(cp); VH_CHECK(where(b) != where(v[i].first), "copy", "%s: the copy shares the original", hist.c_str()); v.emplace_back(std::move(b), v[i].second); c.event("box_copies"); } if (!can) c.event("refused_copies"); break; }
        case 3: if (i != j) { v[i].first = std::move(v[j].first); v[i].second = v[j].second; hist += vh::fmt(" move(%zu<-%zu)", i, j); std::swap(v[j], v.back()); v.pop_back(); c.event("box_moves"); } break;
        case 4: { std::swap(v[i], v.back()); v.pop_back(); hist += vh::fmt(" drop(%zu)", i); c.event("box_drops"); break; }
        default: { auto& b = v[i]; const void* at = where(b.first); poke(c, hist, b.first, b.second, at); DP p = b.first; VH_CHECK(where(p) == at, "pointer", "%s: a pointer to a box's value", hist.c_str()); poke(c, hist, p, b.second, at); auto l = p.layout(); size_t sz[] = {0, sizeof(Small), sizeof(Large), sizeof(Wide), sizeof(Once), sizeof(Tiny)}, al[] = {0, alignof(Small), alignof(Large), alignof(Wide), alignof(Once), 1}; VH_CHECK(l.size() == sz[b.second.type] && l.align() == al[b.second.type] && (uintptr_t)at % l.align() == 0, "layout", "%s: layout %zu/%zu of type %d", hist.c_str(), l.size(), l.align(), b.second.type); c.event("layouts"); break; }
      }
    }
    for (auto& [b, m] : v) { i64 r = Cell::of(b)->get(); VH_CHECK(r == m.v, "final", "%s: finally %lld, must be %lld", hist.c_str(), (long long)r, (long long)m.v); }
    LOG.clear();
  }
  tr::end(c); (void)h0; c.state(hstr(hist)); c.eval(); if (g.chance(1, 500)) c.sample(hist);
}
// Pointers, references and raw objects; const interfaces; copies through pointers.
VH_WORKLOAD(views, 4000, 300000) {
  auto& g = c.rng; LOG.clear(); tr::begin(c, "erased pointers"); std::string hist = "views";
  {
    int x = (int)g.range(-100, 100); Small s(x); Large l(x + 1); Wide w(x + 2); Once o(x + 3); Tiny t{(char)(x)}; Model ms{1, x}, ml{2, x + 1}, mw{3, x + 2}, mo{4, x + 3}, mt{5, (char)x};
    DP p; VH_CHECK(p == nullptr, "null", "a fresh pointer is not null"); Model* m = nullptr; const void* at = nullptr;
    for (int k = 0; k < 12; k++) {
      if (!m || g.flip()) switch (g.below(5)) { case 0: p = &s; m = &ms; at = &s; break; case 1: p = &l; m = &ml; at = &l; break; case 2: p = &w; m = &mw; at = &w; break; case 3: p = &o; m = &mo; at = &o; break; default: p = &t; m = &mt; at = &t; }
      hist += vh::fmt(" at(%d)", m->type); VH_CHECK(p != nullptr && where(p) == at, "pointer", "%s: points elsewhere", hist.c_str());
      switch (g.below(6)) {
        case 0: poke(c, hist, p, *m, at); break;
        case 1: { DP q = p; poke(c, hist + " copied", q, *m, at); break; }
        case 2: { i64 r = p[best::types<Cell>]->get(); VH_CHECK(r == m->v, "get", "%s: index by interface", hist.c_str()); ran(c, "dispatch", hist + " index", {{m->type * 100, at, m->v, 0}}); break; }
        case 3: { best::ptr<best::dyn<const Cell, const Name, const Ref>> q = p; VH_CHECK(q[best::types<Cell>]->get() == m->v && Cell::of(q)->get() == m->v, "const", "%s: const view", hist.c_str()); ran(c, "dispatch", hist + " const", {{m->type * 100, at, m->v, 0}, {m->type * 100, at, m->v, 0}}); c.event("const_views"); break; }
        case 4: { // the same object named directly
          auto go = [&](auto& obj) { poke(c, hist + " object", obj, *m, at); auto* raw = &obj; poke(c, hist + " raw pointer", raw, *m, at); best::ptr bp(raw); poke(c, hist + " pointer", bp, *m, at); };
          switch (m->type) { case 1: go(s); break; case 2: go(l); break; case 3: go(w); break; case 4: go(o); break; default: go(t); } c.event("direct_views"); break; }
        default: { best::dynptr<Cell> one; switch (m->type) { case 1: one = &s; break; case 2: one = &l; break; case 3: one = &w; break; case 4: one = &o; break; default: one = &t; } i64 r = one->get(); VH_CHECK(r == m->v && Cell::of(one)->get() == m->v, "get", "%s: single interface", hist.c_str()); ran(c, "dispatch", hist + " single", {{m->type * 100, at, m->v, 0}, {m->type * 100, at, m->v, 0}}); VH_CHECK(one.can_copy() == (m->type != 4), "can-copy", "%s: can_copy", hist.c_str()); break; }
      }
    }
    // Copies through erased pointers: into raw storage, then over a value of another type.
    alignas(64) char buf[1024]; auto src = [&](int k) -> DP { switch (k) { case 0: return &s; case 1: return &l; case 2: return &w; case 3: return &t; default: return &o; } }; Model* mm[] = {&ms, &ml, &mw, &mt, &mo};
    int a = (int)g.below(4), b = (int)g.below(5); DP first = DP(best::ptr<void>(buf), src(a).meta()).try_copy(src(a)); VH_CHECK(first != nullptr && where(first) == buf, "try_copy", "copying type %d failed", mm[a]->type);
    { Model m2 = *mm[a]; poke(c, "copied through a pointer", first, m2, buf); DP second = first.try_copy_assign(src(b)); if (b == 4) { VH_CHECK(second == nullptr, "try_copy", "a move-only value was copied"); poke(c, "kept", first, m2, buf); first.destroy(); c.event("refused_copies"); } else { VH_CHECK(second != nullptr, "try_copy", "copy-assigning type %d over %d failed", mm[b]->type, mm[a]->type); if (second != nullptr) { Model m3 = *mm[b]; poke(c, "copy-assigned through a pointer", second, m3, buf); second.destroy(); } c.event("pointer_copies"); } }
    { int z = (int)g.below(4); DP self = src(z).try_copy_assign(src(z)); VH_CHECK(self != nullptr, "try_copy", "self copy-assignment failed"); Model m4 = *mm[z]; if (self != nullptr) poke(c, "after self copy-assignment", self, m4, where(src(z))); *mm[z] = m4; }
    LOG.clear();
    const Small cs(x); i64 r = Name::of(cs)->name(); VH_CHECK(r == -1, "const", "const object"); best::dynptr<const Name> cn = &cs; VH_CHECK(cn->name() == -1 && where(cn) == &cs, "const", "pointer to a const object"); best::dynptr<const Cell> cc = &s; VH_CHECK(cc->get() == s.v.get(), "const", "const pointer to an object"); LOG.clear();
  }
  tr::end(c); c.state(hstr(hist)); c.eval(); if (g.chance(1, 500)) c.sample(hist);
}
// Interface tables and their entries used directly.
struct Plain { i64 n; };
static i64 add_raw(void* self, int k) { note(900, self, k); return ((Plain*)self)->n += k; }
static i64 see_raw(const void* self) { note(901, self); return ((const Plain*)self)->n; }
using All = best::itable<Cell, Name, Ref>;
template <class T> void table(Ctx& c, int type, int x) {
  auto& g = c.rng; T obj(x); const auto& t = All::of(best::types<T>); const auto& one = best::itable<Cell>::of(best::types<T>); std::string id = vh::fmt("table of type %d", type); const int W = type * 100;
  VH_CHECK(&t == &All::of(best::types<T>) && &t == &(All::of<T>()) && (const void*)&t != (const void*)&All::of(best::types<std::conditional_t<std::is_same_v<T, Small>, Large, Small>>), "table-identity", "%s: one table per type", id.c_str());
  VH_CHECK(t.layout() == best::layout::of<T>() && one.layout().size() == sizeof(T) && one.layout().align() == alignof(T), "layout", "%s: layout %zu/%zu", id.c_str(), t.layout().size(), t.layout().align());
  VH_CHECK(t.can_copy() == (type != 4) && one.can_copy() == t.can_copy(), "can-copy", "%s: can_copy", id.c_str());
  Model m{type, type == 5 ? (i8)x : x}; const auto& vc = t[best::types<Cell>]; const auto& vn = t[best::types<Name>]; const auto& vr = t[best::types<Ref>];
  VH_CHECK(vc.get != nullptr && vc.put && (bool)vc.both && vc.twice && vn.name && vn.tag && vr.ref && one->get && one->twice, "table-empty", "%s: an entry is null", id.c_str());
  LOG.clear(); i64 r = vc.get(&obj); VH_CHECK(r == m.v && one->get(&obj) == m.v, "get", "%s: get", id.c_str()); ran(c, "dispatch", id + " get", {{W, &obj, m.v, 0}, {W, &obj, m.v, 0}});
  i64 y = g.range(-30, 30); r = one->put(&obj, y, 2); VH_CHECK(r == mx(W, y, 2), "put", "%s: put", id.c_str()); ran(c, "dispatch", id + " put", {{W + 1, &obj, y, 2}}); m.v = type == 5 ? (i8)y : y * 3 + 2;
  i64 out = 0; r = vc.both(&obj, Tok((int)x), out); VH_CHECK(r == m.v - x && out == x + W, "arguments", "%s: both", id.c_str()); LOG.clear();
  VH_CHECK(vn.tag(&obj) == W && (type == 1 || type == 5 ? vn.name(&obj) == -1 : vn.name(&obj) == type), "second-interface", "%s: name", id.c_str()); LOG.clear();
  i64& ref = vr.ref(&obj); if (type != 5) VH_CHECK((char*)&ref >= (char*)&obj && (char*)&ref < (char*)(&obj + 1), "reference", "%s: ref", id.c_str()); LOG.clear();
  if (t.can_copy()) { alignas(64) char buf[sizeof(T)]; t.copy(buf, &obj); VH_CHECK(t[best::types<Cell>].get(buf) == m.v, "copy", "%s: a copy made by the table", id.c_str()); LOG.clear(); vc.put(buf, 1, 1); LOG.clear(); VH_CHECK(vc.get(&obj) == m.v, "copy", "%s: the copy shares the original", id.c_str()); LOG.clear(); t.destroy(buf); c.event("table_copies"); }
  // A table with entries of the user's: what is left out is the default.
  best::vtable<Cell> mine{}; VH_CHECK(mine.get == nullptr && !mine.twice, "binder-null", "a fresh entry is not null"); mine.get = [](const T& o) -> i64 { note(950, &o); if constexpr (std::is_same_v<T, Tiny>) return o.c + 7; else return o.v.get() + 7; }; mine.put = [](T& o, i64 v, int k) -> i64 { note(951, &o, v, k); return v * 10 + k; };
  best::itable<Cell> own(best::types<T>, mine); VH_CHECK(own->both == nullptr && own->get != nullptr, "binder-null", "%s: an entry without default was made up", id.c_str()); VH_CHECK(own.layout() == t.layout() && own.can_copy() == t.can_copy(), "layout", "%s: own table", id.c_str());
  LOG.clear(); i64 base = own->get(&obj); VH_CHECK(base == m.v + 7, "get", "%s: own get", id.c_str()); r = own->put(&obj, y, 4); VH_CHECK(r == y * 10 + 4, "put", "%s: own put", id.c_str()); ran(c, "dispatch", id + " own", {{950, &obj, 0, 0}, {951, &obj, y, 4}}); 
  LOG.clear();
  c.event("tables"); c.state(hcomb(type, (u64)x * 100 + y)); LOG.clear();
}
VH_WORKLOAD(tables, 1500, 60000) {
  auto& g = c.rng; LOG.clear(); tr::begin(c, "interface tables"); { int x = (int)g.range(-100, 100); switch (g.below(5)) { case 0: table<Small>(c, 1, x); break; case 1: table<Large>(c, 2, x); break; case 2: table<Wide>(c, 3, x); break; case 3: table<Once>(c, 4, x); break; default: table<Tiny>(c, 5, (char)x); } } tr::end(c);
  // Entries alone.
  Plain p{g.range(-1000, 1000)}; i64 n = p.n; int k = (int)g.range(-50, 50); using B = best::vtable_binder<i64(int)>; using BC = best::vtable_binder<i64() const>;
  B none, null(nullptr); VH_CHECK(none == nullptr && null == nullptr && !none && !(bool)null && (B::fnptr)none == nullptr, "binder-null", "a null entry");
  B raw(&add_raw); BC see(&see_raw); B clo([](Plain& q, int d) { note(902, &q, d); return q.n -= d; }); BC cc([](const Plain& q) -> i64 { note(903, &q); return q.n * 2; });
  VH_CHECK(raw != nullptr && (bool)see && clo && cc != nullptr && (B::fnptr)raw == &add_raw && (BC::fnptr)see == &see_raw, "binder-null", "a bound entry is null or another function");
  LOG.clear(); i64 a = raw(&p, k), b = see(&p), d = clo(&p, k + 1), e = cc(&p); VH_CHECK(a == n + k && b == n + k && d == n - 1 && e == 2 * (n - 1) && p.n == n - 1, "binder-call", "entries gave %lld %lld %lld %lld from %lld and %d", (long long)a, (long long)b, (long long)d, (long long)e, (long long)n, k);
  ran(c, "dispatch", "entries", {{900, &p, k, 0}, {901, &p, 0, 0}, {902, &p, k + 1, 0}, {903, &p, 0, 0}});
  B::fnptr f = clo; B again(f); i64 h = again(&p, 5); VH_CHECK(h == n - 6, "binder-call", "an entry made from another's function"); again = nullptr; VH_CHECK(!again && clo, "binder-null", "an assigned null"); again = raw; VH_CHECK((B::fnptr)again == &add_raw, "binder-call", "an assigned entry"); LOG.clear();
  best::vtable_binder<i64(Tok, i64&)> tk([](Plain& q, Tok t, i64& o) -> i64 { o = t.get(); return q.n + t.get(); }); i64 o = 0; VH_CHECK(tk(&p, Tok(k), o) == n - 6 + k && o == k, "arguments", "an entry's arguments"); c.event("entries", 8); c.eval();
}
#endif

#ifdef PART_C
// Deferred actions in nested scopes, cancelled, run early or run at the end.
static void scope(Ctx& c, int depth, std::vector<Ev>& want, int& id, bool via_return);
static void scope_body(Ctx& c, int depth, std::vector<Ev>& want, int& id) {
  auto& g = c.rng; int n1 = id++, n2 = id++, n3 = id++; bool live[3] = {true, true, true}; int nn[3] = {n1, n2, n3}; bool nested = g.chance(1, 4), leave = g.chance(1, 5);
  int counter = 0; auto shared = [&counter, n3] { counter++; note(n3, nullptr); };
  {
    best::defer d1 = [&, n1] { note(n1, nullptr); };
    best::defer d2 = [n2, s = std::string(30, 'x')] { note(n2, nullptr, (i64)s.size()); };
    best::defer d3(best::bind, shared);
    auto act = [&](int which) { auto doit = [&](auto& d, int k) { switch (g.below(5)) { case 0: d.cancel(); live[k] = false; c.event("cancels"); break; case 1: d.run(); if (live[k]) want.push_back({nn[k], nullptr, k == 1 ? 30 : 0, 0}); live[k] = false; c.event("early_runs"); break; default: break; } }; if (which == 0) doit(d1, 0); else if (which == 1) doit(d2, 1); else doit(d3, 2); };
    for (int k = 0; k < 4; k++) { act((int)g.below(3)); if (LOG != want) { VH_FAIL("defer-early", "a deferred action ran before its scope ended, or not when asked"); } }
    if (depth && nested) scope(c, depth - 1, want, id, leave);
    for (int k = 0; k < 2; k++) act((int)g.below(3));
    for (int k = 2; k >= 0; k--) if (live[k]) want.push_back({nn[k], nullptr, k == 1 ? 30 : 0, 0});
  }
  if (LOG != want) VH_FAIL("defer", "deferred actions: %zu ran, must be %zu (in reverse order)", LOG.size(), want.size());
  c.event("defer_scopes");
}
static void scope(Ctx& c, int depth, std::vector<Ev>& want, int& id, bool via_return) {
  int me = id++; 
  auto f = [&]() -> int { best::defer d = [&, me] { note(me, nullptr); }; scope_body(c, depth, want, id); if (via_return) { c.event("early_returns"); want.push_back({me, nullptr, 0, 0}); return 1; } scope_body(c, depth, want, id); want.push_back({me, nullptr, 0, 0}); return 2; };
  (void)f(); if (LOG != want) VH_FAIL("defer-return", "deferred actions at a return");
}
VH_WORKLOAD(defers, 6000, 400000) {
  LOG.clear(); std::vector<Ev> want; int id = 1; scope(c, 3, want, id, c.rng.flip()); VH_CHECK(LOG == want, "defer", "the whole history of deferred actions");
  for (size_t k = 0; k < want.size(); k++) c.event("deferred_runs");
  {  // in loops, and from inside its own action
    LOG.clear(); want.clear(); int n = (int)c.rng.below(6), brk = (int)c.rng.below(7); for (int i = 0; i < n; i++) { best::defer d = [i] { note(i, nullptr); }; want.push_back({i, nullptr, 0, 0}); if (i == brk) break; if (c.rng.flip()) continue; note(100 + i, nullptr); want.insert(want.end() - 1, {100 + i, nullptr, 0, 0}); } VH_CHECK(LOG == want, "defer-loop", "deferred actions in a loop of %d", n);
    int runs = 0; { void* self = nullptr; auto cb = [&] { if (++runs < 5) { using D = best::defer<best::tags_internal_do_not_use::ctad_guard, best::as_auto<best::fnref<void()>>>; (void)sizeof(D); if (self) (*(best::fnref<void()>*)self)(); } }; best::defer d(best::bind, cb); auto again = [&] { d.run(); }; best::fnref<void()> ag = again; self = &ag; if (c.rng.flip()) d.run(); self = c.rng.flip() ? self : nullptr; d.run(); d.cancel(); } VH_CHECK(runs == 1, "defer-reentrant", "a deferred action ran %d times", runs);
    tr::begin(c, "deferred action"); { tr::Uniq u(4); best::defer d = [u = std::move(u)] { note(7, nullptr, u.get()); }; if (c.rng.flip()) d.cancel(); } tr::end(c); c.event("owned_defers");
  }
  LOG.clear(); c.state(hcomb(c.rng.s, want.size())); c.eval();
}
// Taps.
struct Val { int v; int operator()(int k) const { note(1, this, v, k); return v * 100 + k; } int operator[](int k) const { note(2, this, v, k); return v * 1000 + k; } };
VH_WORKLOAD(taps, 3000, 100000) {
  auto& g = c.rng; LOG.clear(); int x = (int)g.range(-500, 500), y = (int)g.range(-50, 50); tr::begin(c, "taps");
  best::tap dbl = [](auto&& k) { note(10, nullptr, (i64)k); return k * 2; }; const best::tap inc = [](int k) { note(11, nullptr, k); return k + 1; };
  VH_CHECK((x->*dbl) == x * 2 && (x->*inc) == x + 1 && (x->*dbl->*inc->*dbl) == (x * 2 + 1) * 2, "tap", "taps of %d", x); ran(c, "tap", "taps", {{10, nullptr, x, 0}, {11, nullptr, x, 0}, {10, nullptr, x, 0}, {11, nullptr, x * 2, 0}, {10, nullptr, x * 2 + 1, 0}});
  VH_CHECK((x->*best::tap([&](int k) { return k - y; })) == x - y, "tap", "temporary tap");
  best::tap mk = [](auto&& k) { return Val{(int)k}; }; const best::tap cmk = [](auto&& k) { return Val{(int)k}; };
  VH_CHECK((x->*mk(y)) == x * 100 + y && (x->*cmk(y)) == x * 100 + y && (x->*best::tap([](int k) { return Val{k}; })(y)) == x * 100 + y, "tap-call", "%d->*tap(%d)", x, y); LOG.clear();
  VH_CHECK((x->*mk[y]) == x * 1000 + y && (x->*cmk[y]) == x * 1000 + y && (x->*best::tap([](int k) { return Val{k}; })[y]) == x * 1000 + y, "tap-index", "%d->*tap[%d] is %d, must be %d", x, y, x->*mk[y], x * 1000 + y); LOG.clear();
  { Val v{x}; auto& r = v->*best::tap([](Val& q) -> Val& { q.v++; return q; }); VH_CHECK(&r == &v && v.v == x + 1, "tap-reference", "a tap of an lvalue"); }
  { tr::Obj o(x); auto& r = o->*best::inspect([](tr::Obj& q) { q.v += 3; return 99; }); VH_CHECK(&r == &o && o.get() == x + 3, "inspect", "inspect returns its argument"); int seen = 0; tr::Uniq u = tr::Uniq(y)->*best::inspect([&](auto&& q) { seen = q.get(); }); VH_CHECK(seen == y && u.get() == y, "inspect", "inspect of a temporary: saw %d, gave %d, must be %d", seen, u.get(), y);
    int n = 0; auto cb = [&](auto&& q) { n += q.get(); }; tr::Obj o2(y); VH_CHECK(&(o2->*best::inspect(best::bind, cb)) == &o2 && n == y, "inspect", "inspect through a bound closure"); tr::Obj kept = tr::Obj(x)->*best::inspect([](tr::Obj q) { return q.get(); }); VH_CHECK(kept.get() == x, "inspect", "inspect with a by-value closure consumed its argument"); }
  { int n = 0; auto cb = [&](int k) { n++; return k + n; }; best::tap t(best::bind, cb); VH_CHECK((5->*t) == 6 && (5->*t) == 7 && n == 2 && t.callback()(1) == 4, "tap-bind", "a bound tap"); }
  c.event("taps", 20); tr::end(c); c.state(hcomb((u64)x, (u64)y)); c.eval();
}
// Arrows: the pointed-to value lives until the end of the full expression.
struct Proxy { tr::Obj o; std::string* log; Proxy(int x, std::string* l) : o(x), log(l) {} Proxy(Proxy&&) = default; Proxy(const Proxy&) = default; ~Proxy() { if (log) *log += 'd'; } int get() { return o.get(); } };
struct Holder { int x; std::string* log; best::arrow<Proxy> operator->() const { return Proxy(x, log); } };
struct Deep { Holder h; best::arrow<Holder> operator->() const { return h; } };
VH_WORKLOAD(arrows, 1000, 50000) {
  int x = (int)c.rng.range(-999, 999); tr::begin(c, "arrows"); std::string log;
  { Holder h{x, &log}; log.clear(); auto use = [&](int v) { log += 'u'; return v; }; VH_CHECK(use(h->get()) == x, "arrow", "value behind an arrow"); VH_CHECK(!log.empty() && log.back() == 'd', "arrow", "the value behind an arrow was not destroyed after the expression"); log.clear(); VH_CHECK(use((h->get(), h->o.get())) == x, "arrow", "field behind an arrow"); VH_CHECK(log.find('u') != std::string::npos && log.find('d', log.find('u')) != std::string::npos, "arrow-lifetime", "the value behind an arrow died before the expression ended");
    Deep d{h}; VH_CHECK(d->get() == x, "arrow-chain", "arrow of arrow"); int z = x; VH_CHECK(best::deref_arrow(&z) == &z, "deref_arrow", "deref_arrow of a pointer"); best::arrow<Val> fn = Val{x}; VH_CHECK(fn(3) == x * 100 + 3, "arrow-call", "call through an arrow"); LOG.clear(); }
  c.event("arrows", 5); tr::end(c); c.state((u64)x); c.eval();
}
// Guards.
struct E { int code; E(int c) : code(c) {} E& add(int k) { code += k; return *this; } bool operator==(const E&) const = default; };
struct E2 { int code; E2(E e) : code(e.code * 10) {} };
static int EVALS;
static best::option<int> gopt(int v) { EVALS++; if (v < 0) return best::none; return v; }
static best::result<int, E> gres(int v) { EVALS++; if (v < 0) return best::err(E(v)); return best::ok(v); }
VH_WORKLOAD(guards, 6000, 300000) {
  auto& g = c.rng; int v[6]; for (auto& k : v) k = (int)g.range(g.chance(1, 4) ? -5 : 0, 50); int stop = -1; for (int k = 0; k < 6; k++) if (v[k] < 0) { stop = k; break; } int want_evals = stop < 0 ? 6 : stop + 1; i64 sum = 0; for (int k = 0; k < 6; k++) sum += v[k];
  EVALS = 0; int tail = 0; auto fo = [&]() -> best::option<i64> { i64 s = 0; for (int k = 0; k < 6; k++) { auto o = gopt(v[k]); BEST_GUARD(o); s += *o; } tail++; return s; }; auto ro = fo(); VH_CHECK(ro.has_value() == (stop < 0) && (stop >= 0 || *ro == sum) && EVALS == want_evals && tail == (stop < 0), "guard-option", "guarded options: stopped at %d after %d evaluations, must be %d", ro.has_value() ? -1 : EVALS - 1, EVALS, want_evals);
  EVALS = 0; auto fr = [&]() -> best::result<i64, E> { i64 s = 0; for (int k = 0; k < 6; k++) { auto r = gres(v[k]); BEST_GUARD(r); s += *r.ok(); } return best::ok(s); }; auto rr = fr(); VH_CHECK(rr.is_ok() == (stop < 0) && (stop >= 0 ? rr.err()->code == v[stop] : *rr.ok() == sum) && EVALS == want_evals, "guard-result", "guarded results: %d evaluations, must be %d", EVALS, want_evals);
  EVALS = 0; auto fx = [&]() -> best::result<int, E2> { for (int k = 0; k < 6; k++) { auto r = gres(v[k]); BEST_GUARD(r); } return best::ok(1); }; auto rx = fx(); VH_CHECK(rx.is_ok() == (stop < 0) && (stop < 0 || rx.err()->code == v[stop] * 10), "guard-convert", "converted error of a guarded result");
  EVALS = 0; auto fp = [&]() -> best::result<int, E> { for (int k = 0; k < 6; k++) { auto r = gres(v[k]); BEST_GUARD(r).add(100); } return best::ok(1); }; auto rp = fp(); VH_CHECK(rp.is_ok() == (stop < 0) && (stop < 0 || rp.err()->code == v[stop] + 100), "guard-postfix", "a call on the residual of a guard");
  EVALS = 0; auto ft = [&]() -> best::option<int> { for (int k = 0; k < 6; k++) { BEST_GUARD(gopt(v[k])); } return 1; }; auto rt = ft(); VH_CHECK(rt.has_value() == (stop < 0) && EVALS == want_evals, "guard-temporary", "guarded temporaries: %d evaluations, must be %d", EVALS, want_evals);
  EVALS = 0; auto fe = [&]() -> best::result<int, E> { for (int k = 0; k < 6; k++) { BEST_GUARD(gres(v[k])); } return best::ok(1); }; auto re = fe(); VH_CHECK(re.is_ok() == (stop < 0) && EVALS == want_evals && (stop < 0 || re.err()->code == v[stop]), "guard-temporary", "guarded temporary results");
  { LOG.clear(); auto f = [&]() -> best::option<int> { best::defer d = [] { note(1, nullptr); }; auto o = gopt(v[0]); BEST_GUARD(o); note(2, nullptr); return *o; }; (void)f(); ran(c, "guard-defer", "a guard's return runs the deferred actions", v[0] < 0 ? std::vector<Ev>{{1, nullptr, 0, 0}} : std::vector<Ev>{{2, nullptr, 0, 0}, {1, nullptr, 0, 0}}); }
  c.event(stop < 0 ? "guards_passed" : "guards_returned"); c.state(hcomb(hbytes(v, sizeof v), 1)); c.eval();
}
#endif
#ifdef PART_D
// Interfaces of many methods and methods of many parameters.
struct Tok { int v; constexpr Tok(int x) : v(x) {} constexpr Tok(Tok&& o) : v(o.v) { o.v = -77777; } Tok(const Tok&) = delete; int get() const { return v; } };
#include "c24_many.inc"
VH_WORKLOAD(many, 4000, 200000) {
  auto& g = c.rng; LOG.clear(); Impl obj; best::dynptr<Many> p = &obj; int m = (int)(c.idx % 40); const void* at = &obj; call_many(c, p, obj, m); ran(c, "dispatch", "many methods", {{1000 + m, at, 0, 0}});
  best::box<best::dyn<Many>> b = best::box(Impl()); { const auto& t = best::itable<Many>::of(best::types<Impl>); VH_CHECK(t.layout() == best::layout::of<Impl>(), "layout", "many"); } auto& in = *(Impl*)b.as_ptr().raw(); call_many(c, b.as_ptr(), in, (int)g.below(40)); LOG.clear(); c.event("many_methods"); c.state(hcomb(g.next(), m)); c.eval();
}
#endif
}  // namespace PARTNS
