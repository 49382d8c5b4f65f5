// C09: boxes. Histories over slots of boxes of scalars, objects, arrays, spans and type-erased values, against a model of
// (values, dynamic type, address) per slot, with lifetime-tracked contents and layout/arena-checking allocators.
#include "vh.h"
#include "track.h"
#include "monalloc.h"
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/func/dyn.h"
#include <optional>
using namespace vh;
using tr::Obj; using tr::Big; using tr::Uniq; using tr::Rel; using tr::Align;

namespace {
using Vals = std::vector<int>;
class Get : public best::interface_base<Get> { public: BEST_INTERFACE(Get, (int, get, (), const), (void, set, (int x)), (int, kind, (), const)); };
template <int K, class O> struct Impl { O o; Impl(int x) : o(x) {} int get() const { return o.get(); } void set(int x) { o.v = x; } int kind() const { return K; } };
struct Small { u8 v; Small(int x) : v((u8)x) {} int get() const { return v; } void set(int x) { v = (u8)x; } int kind() const { return 4; } };
class NodeI : public best::interface_base<NodeI> { public: BEST_INTERFACE(NodeI, (int, val, (), const), (void*, next, ())); };
struct Node { Obj o; std::optional<best::dynbox<NodeI>> nx; Node(int v) : o(v) {} int val() const { return o.get(); } void* next() { return &nx; } };
struct Tree { Obj o; std::vector<best::box<Tree>*> kids; Tree(int v) : o(v) {} Tree(const Tree& t); Tree(Tree&&) = default; Tree& operator=(const Tree&) = delete; ~Tree(); void add(int v); best::box<Tree>& kid(int i) { return *kids[i]; } };
Tree::Tree(const Tree& t) : o(t.o) { for (auto k : t.kids) kids.push_back(new best::box<Tree>(*k)); }
Tree::~Tree() { for (auto k : kids) delete k; }
void Tree::add(int v) { kids.push_back(new best::box<Tree>(v)); }
int nextv = 1; int nv() { return nextv = nextv % 200 + 1; }
template <class A> A mka(Rng& r) { if constexpr (std::is_same_v<A, ma::Mon>) return ma::Mon{(int)r.below(2)}; else return A{}; }

template <class T> struct K;  // how to make and look at a box<T, A>
template <class T> requires requires(const T& t) { t.get(); } struct K<T> {
  static constexpr bool copy = best::copyable<T> && !std::is_same_v<T, Uniq>;
  template <class A> static best::box<T, A> make(Rng& r) { return best::box<T, A>(mka<A>(r), best::in_place, nv()); }
  template <class B> static void vals(const B& b, Vals& o) { o.push_back(b->get()); }
  template <class B> static void mut(B& b, Rng&) { b->v = nv(); }
};
template <> struct K<int> {
  static constexpr bool copy = true; template <class A> static best::box<int, A> make(Rng& r) { return best::box<int, A>(mka<A>(r), best::in_place, nv()); }
  template <class B> static void vals(const B& b, Vals& o) { o.push_back(*b); } template <class B> static void mut(B& b, Rng&) { *b = nv(); }
};
template <class T> int look(const T& t) { if constexpr (requires { t.get(); }) return t.get(); else return (int)t; }
template <class T> struct K<T[]> {
  static constexpr bool copy = best::copyable<T> && !std::is_same_v<T, Uniq>;
  template <class A> static best::box<T[], A> make(Rng& r) {
    if constexpr (copy) if (r.flip()) { std::vector<T> s; size_t n = r.below(6); s.reserve(n); for (size_t i = 0; i < n; i++) s.emplace_back(nv()); return best::box<T[], A>(mka<A>(r), best::in_place, best::span<const T>(s.data(), n)); }
    best::vec<T, best::vec_inline_default<T>(), A> v(mka<A>(r)); for (size_t i = 0, n = r.below(6); i < n; i++) v.push(nv()); return std::move(v).to_box();
  }
  template <class B> static void vals(const B& b, Vals& o) { o.push_back(-1 - (int)b->size()); for (auto& x : *b) o.push_back(look(x)); }
  template <class B> static void mut(B& b, Rng& r) { if (b->size()) { auto& x = (*b)[r.below(b->size())]; if constexpr (requires { x.v; }) x.v = nv(); else x = (T)nv(); } }
};
template <> struct K<best::dyn<Get>> {
  static constexpr bool copy = false;
  template <class A> static best::box<best::dyn<Get>, A> make(Rng& r) { switch (r.below(4)) { case 0: return best::box<Impl<1, Obj>>(nv()); case 1: return best::box<Impl<2, Align>>(nv()); case 2: return best::box<Impl<3, Uniq>>(nv()); default: return best::box<Small>(nv()); } }
  template <class B> static void vals(const B& b, Vals& o) { o.push_back(-b->kind()); o.push_back(b->get()); }
  template <class B> static void mut(B& b, Rng&) { b->set(nv()); }
};
std::string nmc(const char* pf) { std::string s = pf; auto p = s.find("T = "); return s.substr(p + 4, s.find_last_of("]") - p - 4); }

template <class T, class A> void go(Ctx& c) {
  using B = best::box<T, A>; using Kk = K<T>; constexpr int N = 3; std::string name = nmc(__PRETTY_FUNCTION__), trace; u64 h = hstr(name);
  trace.reserve(1024); nextv = (int)c.rng.below(100); tr::begin(c, name.c_str()); ma::begin(c); Heap h0 = heap_now(); bool ok = true;
  {
    std::optional<B> s[N]; enum { None, Full, Moved }; int st[N] = {}; Vals m[N]; const void* ad[N] = {};
    auto bad = [&](const char* key, const std::string& d) { VH_FAIL(key, "box<%s>: %s (after %s)", name.c_str(), d.c_str(), trace.c_str()); ok = false; };
    auto rd = [&](int i) { Vals v; Kk::vals(std::as_const(*s[i]), v); return v; };
    auto arena = [&](int i) -> int { if constexpr (std::is_same_v<A, ma::Mon>) return s[i]->allocator().arena; else return 0; };
    int ar[N] = {};
    auto note = [&](int i) { st[i] = Full; m[i] = rd(i); ad[i] = s[i]->raw(); ar[i] = arena(i); };
    int steps = 4 + (int)c.rng.below(24);
    for (int k = 0; k < steps && ok; k++) {
      int i = (int)c.rng.below(N), j = (int)c.rng.below(N), op = (int)c.rng.below(12); if (st[i] == None && op != 1 && op != 2) op = 0; if (st[j] == None) { if (op == 1 || op == 2) op = 0; j = i; }
      trace += fmt("%d(%d,%d) ", op, i, j); tr::op(trace.c_str()); h = hcomb(h, op * 16 + i * 4 + j);
      switch (op) {
        case 0: s[i].reset(); s[i].emplace(Kk::template make<A>(c.rng)); note(i); c.event("makes"); break;
        case 1: if constexpr (Kk::copy) { if (i == j || st[j] != Full) break; s[i].reset(); s[i].emplace(std::as_const(*s[j])); Vals w = m[j]; note(i); if (m[i] != w) bad("copy", "a copy differs from its source"); if (s[i]->raw() == s[j]->raw()) bad("copy-shares", "a copy shares its source's block"); if (ar[i] != ar[j]) bad("copy-arena", "a copy uses another allocator"); c.event("copies"); } break;
        case 2: if (i != j && st[j] != None) { bool full = st[j] == Full; s[i].reset(); s[i].emplace(std::move(*s[j])); st[i] = st[j]; st[j] = Moved; m[i] = m[j]; ad[i] = ad[j]; ar[i] = ar[j]; if (full) { if (s[i]->raw() != ad[i]) bad("move-address", "moving changed the address of the value"); if (s[j]->raw() == ad[i]) bad("move-shares", "a moved-from box still points at the value"); } c.event("moves"); } break;
        case 3: if constexpr (Kk::copy) { if (st[j] != Full) { if (st[i] == Moved) c.event("moved_from_left"); break; } Vals w = m[j]; int oldar = ar[i]; bool was = st[i] == Full, same = was && m[i].size() == m[j].size(); if (!was) c.event("assigned_to_moved_from"); *s[i] = std::as_const(*s[j]); note(i); if (m[i] != w) bad("copy-assign", "copy assignment did not give the source's value"); if (i != j && s[i]->raw() == s[j]->raw()) bad("copy-shares", "copy assignment shares the block"); (void)same; (void)oldar; c.event(i == j ? "self_assigns" : "copy_assigns"); } break;
        case 4: case 5: { if (i == j) { *s[i] = std::move(*s[i]); if (st[i] == Full && (s[i]->raw() != ad[i])) bad("self-move", "self-move lost the value"); c.event("self_assigns"); break; }
          if (st[j] == Full && st[i] == Moved) c.event("assigned_to_moved_from"); if (st[j] == Moved) c.event("assigned_from_moved_from");
          *s[i] = std::move(*s[j]); st[i] = st[j]; st[j] = Moved; m[i] = m[j]; ad[i] = ad[j]; ar[i] = ar[j]; if (st[i] == Full && s[i]->raw() != ad[i]) bad("move-address", "move assignment changed the address of the value"); c.event("move_assigns"); break; }
        case 6: if (i != j) { std::swap(*s[i], *s[j]); std::swap(st[i], st[j]); std::swap(m[i], m[j]); std::swap(ad[i], ad[j]); std::swap(ar[i], ar[j]); c.event("swaps"); } break;
        case 7: if (st[i] == Full) { Kk::mut(*s[i], c.rng); m[i] = rd(i); c.event("mutations"); } break;
        case 8: if (st[i] == Full) { if (c.rng.flip()) { auto al = s[i]->allocator(); auto p = std::move(*s[i]).leak(); s[i].reset(); s[i].emplace(best::unsafe("test"), al, p); }
            else { auto r = std::move(*s[i]).into_raw(); auto p = r.first(); A al = r.second(); s[i].reset(); s[i].emplace(best::unsafe("test"), al, p); } if (s[i]->raw() != ad[i]) bad("leak", "leaking changed the address"); c.event("leaks"); } break;
        case 9: { auto q = s[i]->try_copy(); bool can = st[i] == Full && (Kk::copy || (m[i].size() && std::is_same_v<T, best::dyn<Get>> && m[i][0] != -3)); if (q.has_value() != can) { bad("try_copy", fmt("try_copy gave %d, expected %d", q.has_value(), can)); break; } if (can) { Vals v; Kk::vals(std::as_const(*q), v); if (v != m[i]) bad("try_copy-value", "try_copy made a different value"); if (q->raw() == s[i]->raw()) bad("copy-shares", "try_copy shares the block"); if (j != i) { s[j].reset(); s[j].emplace(std::move(*q)); note(j); } } c.event(can ? "try_copies" : "try_copies_refused"); break; }
        case 10: { best::option<B> o = best::none; if (o.has_value()) bad("option", "empty option of box has a value"); if (st[i] == Full) { o.emplace(std::move(*s[i])); if (!o.has_value() || o->raw() != ad[i]) bad("option", "option does not hold the box"); best::option<B> o2 = std::move(o); s[i].reset(); s[i].emplace(std::move(*o2)); if (s[i]->raw() != ad[i]) bad("option", "option changed the box"); c.event("options"); } break; }
        default: s[i].reset(); st[i] = None; c.event("destructions"); break;
      }
      for (int q = 0; q < N && ok; q++) if (st[q] == Full) {
        c.eval(); if (s[q]->raw() != ad[q]) { bad("address", fmt("the value of box %d moved on its own", q)); break; } Vals v = rd(q); if (v != m[q]) { bad("value", fmt("box %d no longer holds its value", q)); break; }
        if (s[q]->as_ptr().raw() != ad[q] || (uintptr_t)ad[q] % s[q]->layout().align()) bad("pointer", "as_ptr or alignment"); if (arena(q) != ar[q]) bad("allocator", "box holds another allocator than its block came from");
        if constexpr (requires { (*s[q])->size(); }) if (s[q]->layout().size() != (*s[q])->size() * sizeof((*s[q])[0])) bad("layout", "boxed span layout");
      }
      c.state(h);
    }
    if (!ok) { for (auto& x : s) if (x) new std::optional<B>(std::move(x)); tr::reg().c = nullptr; ma::st().c = nullptr; return; }
    for (int q = 0; q < N; q++) if (st[q] == Moved) c.event("moved_from_destroyed");
  }
  tr::end(c); ma::end(c); Heap h1 = heap_now(); if (heap_supported() && h1.blocks != h0.blocks) VH_FAIL("leaked-memory", "box<%s>: %lld blocks not returned", name.c_str(), (long long)(h1.blocks - h0.blocks));
}
}  // namespace
#define ROT(...) static void (*const fs[])(Ctx&) = {__VA_ARGS__}; fs[c.rng.below(sizeof(fs) / sizeof(fs[0]))](c)
using ma::Mon; using Ml = best::malloc;
#ifdef PART_A
VH_WORKLOAD(values, 4000, 100000) { ROT((go<int, Ml>), (go<Obj, Ml>), (go<Obj, Mon>), (go<Align, Mon>), (go<Uniq, Mon>), (go<Big, Mon>), (go<Rel, Ml>), (go<int, Mon>)); }
VH_WORKLOAD(erased, 4000, 100000) { ROT((go<best::dyn<Get>, Ml>)); }
#else
VH_WORKLOAD(spans, 4000, 100000) { ROT((go<Obj[], Ml>), (go<Obj[], Mon>), (go<int[], Mon>), (go<u8[], Ml>), (go<Uniq[], Mon>), (go<Rel[], Mon>), (go<Align[], Ml>)); }
VH_WORKLOAD(forms, 1500, 30000) {  // constructors, conversions, access forms, self-owning structures
  int a = nv(), b = nv(); c.eval(); c.state(hcomb(a, b)); tr::begin(c, "forms");
  { best::box x(a); VH_CHECK(*x == a && *std::as_const(x) == a && x == a && !(x == b + 1000), "deref", "box(%d)", a);
    best::box ar({a, b, 3}); VH_CHECK(ar->size() == 3 && ar[0] == a && ar[1] == b && (ar[{.start = 1}].size()) == 2, "array-index", "boxed array access");
    best::box<int[]> e; VH_CHECK(e->size() == 0, "empty", "default box of a span"); e = ar; VH_CHECK(e->size() == 3 && e[2] == 3 && e == ar, "array-assign", "assignment between lengths"); ar = best::box<int[]>(); VH_CHECK(ar->size() == 0 && e->size() == 3, "array-assign", "assignment of the empty span");
    best::box fn([a](int y) { return a + y; }); VH_CHECK(fn(b) == a + b, "call", "boxed callable");
    best::box<Obj> o(best::in_place, a); best::ptr<Obj> p = o; VH_CHECK(p.raw() == o.raw() && p->get() == a, "pointer", "pointer conversion"); Obj taken = std::move(*o); VH_CHECK(taken.get() == a && o->get() == tr::Moved, "move-out", "moving out of *box"); c.event("access_forms"); }
  { // a list node owning the rest of the list: assigning its tail over itself
    best::dynbox<NodeI> head = best::box<Node>(a); best::dynbox<NodeI>* tail = &head; int n = 2 + (int)c.rng.below(6); for (int i = 1; i < n; i++) { auto& nx = *(std::optional<best::dynbox<NodeI>>*)(*tail)->next(); nx.emplace(best::box<Node>(a + i)); tail = &*nx; }
    auto next = [](best::dynbox<NodeI>& b) -> std::optional<best::dynbox<NodeI>>& { return *(std::optional<best::dynbox<NodeI>>*)b->next(); };
    const void* second = next(head)->raw(); head = std::move(*next(head)); VH_CHECK(head.raw() == second && head->val() == a + 1, "self-owned", "assigning a box its own tail"); int left = 0; for (best::dynbox<NodeI>* q = &head;;) { VH_CHECK((*q)->val() == a + 1 + left, "self-owned", "node %d", left); left++; auto& nx = next(*q); if (!nx) break; q = &*nx; } VH_CHECK(left == n - 1, "self-owned", "%d nodes left of %d", left, n); c.event("self_owned"); }
  { best::box<Tree> root(a); root->add(b); root->add(b + 1); root->kid(0)->add(b + 2);
    best::box<Tree> copy = root; VH_CHECK(copy->kids.size() == 2 && copy->kid(0)->kid(0)->o.get() == b + 2 && copy->kid(0).raw() != root->kid(0).raw(), "deep-copy", "copying a tree"); root = best::box<Tree>(root->kid(0)); VH_CHECK(root->o.get() == b && root->kids.size() == 1, "self-owned", "assigning a box a copy of its child"); root = std::move(copy->kid(0)); VH_CHECK(root->o.get() == b && root->kid(0)->o.get() == b + 2, "self-owned", "moving a child out"); root = std::move(root->kid(0)); VH_CHECK(root->o.get() == b + 2 && root->kids.empty(), "self-owned", "assigning a box its child"); c.event("trees"); }
  { best::dynbox<Get> d = best::box<Small>(a); best::box<Small> em(b); best::dynbox<Get> e2 = std::move(em); std::swap(d, e2); VH_CHECK(d->get() == (u8)b && e2->get() == (u8)a && d->kind() == 4, "erase", "erased small values"); best::box<Impl<2, Align>> big(a); const void* at = big.raw(); d = std::move(big); VH_CHECK(d.raw() == at && d->kind() == 2 && d->get() == a && d.layout().size() == sizeof(Impl<2, Align>) && d.layout().align() == 64, "erase-layout", "an erased value keeps its address, type and layout");
    best::dynbox<Get> gone = std::move(big); d = std::move(gone); d = best::box<Small>(a); VH_CHECK(d->kind() == 4, "erase", "assigning over an erased moved-from box"); c.event("erasures"); }
  { best::box<Obj[4]>* none = nullptr; (void)none; best::vec<Obj> v; for (int i = 0; i < 3; i++) v.push(a + i); auto bx = std::move(v).to_box(); auto by = bx; for (auto& o : *by) o.v++; for (int i = 0; i < 3; i++) VH_CHECK((*bx)[i].get() == a + i && (*by)[i].get() == a + i + 1, "independent", "copies of a boxed span are independent"); c.event("independence"); }
  tr::end(c);
}
#endif
