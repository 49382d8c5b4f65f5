// C32: pointers and object slots. Histories of constructions, assignments, copies, moves, relocations (also overlapping)
// and destructions through best::ptr over arenas of slots; a model says which slots are live and what they hold, the
// lifetime registry that every object is created, used and destroyed once, and a byte comparison that nothing outside
// the addressed slots changed. Arithmetic, comparison and conversion equal those of raw addresses.
#include "track.h"
#include <array>
#include <optional>
#include "best/memory/ptr.h"
#include "best/memory/span.h"
#include "best/memory/layout.h"
#include "best/container/object.h"
#include "best/container/pun.h"
#include "best/container/option.h"
#ifndef VH_CSEED
#define VH_CSEED 1
#endif
#ifndef VH_CASES
#define VH_CASES 24
#endif
using namespace vh;
namespace {
struct S3 { u8 b[3]; bool operator==(const S3&) const = default; };
struct alignas(32) A32 { int v; };
struct Poly { int v; int pad; Poly(int x) : v(x), pad(~x) {} Poly(const Poly&) = default; Poly& operator=(const Poly&) = default; virtual ~Poly() {} virtual int get() const { return v; } };
struct NoAssign { const int v; NoAssign(int x) : v(x) {} NoAssign(const NoAssign&) = default; };  // assignable only by destroying and constructing
template <class T> struct El { static constexpr bool tracked = true, bound = true; static T make(int v) { return T(v); } static int read(const T& t) { return t.get(); } static int moved(int) { return tr::Moved; } };
template <class T> requires std::is_integral_v<T> struct El<T> { static constexpr bool tracked = false; static T make(int v) { return (T)v; } static int read(const T& t) { return (int)t; } static int moved(int v) { return v; } };
template <> struct El<S3> { static constexpr bool tracked = false; static S3 make(int v) { return {{(u8)v, (u8)~v, (u8)(v * 3)}}; } static int read(const S3& s) { return s == make(s.b[0]) ? s.b[0] : -1; } static int moved(int v) { return v; } };
template <> struct El<A32> { static constexpr bool tracked = false; static A32 make(int v) { return {v}; } static int read(const A32& s) { return s.v; } static int moved(int v) { return v; } };
template <> struct El<Poly> { static constexpr bool tracked = true; static Poly make(int v) { return Poly(v); } static int read(const Poly& s) { return s.pad == ~s.v ? s.get() : -1; } static int moved(int v) { return v; } };
template <> struct El<NoAssign> { static constexpr bool tracked = false; static NoAssign make(int v) { return NoAssign(v); } static int read(const NoAssign& s) { return s.v; } static int moved(int v) { return v; } };
constexpr int N = 20;
template <class T> struct Arena {
  static constexpr size_t Guard = 64; alignas(64) unsigned char bytes[2 * Guard + N * sizeof(T)]; std::optional<int> m[N];
  Arena() { for (size_t i = 0; i < sizeof bytes; i++) bytes[i] = (u8)(0x5a ^ i); }
  T* raw(int i) { return (T*)(bytes + Guard) + i; }
  best::ptr<T> at(Rng& r, int i) {  // the pointer to slot i, reached in various ways
    best::ptr<T> p = raw(0), q = raw(N); switch (r.below(12)) {
      case 0: return p + i; case 1: return p.offset(i); case 2: return q - (N - i); case 3: return q.offset(i - N); case 4: p += i; return p; case 5: q -= N - i; return q; case 6: { for (int k = 0; k < i; k++) r.flip() ? (void)p++ : (void)++p; return p; }
      case 7: { for (int k = N; k > i; k--) r.flip() ? (void)q-- : (void)--q; return q; } case 8: return p.scaled_offset(i * (i64)sizeof(T)); case 9: return p.scaled_offset(i, sizeof(T)); case 10: { best::ptr<void> v = raw(i); return v.cast(best::types<T>); } default: return best::ptr<T>::from_addr(best::ptr<T>(raw(i)).to_addr()); } }
};
template <class T> void run(Ctx& c, const char* name) {
  using E = El<T>; tr::begin(c, name); Rng& r = c.rng; static constexpr bool copyable = std::is_copy_constructible_v<T>; static constexpr bool clean = std::is_trivially_copyable_v<T> || std::is_same_v<T, NoAssign>;
  {
    Arena<T> a, b; Arena<T>* ar[2] = {&a, &b}; std::vector<unsigned char> before[2]; u64 sig = hstr(name); int len = c.thorough ? 120 : 60;
    auto snap = [&] { for (int k = 0; k < 2; k++) before[k].assign(ar[k]->bytes, ar[k]->bytes + sizeof(a.bytes)); };
    auto value = [&] { return (int)r.below(100) + 1; };
    auto verify = [&](const char* op, std::vector<std::array<int, 3>> touched) {  // {arena, first, count}
      for (int k = 0; k < 2; k++) {
        for (int i = 0; i < N; i++) if (ar[k]->m[i]) { int g = E::read(*ar[k]->raw(i)); VH_CHECK(g == *ar[k]->m[i], op, "%s: %s: slot %d of arena %d holds %d, must hold %d", name, op, i, k, g, *ar[k]->m[i]); }
        std::vector<bool> may(sizeof a.bytes, false); for (auto& t : touched) if (t[0] == k) for (size_t x = Arena<T>::Guard + t[1] * sizeof(T); x < Arena<T>::Guard + (t[1] + t[2]) * sizeof(T); x++) may[x] = true;
        for (size_t x = 0; x < may.size(); x++) if (!may[x] && ar[k]->bytes[x] != before[k][x]) { VH_FAIL("outside", "%s: %s changed byte %zd of arena %d (slot %zd), outside of what it addresses", name, op, (ssize_t)x - (ssize_t)Arena<T>::Guard, k, ((ssize_t)x - (ssize_t)Arena<T>::Guard) / (ssize_t)sizeof(T)); break; }
      }
      c.eval(); c.event(op); sig = hcomb(sig, hstr(op)); c.state(sig);
    };
    auto live = [&](int k, int i) { if (!ar[k]->m[i]) { int v = value(); snap(); auto p = ar[k]->at(r, i);
      switch (r.below(3)) { case 0: p.construct(E::make(v)); break; case 1: if constexpr (copyable) { const T x = E::make(v); p.construct(x); break; } [[fallthrough]]; default: if constexpr (std::is_constructible_v<T, int>) p.construct(best::args(int(v))); else p.construct(E::make(v)); }
      ar[k]->m[i] = v; verify("construct", {{k, i, 1}}); } };
    auto dead = [&](int k, int i) { if (ar[k]->m[i]) { snap(); ar[k]->m[i].reset(); ar[k]->at(r, i).destroy(); verify("destroy", {{k, i, 1}}); } };
    for (int step = 0; step < len; step++) {
      int sk = (int)r.below(2), dk = (int)r.below(2), cnt = (int)r.len(8), s = (int)r.below(N - cnt + 1), d = (int)r.below(N - cnt + 1); bool same = sk == dk;
      if (same && r.flip()) d = std::clamp(s + (int)r.range(-3, 3), 0, N - cnt);  // overlapping more often than not
      bool overlap = same && std::abs(s - d) < cnt; auto in = [&](int i, int lo) { return same && i >= lo && i < lo + cnt; };
      Arena<T>&S = *ar[sk], &D = *ar[dk]; std::vector<int> old; auto lives = [&](int k, int at) { for (int i = 0; i < cnt; i++) live(k, at + i); };
      auto fetch = [&] { old.clear(); for (int i = 0; i < cnt; i++) old.push_back(*S.m[s + i]); }; std::vector<std::array<int, 3>> both{{sk, s, cnt}, {dk, d, cnt}}, only{{dk, d, cnt}};
      auto src = [&] { return S.at(r, s); }; auto csrc = [&] { return best::ptr<const T>(S.at(r, s)); }; auto dst = [&] { return D.at(r, d); };
      auto set = [&] { for (int i = 0; i < cnt; i++) D.m[d + i] = old[i]; }; auto moved = [&] { for (int i = 0; i < cnt; i++) if (!in(s + i, d)) S.m[s + i] = E::moved(old[i]); }; auto gone = [&] { for (int i = 0; i < cnt; i++) if (!in(s + i, d)) S.m[s + i].reset(); };
      switch (r.below(13)) {
        case 0: { int i = (int)r.below(N); live(sk, i); int v = value(); snap(); auto p = S.at(r, i); if constexpr (copyable) { const T x = E::make(v); if (r.flip()) p.assign(x); else p.assign(E::make(v)); } else p.assign(E::make(v)); S.m[i] = v; verify("assign", {{sk, i, 1}}); break; }
        case 1: dead(sk, (int)r.below(N)); break;
        case 2: if constexpr (copyable) if (!overlap) { lives(sk, s); for (int i = 0; i < cnt; i++) dead(dk, d + i); fetch(); snap(); if (cnt == 1 && r.flip()) dst().copy(csrc()); else dst().copy(src(), cnt); set(); verify("copy", only); } break;
        case 3: if (!overlap) { lives(sk, s); for (int i = 0; i < cnt; i++) dead(dk, d + i); fetch(); snap(); dst().move(src(), cnt); set(); moved(); verify("move", clean ? only : both); } break;
        case 4: if (!overlap) { lives(sk, s); for (int i = 0; i < cnt; i++) dead(dk, d + i); fetch(); snap(); dst().relo(src(), cnt); set(); gone(); verify("relo", both); } break;
        case 5: if constexpr (copyable) if (!overlap) { lives(sk, s); lives(dk, d); fetch(); snap(); dst().copy_assign(csrc(), cnt); set(); verify("copy_assign", only); } break;
        case 6: if (!overlap) { lives(sk, s); lives(dk, d); fetch(); snap(); dst().move_assign(src(), cnt); set(); moved(); verify("move_assign", clean ? only : both); } break;
        case 7: if (!overlap) { lives(sk, s); lives(dk, d); fetch(); snap(); dst().relo_assign(src(), cnt); set(); gone(); verify("relo_assign", both); } break;
        case 8: if constexpr (copyable) { lives(sk, s); if constexpr (clean) {} else if (overlap) break; if constexpr (!clean) for (int i = 0; i < cnt; i++) dead(dk, d + i); fetch(); snap(); dst().copy_overlapping(csrc(), cnt); set(); verify(overlap ? "copy_overlapping" : "copy_not_overlapping", only); } break;
        case 9: { lives(sk, s); if constexpr (clean) {} else if (overlap) break; if constexpr (!clean) for (int i = 0; i < cnt; i++) dead(dk, d + i); fetch(); snap(); dst().move_overlapping(src(), cnt); set(); moved(); verify(overlap ? "move_overlapping" : "move_not_overlapping", clean ? only : both); break; }
        case 10: { lives(sk, s); for (int i = 0; i < cnt; i++) if (!in(d + i, s)) dead(dk, d + i); fetch(); snap(); dst().relo_overlapping(src(), cnt); if (!(same && s == d)) { gone(); set(); } verify(!overlap ? "relo_not_overlapping" : s < d ? "relo_up" : "relo_down", both); break; }
        case 11: if constexpr (copyable) { lives(sk, s); lives(dk, d); fetch(); snap(); dst().copy_assign_overlapping(csrc(), cnt); set(); verify(overlap ? "copy_assign_overlapping" : "copy_assign_not_overlapping", only); } break;
        case 12: { if (same && s == d) break; lives(sk, s); lives(dk, d); fetch(); snap(); dst().move_assign_overlapping(src(), cnt); moved(); set(); verify(overlap ? "move_assign_overlapping" : "move_assign_not_overlapping", clean ? only : both); break; }
      }
      if constexpr (copyable && std::is_copy_assignable_v<T>) if (r.chance(1, 6)) { int i = (int)r.below(N), j = (int)r.below(N); if (i != j) { live(0, i); dead(1, j); snap(); auto t = b.at(r, j).try_copy(a.at(r, i)); VH_CHECK(t == b.raw(j), "try_copy", "%s: try_copy returned another pointer", name); b.m[j] = a.m[i]; verify("try_copy", {{1, j, 1}}); if constexpr (std::is_copy_assignable_v<T>) { live(0, j); snap(); t = b.at(r, j).try_copy_assign(a.at(r, j)); VH_CHECK(t == b.raw(j), "try_copy", "%s: try_copy_assign returned another pointer", name); b.m[j] = a.m[j]; verify("try_copy_assign", {{1, j, 1}}); } } }
      // arithmetic and comparison
      int i = (int)r.range(-3, N), j = (int)r.below(N + 1); best::ptr<T> p = a.raw(0), q = a.raw(j), pi = p + i; c.event("arithmetic");
      VH_CHECK(pi.to_addr() == p.to_addr() + i * (i64)sizeof(T) && pi - q == i - j && pi.byte_offset_from(q) == (i - j) * (i64)sizeof(T) && (pi - i) == p && q.layout().size() == sizeof(T) && q.layout().align() == alignof(T), "arithmetic", "%s: %d and %d: difference %td", name, i, j, pi - q);
      VH_CHECK((pi == q) == (i == j) && (pi < q) == (i < j) && (pi >= q) == (i >= j) && (pi <=> q.raw() > 0) == (i > j) && pi != nullptr && pi > nullptr && (best::ptr<T>() == nullptr) && !(best::ptr<T>() > nullptr) && best::ptr<void>(pi) == pi && (best::ptr<const T>(pi) <= q) == (i <= j), "compare", "%s: %d and %d", name, i, j);
      if (j < N && a.m[j]) { VH_CHECK(&*q == a.raw(j) && q.get() == a.raw(j) && E::read(*q) == *a.m[j] && q.raw() == a.raw(j) && q.operator->() == a.raw(j) && !q.is_niche(), "deref", "%s: slot %d", name, j); c.event("deref"); }
    }
    for (int k = 0; k < 2; k++) for (int i = 0; i < N; i++) dead(k, i);
    if (r.chance(1, 40)) c.sample(vh::fmt("%s: %d steps, trace %016llx", name, len, (unsigned long long)sig));
  }
  tr::end(c);
}
int f1(int x) { return x + 1; } int f2(int x) { return x + 2; } int f3(int x) { return x * 3; }
struct B1 { int a = 1; }; struct B2 { long b = 2; virtual int id() { return 2; } virtual ~B2() {} }; struct D : B1, B2 { int d = 3; int id() override { return 3; } };
}  // namespace
#define ARENA(id, T) VH_WORKLOAD(arena_##id, 60, 2000) { run<T>(c, #T); }
#ifdef PART_A
ARENA(u8, u8) ARENA(u16, u16) ARENA(int, int) ARENA(u64, u64) ARENA(s3, S3) ARENA(a32, A32) ARENA(poly, Poly) ARENA(noassign, NoAssign)
ARENA(obj, tr::Obj) ARENA(big, tr::Big) ARENA(rel, tr::Rel) ARENA(align, tr::Align) ARENA(uniq, tr::Uniq) ARENA(reluniq, tr::RelUniq)
// Slots of references and functions: copies, moves and relocations keep what each slot refers to.
template <class R, class Put> static void slots(Ctx& c, const char* name, Put put, std::function<bool(best::ptr<R>, int)> is) {
  Rng& r = c.rng; best::object<R> a[N], b[N]; int m[2][N]; best::object<R>* ar[2] = {a, b}; auto at = [&](int k, int i) { return ar[k][i].as_ptr(); };
  for (int k = 0; k < 2; k++) for (int i = 0; i < N; i++) put(at(k, i), m[k][i] = (int)r.below(3), false);
  for (int step = 0; step < 40; step++) {
    int sk = (int)r.below(2), dk = (int)r.below(2), cnt = (int)r.len(6), s = (int)r.below(N - cnt + 1), d = (int)r.below(N - cnt + 1); bool overlap = sk == dk && std::abs(s - d) < cnt; std::vector<int> old(m[sk] + s, m[sk] + s + cnt); int op = (int)r.below(12);
    if (op < 2) { int i = (int)r.below(N); put(at(dk, i), m[dk][i] = (int)r.below(3), op == 1); }
    else if (op < 4) { int i = (int)r.below(N), j = (int)r.below(N); if (op == 2) ar[dk][i] = ar[sk][j]; else ar[dk][i] = best::object<R>(ar[sk][j]); m[dk][i] = m[sk][j]; }
    else {
      auto p = at(dk, 0) + d, q = at(sk, 0) + s; if (overlap && op < 10) op = 10 + op % 2; std::vector<int> keep(m[sk], m[sk] + N);
      switch (op) { case 4: p.copy(q, cnt); break; case 5: p.move(q, cnt); break; case 6: p.copy_assign(q, cnt); break; case 7: p.move_assign(q, cnt); break; case 8: p.relo(q, cnt); break; case 9: p.relo_assign(q, cnt); break; case 10: p.copy_overlapping(q, cnt); break; default: p.move_overlapping(q, cnt); }
      std::copy(old.begin(), old.end(), m[dk] + d); if (op == 8 || op == 9) for (int i = 0; i < cnt; i++) if (!(sk == dk && s + i >= d && s + i < d + cnt)) put(at(sk, s + i), m[sk][s + i] = (int)r.below(3), false);
    }
    for (int k = 0; k < 2; k++) for (int i = 0; i < N; i++) VH_CHECK(is(at(k, i), m[k][i]), name, "%s slot %d does not refer to %d after op %d of %d slots", name, i, m[k][i], op, cnt);
    c.eval(); c.event("slots"); c.state(hcomb(hbytes(m, sizeof m), hstr(name)));
  }
}
VH_WORKLOAD(reference_slots, 200, 5000) {
  int v[3] = {10, 20, 30}; slots<int&>(c, "int&", [&](best::ptr<int&> p, int k, bool as) { as ? p.assign(v[k]) : p.construct(v[k]); }, [&](best::ptr<int&> p, int k) { return &*p == &v[k] && *p == v[k]; });
  slots<const int&>(c, "const int&", [&](best::ptr<const int&> p, int k, bool as) { as ? p.assign(v[k]) : p.construct(v[k]); }, [&](best::ptr<const int&> p, int k) { return &*p == &v[k]; });
  slots<tr::Obj&>(c, "Obj&", [&, o = std::array<tr::Obj*, 3>{(tr::Obj*)&v[0], (tr::Obj*)&v[1], (tr::Obj*)&v[2]}](best::ptr<tr::Obj&> p, int k, bool as) { as ? p.assign(*o[k]) : p.construct(*o[k]); }, [&](best::ptr<tr::Obj&> p, int k) { return (void*)&*p == (void*)&v[k]; });
}
VH_WORKLOAD(function_slots, 200, 5000) { int (*fs[])(int) = {f1, f2, f3}; slots<int(int)>(c, "int(int)", [&](best::ptr<int(int)> p, int k, bool as) { as ? p.assign(*fs[k]) : p.construct(*fs[k]); }, [&](best::ptr<int(int)> p, int k) { int x = (int)c.rng.below(100); return &*p == fs[k] && (*p)(x) == fs[k](x) && p(x) == fs[k](x); }); }
// Copies between arrays of different types convert each element.
template <class T, class U> static void conv(Ctx& c, const char* name) {
  Rng& r = c.rng; size_t n = r.below(20); std::vector<U> s(n + 1); for (auto& x : s) x = (U)r.next(); std::vector<T> d(n + 3, T(77)); std::vector<U> t = s; best::ptr<U> q = s.data(); best::ptr<T> p = d.data() + 1;
  switch (r.below(6)) { case 0: p.copy(q, n); break; case 1: p.move(q, n); break; case 2: p.relo(q, n); break; case 3: p.copy_assign(q.as_const(), n); break; case 4: p.move_assign(q, n); break; default: p.copy_overlapping(q, n); }
  for (size_t i = 0; i < n; i++) VH_CHECK(d[i + 1] == (T)t[i], "convert", "%s: element %zu", name, i); VH_CHECK(d[0] == T(77) && d[n + 1] == T(77) && d[n + 2] == T(77), "outside", "%s wrote outside of its %zu elements", name, n); c.eval(); c.event("converting"); c.state(hcomb(hbytes(t.data(), n * sizeof(U)), hstr(name)));
}
VH_WORKLOAD(converting, 300, 5000) { conv<int, short>(c, "short to int"); conv<i64, int>(c, "int to i64"); conv<u64, u8>(c, "u8 to u64"); conv<double, int>(c, "int to double"); conv<i32, u16>(c, "u16 to i32"); }
VH_WORKLOAD(fill, 200, 4000) { Rng& r = c.rng; u32 a[20], m[20]; for (int i = 0; i < 20; i++) a[i] = m[i] = (u32)r.next(); size_t n = r.below(18), at = r.below(20 - n), b = r.below(256); best::ptr<u32>(a + at).fill((u8)b, n); if (n) for (size_t i = at; i < at + n; i++) m[i] = (u32)(b * 0x01010101u); VH_CHECK(!memcmp(a, m, sizeof a), "fill", "fill(%zu, %zu) at %zu", b, n, at); c.eval(); c.event("fill"); c.state(hbytes(m, sizeof m)); }
VH_WORKLOAD(upcasts, 100, 400) {
  D d; D* dp = &d; best::ptr<D> p = dp; best::ptr<B1> b1 = p; best::ptr<B2> b2 = p; best::ptr<B2> b2r = dp; best::ptr<const B2> cb = b2; best::ptr<void> v = p; best::ptr<const void> cv = b2; c.eval(); c.event("upcasts");
  VH_CHECK(b1.raw() == static_cast<B1*>(dp) && b2.raw() == static_cast<B2*>(dp) && b2r == b2 && cb.raw() == static_cast<B2*>(dp) && v.raw() == (void*)dp && cv.raw() == (void*)static_cast<B2*>(dp), "upcast", "pointers to the bases of an object");
  VH_CHECK(b1->a == 1 && b2->b == 2 && b2->id() == 3 && cb->b == 2 && p->d == 3 && v.cast(best::types<D>)->d == 3 && (*p).id() == 3, "upcast", "reading through a pointer to a base"); b2->b = 9; VH_CHECK(d.b == 9, "upcast", "writing through a pointer to a base");
  VH_CHECK((!best::ptr_losslessly_converts_to<D, B2> && !best::ptr_losslessly_converts_to<D, void> && best::ptr_losslessly_converts_to<D, const D> && best::ptr_losslessly_converts_to<int[4], const int[4]> && best::ptr_losslessly_converts_to<int, int[]> && best::ptr_losslessly_converts_to<int[4], int[]> && !best::ptr_losslessly_converts_to<const int, int> && best::ptr_losslessly_converts_to<void, const void>), "lossless", "which conversions keep the operations of the pointee");
}
VH_WORKLOAD(null, 1, 1) {
  best::ptr<int> p; best::ptr<int> q = best::ptr<int>::from_addr(0x10); VH_CHECK(p == nullptr && p.raw() == nullptr && p.to_addr() == 0 && q != nullptr && q > p && best::ptr<int>::dangling() != nullptr && best::ptr<int>::dangling().to_addr() % alignof(int) == 0, "null", "null and dangling pointers");
  if (best::is_debug()) { VH_MUST_CRASH("null", "dereferencing a null pointer", volatile int x = *p; (void)x); VH_MUST_CRASH("null", "getting through a null pointer", p.get()); VH_MUST_CRASH("null", "dereferencing a pointer into the first page", volatile int x = *q; (void)x); VH_MUST_CRASH("null", "constructing through a null pointer", p.construct(3)); VH_MUST_CRASH("null", "assigning through a null pointer", p.assign(3)); VH_MUST_CRASH("null", "destroying through a null pointer", p.destroy()); int y = 0; VH_MUST_CRASH("null", "copying to null", p.copy(best::ptr(&y), 1)); VH_MUST_CRASH("null", "copying from null", best::ptr(&y).copy(p, 1)); VH_MUST_CRASH("null", "dereferencing a null span pointer", (void)best::ptr<int[]>().deref().size()); c.event("must_crash", 9); }
  int y = 0; best::ptr(&y).copy(p, 0); p.copy(best::ptr(&y), 0); p.relo_overlapping(p, 0); c.event("zero_counts"); c.eval(12);
}
#else
// Arrays: fixed and run-time sized.
template <class T, size_t n> static void arrays(Ctx& c, const char* name) {
  using E = El<T>; Rng& r = c.rng; tr::begin(c, name); constexpr bool copyable = std::is_copy_constructible_v<T>; {
  std::vector<int> v(n), w(n); auto fresh = [&](std::vector<int>& x) { for (int& e : x) e = (int)r.below(100) + 1; }; fresh(v); fresh(w);
  alignas(64) unsigned char mem[4][n * sizeof(T) + 128]; memset(mem, 0x77, sizeof mem); auto raw = [&](int k) { return (T*)(mem[k] + 64); }; auto guards = [&](int k) { for (int i = 0; i < 64; i++) if (mem[k][i] != 0x77 || mem[k][64 + n * sizeof(T) + i] != 0x77) return false; return true; };
  using A = T[n]; auto fat = [&](int k) { best::ptr<A> p = (A*)raw(k); return p; };
  auto holds = [&](int k, const std::vector<int>& x, const char* what) { for (size_t i = 0; i < n; i++) { int g = E::read(raw(k)[i]); VH_CHECK(g == x[i], what, "%s[%zu] %s: element %zu is %d, must be %d", name, n, what, i, g, x[i]); } for (int q = 0; q < 4; q++) VH_CHECK(guards(q), "outside", "%s[%zu] %s wrote outside of the array", name, n, what); c.eval(); c.event(what); };
  auto src = [&]<size_t... i>(std::index_sequence<i...>, auto f) { T x[n] = {E::make(v[i])...}; f(x); };
  auto with = [&](auto f) { src(std::make_index_sequence<n>{}, f); };
  auto same = [&](std::vector<int>& x, auto f) { std::vector<int> save = v; v = x; with(f); v = save; };
  if constexpr (copyable) {
    same(v, [&](T (&x)[n]) { fat(0).construct(x); }); holds(0, v, "array_construct");
    same(w, [&](T (&x)[n]) { best::span<T, n> s = x; fat(1).construct(s); }); holds(1, w, "array_construct_span");
    fresh(v); same(v, [&](T (&x)[n]) { fat(0).assign(x); }); holds(0, v, "array_assign"); fresh(v); same(v, [&](T (&x)[n]) { best::span<T, n> s = x; fat(0).assign(s); }); holds(0, v, "array_assign_span");
    fat(2).copy(fat(1)); holds(2, w, "array_copy"); holds(1, w, "array_copy"); fat(1).copy_assign(fat(0)); holds(1, v, "array_copy_assign"); fat(1).destroy(); VH_CHECK(fat(1).try_copy(fat(2)) == fat(1), "array_try_copy", "try_copy returned another pointer"); holds(1, w, "array_try_copy"); VH_CHECK(fat(2).try_copy_assign(fat(0)) == fat(2), "array_try_copy", "try_copy_assign"); holds(2, v, "array_try_copy_assign");
    fat(2).destroy(); fat(1).destroy(); fat(0).destroy();
  }
  same(v, [&](T (&x)[n]) { fat(0).construct(BEST_MOVE(x)); for (T& e : x) VH_CHECK(E::read(e) == E::moved(E::read(raw(0)[&e - x])), "array_move", "the source of a moved array"); }); holds(0, v, "array_construct_move");
  same(w, [&](T (&x)[n]) { fat(1).construct(BEST_MOVE(x)); }); holds(1, w, "array_construct_move"); fresh(w); same(w, [&](T (&x)[n]) { fat(1).assign(BEST_MOVE(x)); }); holds(1, w, "array_assign_move");
  { auto p = fat(0); VH_CHECK(&(*p)[0] == raw(0) && p.layout().size() == n * sizeof(T) && (p + 1).to_addr() - p.to_addr() == n * sizeof(T) && (p - 2).byte_offset_from(p) == -2 * (ptrdiff_t)(n * sizeof(T)), "array_arithmetic", "%s[%zu]", name, n);
    best::ptr<T[]> f = p, g = best::ptr<T>(raw(0)), h(raw(0), n), k = best::ptr<T>(raw(1)); best::ptr<const T[]> cf = f; auto sp = *f; c.event("fat");
    VH_CHECK(f.meta() == n && f.raw() == raw(0) && f->size() == n && sp.data() == raw(0) && sp.size() == n && &f[n - 1] == raw(0) + n - 1 && cf.meta() == n && cf.raw() == raw(0) && g.meta() == 1 && g.raw() == raw(0) && f.layout().size() == n * sizeof(T) && f.layout().align() == alignof(T) && h == f && !(h < f) && cf == f, "fat", "%s[] of %zu", name, n);
    VH_CHECK((f == k) == false && (f < k) == (raw(0) < raw(1)) && (g == f) == (n == 1) && (g < f) == (n > 1) && f != nullptr && best::ptr<T[]>() == nullptr && best::ptr<T[]>().meta() == 0 && f.to_pointee() == raw(0) && f.as_const() == cf, "fat_compare", "%s[] of %zu", name, n);
    size_t b = r.below(n + 1), e = b + r.below(n - b + 1); auto sub = f[best::bounds{.start = b, .end = e}]; VH_CHECK(sub.size() == e - b && sub.data() == raw(0) + b, "fat_slice", "%s[]: [%zu, %zu)", name, b, e); }
  if constexpr (copyable) {
    best::ptr<T[]> x(raw(0), n), y(raw(2), n), z(raw(3), n); y.copy(x); holds(2, v, "fat_copy"); y.copy_assign(best::ptr<T[]>(raw(1), n)); holds(2, w, "fat_copy_assign"); auto t = z.try_copy(x); VH_CHECK(t == z && t.meta() == n, "fat_try_copy", "returned another pointer"); holds(3, v, "fat_try_copy"); t = z.try_copy_assign(y); VH_CHECK(t == z, "fat_try_copy", "returned another pointer"); holds(3, w, "fat_try_copy_assign");
    fresh(w); same(w, [&](T (&s)[n]) { z.assign(best::span<T>(s)); VH_CHECK(best::ptr<T[]>::meta_for(best::span<T>(s)) == n, "meta_for", "meta_for of a span of %zu", n); }); holds(3, w, "fat_assign"); z.destroy(); fresh(w); same(w, [&](T (&s)[n]) { z.construct(best::span<const T>(s)); }); holds(3, w, "fat_construct"); z.destroy(); y.destroy();
  }
  best::ptr<T[]>(raw(0), n).destroy(); fat(1).destroy(); c.state(hcomb(hbytes(v.data(), n * 4), hstr(name) + n)); }
  tr::end(c);
}
template <class T> static void sizes(Ctx& c, const char* name) { arrays<T, 1>(c, name); arrays<T, 2>(c, name); arrays<T, 3>(c, name); arrays<T, 7>(c, name); }
VH_WORKLOAD(arrays_plain, 60, 1500) { sizes<int>(c, "int"); sizes<u8>(c, "u8"); sizes<A32>(c, "A32"); }
VH_WORKLOAD(arrays_tracked, 60, 1500) { sizes<tr::Obj>(c, "Obj"); sizes<tr::Rel>(c, "Rel"); sizes<tr::Uniq>(c, "Uniq"); sizes<tr::RelUniq>(c, "RelUniq"); }
// Arrays as the elements of bulk operations.
VH_WORKLOAD(arrays_bulk, 100, 3000) {
  Rng& r = c.rng; tr::begin(c, "arrays of arrays"); { using A = tr::Obj[2]; alignas(64) unsigned char mem[10][sizeof(A)]; std::optional<int> m[10]; best::ptr<A> p = (A*)mem;
  auto live = [&](int i) { if (!m[i]) { m[i] = (int)r.below(50); tr::Obj x[2] = {*m[i], *m[i] + 100}; (p + i).construct(x); } }; auto dead = [&](int i) { if (m[i]) { (p + i).destroy(); m[i].reset(); } };
  for (int step = 0; step < 30; step++) { int n = (int)r.below(4), s = (int)r.below(11 - n), d = (int)r.below(11 - n), op = (int)r.below(5); bool overlap = std::abs(s - d) < n; auto inside = [&](int i, int lo) { return i >= lo && i < lo + n; }; for (int i = 0; i < n; i++) live(s + i); std::vector<int> old; for (int i = 0; i < n; i++) old.push_back(*m[s + i]);
    if (op == 0) { for (int i = 0; i < n; i++) live(d + i); old.clear(); for (int i = 0; i < n; i++) old.push_back(*m[s + i]); (p + d).copy_assign_overlapping(p + s, n); for (int i = 0; i < n; i++) m[d + i] = old[i]; }
    else if (op == 1) { for (int i = 0; i < n; i++) if (!inside(d + i, s)) dead(d + i); if (s != d) { (p + d).relo_overlapping(p + s, n); for (int i = 0; i < n; i++) m[s + i].reset(); for (int i = 0; i < n; i++) m[d + i] = old[i]; } }
    else if (!overlap) { for (int i = 0; i < n; i++) if (op == 4) live(d + i); else dead(d + i); if (op == 2) (p + d).copy(p + s, n); else if (op == 3) { (p + d).relo(p + s, n); for (int i = 0; i < n; i++) m[s + i].reset(); } else { (p + d).relo_assign(p + s, n); for (int i = 0; i < n; i++) m[s + i].reset(); } for (int i = 0; i < n; i++) m[d + i] = old[i]; }
    for (int i = 0; i < 10; i++) if (m[i]) VH_CHECK((*(p + i))[0].get() == *m[i] && (*(p + i))[1].get() == *m[i] + 100, "arrays_bulk", "element %d after op %d of %d from %d to %d", i, op, n, s, d); c.eval(); c.event("arrays_bulk"); c.state(hcomb(hcomb(n, s), hcomb(d, op))); }
  for (int i = 0; i < 10; i++) dead(i); }
  tr::end(c);
}
// Object slots.
VH_WORKLOAD(objects, 300, 5000) {
  Rng& r = c.rng; int i = (int)r.below(100), j = (int)r.below(100); c.eval(10); c.event("objects"); c.state(hcomb(i, j));
  { best::object<int> a(best::in_place, i), b(best::in_place, j), d = a; const auto& ca = a; VH_CHECK(*a == i && *ca == i && *d == i && &*a == a.as_ptr().raw() && &*ca == &*a && a.operator->() == &*a && (a == b) == (i == j) && (a < b) == (i < j) && a.or_empty() == i, "object", "object<int>"); a = j; VH_CHECK(*a == j && *d == i, "object", "assigning to an object<int>"); *a = 5; VH_CHECK(*ca == 5, "object", "writing through an object<int>"); d = b; VH_CHECK(*d == j && a != d == (j != 5), "object", "object assignment"); static_assert(std::is_same_v<decltype(*best::object<int>(a)), int&&> && std::is_same_v<decltype(*ca), const int&>); }
  { int x = i, y = j; best::object<int&> a(best::in_place, x), b(best::in_place, y), d = a; const auto& ca = a; VH_CHECK(&*a == &x && &*ca == &x && &*d == &x && (a == b) == (i == j) && (a <=> b == 0) == (i == j) && &a.or_empty() == &x && a.operator->() == &x && &*best::object<int&>(a) == &x, "object_ref", "object<int&>"); d = b; VH_CHECK(&*d == &y && &*a == &x && x == i, "object_ref", "copying an object<int&> rebinds it"); *d = 7; VH_CHECK(y == 7 && *b == 7, "object_ref", "writing through an object<int&>"); static_assert(std::is_same_v<decltype(*ca), int&> && std::is_same_v<decltype(*a), int&>);
    best::object<const int&> e(best::in_place, x); best::object<int&&> f(best::in_place, BEST_MOVE(y)); VH_CHECK(&*e == &x && &*f == &y, "object_ref", "const and rvalue references"); static_assert(std::is_same_v<decltype(*e), const int&>); }
  { best::object<void> a(best::in_place), b = a; VH_CHECK(a == b && (a <=> b) == 0, "object_void", "object<void>"); static_assert(std::is_void_v<decltype(*a)> && std::is_empty_v<best::object<void>> && std::is_same_v<std::remove_cvref_t<decltype(a.or_empty())>, best::empty>); *a; }
  { best::object<int(int)> a(best::in_place, f1), b(best::in_place, f3), d = a; VH_CHECK((*a)(i) == f1(i) && (*b)(i) == f3(i) && &*d == f1, "object_function", "object<int(int)>"); d = b; VH_CHECK(&*d == f3 && &*a == f1, "object_function", "copying an object<int(int)>"); }
  { int v[3] = {i, j, i + j}; best::object<int[3]> a(best::in_place, v), b = a; v[1]++; VH_CHECK((*a)[0] == i && (*a)[1] == j && (*a)[2] == i + j && (*b)[1] == j, "object_array", "object<int[3]>"); a.as_ptr().assign(v); VH_CHECK((*a)[1] == j + 1 && (*b)[1] == j, "object_array", "assigning to an object<int[3]>"); static_assert(sizeof a == sizeof v); }
  tr::begin(c, "object<Obj>"); { best::object<tr::Obj> a(best::in_place, i), b(best::in_place, j), d = a, e = BEST_MOVE(b); VH_CHECK(a->get() == i && d->get() == i && e->get() == j && b->v == tr::Moved, "object_obj", "object<Obj>"); d = e; VH_CHECK(d->get() == j && e->get() == j, "object_obj", "copy"); d = tr::Obj(i + 3); VH_CHECK(d->get() == i + 3, "object_obj", "assignment of a value"); best::object<tr::Uniq> u(best::in_place, i), w = BEST_MOVE(u); VH_CHECK(w->get() == i && u->v == tr::Moved, "object_obj", "object<Uniq>"); tr::Uniq t = *BEST_MOVE(w); VH_CHECK(t.get() == i, "object_obj", "moving out of an object"); } tr::end(c);
  tr::begin(c, "object<Obj[2]>"); { tr::Obj v[2] = {i, j}; best::object<tr::Obj[2]> a(best::in_place, v), b = a; VH_CHECK((*a)[0].get() == i && (*b)[1].get() == j && v[0].get() == i, "object_array", "object<Obj[2]>"); } tr::end(c);
}
VH_WORKLOAD(puns, 300, 5000) {
  Rng& r = c.rng; int i = (int)r.below(1000); const best::unsafe u("harness"); c.eval(8); c.event("puns"); c.state(i); using best::index;
  { using P = best::pun<int, int&, void, char[4], int&&, double>; int x = i; P a(index<0>, i), b(index<1>, x), d(index<3>, "abc"), e(index<4>, BEST_MOVE(x)), f(index<5>, i / 8.0); const P ca = a, cb = b; P n(index<2>);
    VH_CHECK(a.get(u, index<0>) == i && ca.get(u, index<0>) == i && &b.get(u, index<1>) == &x && &cb.get(u, index<1>) == &x && !memcmp(d.get(u, index<3>), "abc", 4) && &e.get(u, index<4>) == &x && f.get(u, index<5>) == i / 8.0 && *a.object(u, index<0>) == i, "pun", "alternatives of a pun"); n.get(u, index<2>);
    a.get(u, index<0>)++; VH_CHECK(a.get(u, index<0>) == i + 1 && ca.get(u, index<0>) == i, "pun", "writing to an alternative"); n = f; VH_CHECK(n.get(u, index<5>) == i / 8.0, "pun", "copying a pun"); static_assert(std::is_trivially_copyable_v<P> && sizeof(P) == 8); }
  tr::begin(c, "pun"); { using P = best::pun<tr::Obj, int, tr::Uniq>; alignas(P) unsigned char mem[sizeof(P)]; 
    { auto* p = new (mem) P(index<0>, i); VH_CHECK(p->get(u, index<0>).get() == i, "pun", "an object in a pun"); tr::Obj keep = p->get(u, index<0>); p->~P(); VH_CHECK(tr::live() == 2, "pun", "destroying a pun must not destroy its alternative: %llu live", (unsigned long long)tr::live()); ((tr::Obj*)mem)->~Obj(); }
    { auto* p = new (mem) P(index<2>, i); tr::Uniq t = BEST_MOVE(*p).get(u, index<2>); VH_CHECK(t.get() == i && p->get(u, index<2>).v == tr::Moved, "pun", "moving out of a pun"); p->object(u, index<2>).as_ptr().destroy(); p->~P(); }
    { P p; P* q = new (mem) P(index<1>, i); VH_CHECK(q->get(u, index<1>) == i, "pun", "int"); q->~P(); } } tr::end(c);
}
// Layouts: those of the structs, unions and arrays the compiler lays out.
template <class...> struct St; template <class A> struct St<A> { A a; }; template <class A, class B> struct St<A, B> { A a; B b; }; template <class A, class B, class C> struct St<A, B, C> { A a; B b; C c; }; template <class A, class B, class C, class D> struct St<A, B, C, D> { A a; B b; C c; D d; }; template <class A, class B, class C, class D, class E> struct St<A, B, C, D, E> { A a; B b; C c; D d; E e; };
template <class...> union Un; template <class A> union Un<A> { A a; }; template <class A, class B> union Un<A, B> { A a; B b; }; template <class A, class B, class C> union Un<A, B, C> { A a; B b; C c; }; template <class A, class B, class C, class D> union Un<A, B, C, D> { A a; B b; C c; D d; }; template <class A, class B, class C, class D, class E> union Un<A, B, C, D, E> { A a; B b; C c; D d; E e; };
template <int> struct Ty; template <> struct Ty<0> { using t = u8; using o = u8; }; template <> struct Ty<1> { using t = u16; using o = u16; }; template <> struct Ty<2> { using t = u32; using o = u32; }; template <> struct Ty<3> { using t = u64; using o = u64; }; template <> struct Ty<4> { using t = __int128; using o = __int128; }; template <> struct Ty<5> { using t = S3; using o = S3; }; template <> struct Ty<6> { using t = A32; using o = A32; }; template <> struct Ty<7> { using t = char[5]; using o = char[5]; }; template <> struct Ty<8> { using t = int&; using o = int*; }; template <> struct Ty<9> { using t = short[3]; using o = short[3]; }; template <> struct Ty<10> { using t = int(int); using o = int (*)(int); }; template <> struct Ty<11> { using t = A32[2]; using o = A32[2]; };
template <class T> struct Laid { char c; T x; };
template <int I> void layout_case(Ctx& c) {
  static constexpr u64 sd = hcomb(VH_CSEED, 0x4c00 + I); constexpr size_t n = 1 + Rng(sd).below(5);
  [&]<size_t... k>(std::index_sequence<k...>) { using S = St<typename Ty<mix(sd + k) % 12>::o...>; using U = Un<typename Ty<mix(sd + k) % 12>::o...>; static constexpr auto s = best::layout::of_struct<typename Ty<mix(sd + k) % 12>::t...>(), u = best::layout::of_union<typename Ty<mix(sd + k) % 12>::t...>(); std::string d; ((d += vh::fmt("%d ", (int)(mix(sd + k) % 12))), ...);
    VH_CHECK(s.size() == sizeof(S) && s.align() == alignof(S), "of_struct", "struct of members %s: %zu/%zu, must be %zu/%zu", d.c_str(), s.size(), s.align(), sizeof(S), alignof(S)); VH_CHECK(u.size() == sizeof(U) && u.align() == alignof(U), "of_union", "union of members %s: %zu/%zu, must be %zu/%zu", d.c_str(), u.size(), u.align(), sizeof(U), alignof(U));
    (([&] { using T = typename Ty<mix(sd + k) % 12>::t; using O = typename Ty<mix(sd + k) % 12>::o; auto l = best::layout::of<T>(); size_t m = c.rng.below(100); auto a = best::layout::array<T>(m); VH_CHECK(l.size() == sizeof(O) && l.align() == alignof(O) && a.size() == m * sizeof(O) && a.align() == alignof(O) && l == best::layout::of<O>() && l.fits_in(l) && best::size_of<T> == sizeof(O) && best::align_of<T> == alignof(O), "layout", "layout of type %d", (int)(mix(sd + k) % 12)); bool fits = sizeof(O) <= u.size() && alignof(O) <= u.align(); VH_CHECK(l.fits_in(u) && fits && u.fits_in(l) == (u == l) && (best::fits_in_layout<T, u>) && (best::has_layout<T, u> == (u == l)), "fits_in", "type %d in the union of %s", (int)(mix(sd + k) % 12), d.c_str());
      size_t lim = (size_t)PTRDIFF_MAX / sizeof(O); VH_CHECK(best::layout::array<T>(lim).size() == lim * sizeof(O), "layout_limit", "the largest array of type %d", (int)(mix(sd + k) % 12)); }()), ...);
    using Lay = best::laid_out<u>; Laid<Lay> x; VH_CHECK(sizeof(Lay) == u.size() && (uintptr_t)x.x.get() % u.align() == 0 && alignof(Lay) == u.align(), "laid_out", "laid_out of %s", d.c_str()); c.eval(4); c.event("layouts"); c.state(hstr(d)); }(std::make_index_sequence<n>{});
}
VH_WORKLOAD(layouts, VH_CASES, VH_CASES) { [&]<int... i>(std::integer_sequence<int, i...>) { ((c.idx == (u64)i ? layout_case<i>(c) : (void)0), ...); }(std::make_integer_sequence<int, VH_CASES>{}); }
struct I3 { int a[3]; };
VH_WORKLOAD(layout_limits, 40, 400) { size_t over = SIZE_MAX / 8 + 1 + (c.rng.flip() ? 0 : c.rng.next() >> 5); VH_MUST_CRASH("layout_limit", "the layout of an array larger than the address space", volatile size_t x = best::layout::array<u64>(over).size(); (void)x); size_t any = c.rng.edge<u64>(); bool fits = any <= SIZE_MAX / 12; if (!fits) { VH_MUST_CRASH("layout_limit", "an array of 12-byte elements that is too large", volatile size_t x = best::layout::array<I3>(any).size(); (void)x); } c.event("layout_limits"); c.eval(); c.state(over); }
#endif
