// C02: layout arithmetic. Oracle: the compiler's own sizeof/alignof of a struct/union with the same members.
#include "vh.h"
#include "best/memory/layout.h"
#include <tuple>
#include <utility>
using namespace vh;

namespace {
struct Empty {};
struct alignas(32) Wide { char x[40]; };
struct Odd { char a[3]; };
struct Mid { short s; char c; };
template <int> struct Uniq {};
using L = std::tuple<char, u16, u32, double, Odd, Mid, Wide, long double, Empty, char[7], u64[2], void*>;
constexpr size_t NL = std::tuple_size_v<L>;
template <size_t I> using El = std::tuple_element_t<I, L>;

template <class... T> struct St;
template <class A> struct St<A> { A a; };
template <class A, class B> struct St<A, B> { A a; B b; };
template <class A, class B, class C> struct St<A, B, C> { A a; B b; C c; };
template <class A, class B, class C, class D> struct St<A, B, C, D> { A a; B b; C c; D d; };
template <class A, class B, class C, class D, class E> struct St<A, B, C, D, E> { A a; B b; C c; D d; E e; };
template <class A, class B, class C, class D, class E, class F> struct St<A, B, C, D, E, F> { A a; B b; C c; D d; E e; F f; };
template <class... T> union Un;
template <class A> union Un<A> { A a; };
template <class A, class B> union Un<A, B> { A a; B b; };
template <class A, class B, class C> union Un<A, B, C> { A a; B b; C c; };
template <class A, class B, class C, class D> union Un<A, B, C, D> { A a; B b; C c; D d; };
template <class A, class B, class C, class D, class E> union Un<A, B, C, D, E> { A a; B b; C c; D d; E e; };
template <class A, class B, class C, class D, class E, class F> union Un<A, B, C, D, E, F> { A a; B b; C c; D d; E e; F f; };

struct Row { const char* what; best::layout s, u; size_t ss, sa, us, ua; u64 id; };
template <size_t... I> Row row_of() {
  Row r{"", best::layout::of_struct<El<I>...>(), best::layout::of_union<El<I>...>(), sizeof(St<El<I>...>), alignof(St<El<I>...>), sizeof(Un<El<I>...>), alignof(Un<El<I>...>), 0};
  u64 id = 1; ((id = id * 13 + I + 1), ...); r.id = id; return r;
}
template <size_t K> constexpr u64 rnd = mix(K * 77 + 5);
template <size_t K, size_t... J> Row rand_row(std::index_sequence<J...>) { return row_of<(mix(rnd<K> + J) % NL)...>(); }
const std::vector<Row>& rows() {
  static const std::vector<Row>* v = [] {
    auto* v = new std::vector<Row>;
    [&]<size_t... I>(std::index_sequence<I...>) { (v->push_back(row_of<I>()), ...); (v->push_back(row_of<I / NL, I % NL>()), ...); }(std::make_index_sequence<NL>{});
    [&]<size_t... I>(std::index_sequence<I...>) { (v->push_back(row_of<I / NL, I % NL>()), ...); }(std::make_index_sequence<NL * NL>{});
    [&]<size_t... I>(std::index_sequence<I...>) { (v->push_back(row_of<I / 64 % 8, I / 8 % 8, I % 8>()), ...); }(std::make_index_sequence<512>{});
    [&]<size_t... I>(std::index_sequence<I...>) { (v->push_back(rand_row<I>(std::make_index_sequence<4>{})), ...); (v->push_back(rand_row<I + 1000>(std::make_index_sequence<5>{})), ...); (v->push_back(rand_row<I + 2000>(std::make_index_sequence<6>{})), ...); }(std::make_index_sequence<200>{});
    return v;
  }();
  return *v;
}
bool is_ub_size(size_t n, size_t sz) { return (u128)n * sz > (u128)SIZE_MAX; }

template <class T> void arr(Ctx& c) {
  size_t n;
  switch (c.rng.below(5)) {
    case 0: n = c.rng.below(100); break;
    case 1: n = SIZE_MAX / sizeof(T) - c.rng.below(3); break;
    case 2: n = SIZE_MAX / sizeof(T) + 1 + c.rng.below(3); break;
    case 3: n = c.rng.edge<u64>(); break;
    default: n = c.rng.next() >> c.rng.below(64);
  }
  if (sizeof(T) == 1 && is_ub_size(n, 1)) return;
  c.state(hcomb(n, sizeof(T)));
  if (is_ub_size(n, sizeof(T))) {
    c.event("array_overflow");
    VH_MUST_CRASH("array-wraps", fmt("array of %zu x %zu bytes", n, sizeof(T)), volatile size_t s = best::layout::array<T>(n).size(); (void)s);
  } else {
    c.event("array_ok"); c.eval();
    auto l = best::layout::array<T>(n);
    VH_CHECK(l.size() == n * sizeof(T) && l.align() == alignof(T), "array", "array<%zu:%zu>(%zu) is %zu:%zu", sizeof(T), alignof(T), n, l.size(), l.align());
  }
}
template <class T> void one(Ctx& c, const char* n, size_t s, size_t a) {
  auto l = best::layout::of<T>();
  c.eval(); c.event("of");
  VH_CHECK(l.size() == s && l.align() == a && best::size_of<T> == s && best::align_of<T> == a, "of", "layout::of<%s> is %zu:%zu, expected %zu:%zu", n, l.size(), l.align(), s, a);
}
}  // namespace

VH_WORKLOAD(member_lists, 64, 64) {
  auto& rs = rows();
  for (size_t i = c.idx; i < rs.size(); i += 64) {
    auto& r = rs[i];
    c.eval(2); c.state(r.id); c.event("struct_layouts"); c.event("union_layouts");
    VH_CHECK(r.s.size() == r.ss && r.s.align() == r.sa, "struct", "of_struct list #%zu is %zu:%zu, compiler says %zu:%zu", i, r.s.size(), r.s.align(), r.ss, r.sa);
    VH_CHECK(r.u.size() == r.us && r.u.align() == r.ua, "union", "of_union list #%zu is %zu:%zu, compiler says %zu:%zu", i, r.u.size(), r.u.align(), r.us, r.ua);
    VH_CHECK(r.s.size() % r.s.align() == 0 && r.u.size() % r.u.align() == 0, "stride", "layout not a multiple of its alignment");
    // Comparisons against every 7th other list.
    for (size_t j = 0; j < rs.size(); j += 7) {
      auto& q = rs[j];
      bool fits = r.ss <= q.ss && r.sa <= q.sa, eq = r.ss == q.ss && r.sa == q.sa;
      VH_CHECK(r.s.fits_in(q.s) == fits, "fits_in", "%zu:%zu fits_in %zu:%zu should be %d", r.ss, r.sa, q.ss, q.sa, fits);
      VH_CHECK((r.s == q.s) == eq && (r.s != q.s) != eq, "equality", "layout equality");
      VH_CHECK(r.u.fits_in(q.s) == (r.us <= q.ss && r.ua <= q.sa), "fits_in", "union fits_in");
      c.event("fits_in");
    }
  }
  if (c.idx == 0) c.sample(fmt("%zu member lists, e.g. struct %zu:%zu", rs.size(), rs[100].ss, rs[100].sa));
}
VH_WORKLOAD(arrays, 3000, 60000) {
  switch (c.rng.below(8)) {
    case 0: arr<char>(c); break; case 1: arr<u16>(c); break; case 2: arr<Odd>(c); break; case 3: arr<u32>(c); break;
    case 4: arr<u64>(c); break; case 5: arr<Wide>(c); break; case 6: arr<u64[5]>(c); break; case 7: arr<Mid>(c); break;
  }
}
VH_WORKLOAD(scalars, 1, 1) {
#define ONE(T) one<T>(c, #T, sizeof(T), alignof(T)); c.state(hbytes(#T, sizeof #T));
  ONE(char) ONE(bool) ONE(short) ONE(int) ONE(long) ONE(float) ONE(double) ONE(long double) ONE(void*) ONE(Wide) ONE(Odd) ONE(Mid) ONE(Empty) ONE(char[7]) ONE(u64[3]) ONE(__int128) ONE(char16_t) ONE(char32_t) ONE(int Empty::*) ONE(Uniq<3>)
  one<int&>(c, "int&", sizeof(void*), alignof(void*)); one<Wide&&>(c, "Wide&&", sizeof(void*), alignof(void*)); one<const char&>(c, "const char&", sizeof(void*), alignof(void*));
  one<void>(c, "void", 1, 1); one<void()>(c, "void()", sizeof(void*), alignof(void*));
  auto d = best::layout(); VH_CHECK(d.size() == 1 && d.align() == 1, "default", "default layout is %zu:%zu", d.size(), d.align());
  auto e = best::layout::of_struct<>(); VH_CHECK(e.size() == 1 && e.align() == 1, "empty-list", "of_struct<>");
  auto u = best::layout::of_union<>(); VH_CHECK(u.size() == 1 && u.align() == 1, "empty-list", "of_union<> is %zu:%zu", u.size(), u.align());
  static_assert(best::has_layout<u32, best::layout::of<u32>()> && !best::has_layout<u32, best::layout::of<u16>()>);
  VH_CHECK((best::fits_in_layout<u16, best::layout::of<u32>()> && !best::fits_in_layout<u32, best::layout::of<u16>()> && !best::fits_in_layout<double, best::layout::of<char[64]>()>), "fits_in", "fits_in_layout");
  best::laid_out<best::layout::of<Wide>()> w; best::laid_out<best::layout::array<u32>(5)> q;
  VH_CHECK(sizeof w == sizeof(Wide) && alignof(decltype(w)) == alignof(Wide) && sizeof q == 20 && alignof(decltype(q)) == 4, "laid_out", "laid_out block has size %zu/%zu", sizeof w, sizeof q);
  VH_CHECK((const void*)w.get() == (const void*)&w && w.layout() == best::layout::of<Wide>(), "laid_out", "laid_out::get");
  size_t s, a; { best::layout l(best::unsafe("test"), 48, 16); s = l.size(); a = l.align(); } VH_CHECK(s == 48 && a == 16, "accessors", "accessors");
  c.eval(8);
}
