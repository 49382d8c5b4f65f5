// C33: type traits, qualifier/reference transformations, construction concepts, operator and call helpers against the
// language's own answers (the standard library's traits, the built-in operators), for a pool of awkward types and types
// generated from a seed (a base and up to five modifiers: const, volatile, pointer, references, arrays, member pointers,
// function types with every qualifier).
#include <functional>
#include <memory>
#include <type_traits>
#include "vh.h"
#include "best/base/tags.h"
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/func/call.h"
#include "best/memory/span.h"
#include "best/meta/init.h"
#include "best/meta/ops.h"
#include "best/meta/traits/arrays.h"
#include "best/meta/traits/classes.h"
#include "best/meta/traits/enums.h"
#include "best/meta/traits/funcs.h"
#include "best/meta/traits/quals.h"
#include "best/meta/traits/refs.h"
#include "best/text/str.h"
#ifndef VH_CSEED
#define VH_CSEED 1
#endif
#ifndef VH_CASES
#define VH_CASES 8
#endif
#ifdef PART_A
#define PARTNS pa
constexpr int Part = 1;
#elif defined PART_B
#define PARTNS pb
constexpr int Part = 2;
#elif defined PART_C
#define PARTNS pc
constexpr int Part = 3;
#else
#define PARTNS pd
constexpr int Part = 4;
#endif
namespace t33 {
struct Agg { int x; double y; }; struct Empty {}; struct Fin final { int v; }; struct Poly { virtual ~Poly() {} int v; }; struct Abs { virtual void f() = 0; }; struct Impl final : Abs { void f() override {} };
struct NoCopy { NoCopy(); NoCopy(NoCopy&&); NoCopy& operator=(NoCopy&&); }; struct NoMove { NoMove(); NoMove(NoMove&&) = delete; }; struct NoDtor { ~NoDtor() = delete; }; class PrivDtor { ~PrivDtor(); };
struct CopyOnly { CopyOnly(const CopyOnly&); CopyOnly& operator=(const CopyOnly&); }; struct LvalCopy { LvalCopy(LvalCopy&); LvalCopy& operator=(LvalCopy&); }; struct ExplCopy { explicit ExplCopy(const ExplCopy&); ExplCopy(); };
struct NoAssign { NoAssign(const NoAssign&) = default; NoAssign& operator=(const NoAssign&) = delete; }; struct OnlyAssign { OnlyAssign(const OnlyAssign&) = delete; OnlyAssign& operator=(const OnlyAssign&); OnlyAssign& operator=(int); };
struct Dtor { ~Dtor() {} int v; }; struct Expl { explicit Expl(int); }; struct Conv { Conv(int); }; struct FromTwo { FromTwo(int, const char*); FromTwo(int*, int&); }; struct To { operator int() const; operator Agg&() const; explicit operator bool() const; };
struct RefMem { int& r; }; struct ConstMem { const int c; }; struct Base { int b; }; struct Mid : Base { int m; }; struct Leaf : Mid { int l; }; struct VBase : virtual Base {}; struct VLeaf : VBase {}; struct VMid : virtual Mid {}; struct Other { int o; }; struct Two : Other, Base {};
struct FinEmpty final {}; union Un { int i; float f; }; union Un2 { int i; NoCopy n; Un2(); ~Un2(); }; enum En { A, B }; enum class Ec : unsigned char { X }; enum En2 : long long { Q }; struct Bits { int a : 3; int b : 5; }; struct Priv { private: int x; }; struct Ctor { Ctor(); int x; };
struct BEST_RELOCATABLE Relo { Relo(const Relo&); Relo& operator=(const Relo&); ~Relo(); void* p; }; template <class T> struct Tmpl { T v; }; template <class> struct Wrap; struct Incomplete;
inline auto lam = [](int x) { return x + 1; }; using Lam = decltype(lam);
template <class... Ts> struct L { static constexpr size_t n = sizeof...(Ts); };
template <size_t i, class T> struct nth; template <size_t i, class H, class... Ts> struct nth<i, L<H, Ts...>> : nth<i - 1, L<Ts...>> {}; template <class H, class... Ts> struct nth<0, L<H, Ts...>> { using type = H; };
using Bases = L<int, char, bool, double, long long, unsigned, void, std::nullptr_t, En, Ec, Agg, Empty, Fin, Poly, Abs, NoCopy, NoMove, NoDtor, Dtor, Un, Leaf, VLeaf, Priv, Lam, best::str, best::vec<int>, Tmpl<int>, FromTwo, En2, CopyOnly>;
using Objects = L<int, const int, volatile int, char, bool, double, const double, unsigned char, long long, std::nullptr_t, int*, const int*, void*, const void*, int**, const char*, En, Ec, En2, Agg, const Agg, Empty, Fin, Poly, Abs, Impl, NoCopy, NoMove, NoDtor, PrivDtor, CopyOnly, const CopyOnly, LvalCopy, ExplCopy, NoAssign, OnlyAssign, Dtor, Expl, Conv, FromTwo, To, RefMem, ConstMem, Base, Mid, Leaf, VBase, VLeaf, VMid, Other, Two, Un, Un2, Bits, Priv, Ctor, Relo, Lam, int Base::*, int Leaf::*, int (*)(int), int (*)(int) noexcept, void (Base::*)(), Base*, Leaf*, const Base*, VLeaf*, Two*, best::str, best::vec<int>, best::box<int>, best::option<int>, best::row<int, char>, Tmpl<double>, FinEmpty>;
using Refs = L<int&, const int&, volatile int&, int&&, const int&&, double&, Agg&, const Agg&, Agg&&, Base&, const Base&, Base&&, Mid&, Leaf&, Leaf&&, const Leaf&, VBase&, VLeaf&, Other&, Two&, Abs&, Impl&, Poly&, int*&, int* const&, const int* const&, int (&)[3], int (&&)[3], const int (&)[3], int (&)[4], NoCopy&, NoCopy&&, const NoCopy&, To&, const To&, LvalCopy&, CopyOnly&, OnlyAssign&, int (&)(int), int (&&)(int)>;
using Elems = L<int, const int, double, short, const char*, Agg, NoCopy, NoMove, CopyOnly, Conv, Expl, To, Dtor, Base, Leaf, std::nullptr_t, Ec>;
}
namespace PARTNS {
using namespace vh; using namespace t33;
template <class T> static const std::string& nameof() { static const char* const f = __PRETTY_FUNCTION__; static const std::string s = [] { std::string r = f; auto p = r.find("T = t33::Wrap<"); r = r.substr(p + 14); return r.substr(0, r.rfind('>')); }(); return s; }
#define NM(T) nameof<Wrap<T>*>().c_str()
#define SAME(key, ...) do { c.eval(); constexpr bool same_ = std::is_same_v<__VA_ARGS__>; VH_CHECK(same_, key, "%s of %s is not %s", key, t, #__VA_ARGS__); } while (0)
#define IS(key, got, want) do { bool g_ = (got), w_ = (want); c.eval(); c.event(w_ ? key ":yes" : key ":no"); VH_CHECK(g_ == w_, key, "%s of %s is %d, the language says %d", key, t, g_, w_); } while (0)
// A base and modifiers from a seed.
constexpr u64 mixs(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
template <class T> concept referable = requires { typename Wrap<T&>; }; template <class T> concept obj = std::is_object_v<T>;
template <class T> concept elem = obj<T> && !std::is_unbounded_array_v<T> && !std::is_abstract_v<std::remove_all_extents_t<T>>;
template <class T> concept ret = !std::is_array_v<T> && !std::is_function_v<T> && !std::is_abstract_v<T>;
template <int k, class T> struct mod { using type = T; };
template <class T> struct mod<0, T> { using type = const T; }; template <class T> struct mod<1, T> { using type = volatile T; };
template <class T> requires (!std::is_reference_v<T>) && requires { typename Wrap<T*>; } struct mod<2, T> { using type = T*; };
template <referable T> struct mod<3, T> { using type = T&; }; template <referable T> struct mod<4, T> { using type = T&&; };
template <elem T> struct mod<5, T> { using type = T[2]; }; template <elem T> struct mod<6, T> { using type = T[7]; }; template <elem T> struct mod<7, T> { using type = T[]; };
template <obj T> struct mod<8, T> { using type = T Agg::*; }; template <ret T> struct mod<9, T> { using type = T(); }; template <ret T> struct mod<10, T> { using type = T(int, char) const; };
template <ret T> struct mod<11, T> { using type = T(int, ...); }; template <ret T> struct mod<12, T> { using type = T() &&; }; template <class R, class... As> struct mod<13, R(As...)> { using type = R (Agg::*)(As...) const; };
template <obj T> requires (!std::is_array_v<T>) struct mod<13, T> { using type = void(T); }; template <class T> struct mod<14, T> { using type = const volatile T; };
template <u64 s, int n, class T> struct build { using type = typename build<mixs(s), n - 1, typename mod<(int)(s % 15), T>::type>::type; }; template <u64 s, class T> struct build<s, 0, T> { using type = T; };
template <u64 s> struct gen { static constexpr u64 a = mixs(s), b = mixs(a), d = mixs(b); using type = typename build<d, (int)(b % 6), typename nth<a % Bases::n, Bases>::type>::type; };
template <class... Ts, class F> void each(L<Ts...>, F f) { (f.template operator()<Ts>(), ...); }
template <size_t n, class F> void times(F f) { [&]<size_t... i>(std::index_sequence<i...>) { (f.template operator()<i>(), ...); }(std::make_index_sequence<n>()); }
template <int p, class F> void seeds(Ctx& c, F f) { (void)c; times<VH_CASES>([&]<size_t i>() { f.template operator()<mixs(mixs((u64)VH_CSEED * 1000003 + (u64)p * 7919) + i)>(); }); }
#ifdef PART_A
template <class T> void unary(Ctx& c) {
  const char* t = NM(T); c.event("types"); c.state(hstr(nameof<Wrap<T>*>()));
  constexpr bool rf = std::is_reference_v<T> || std::is_function_v<T>;
  IS("is_const", best::is_const<T>, rf || std::is_const_v<T>); IS("is_volatile", best::is_volatile<T>, !rf && std::is_volatile_v<T>);
  SAME("as_const", best::as_const<T>, std::add_const_t<T>); SAME("un_const", best::un_const<T>, std::remove_const_t<T>); SAME("as_volatile", best::as_volatile<T>, std::add_volatile_t<T>); SAME("un_volatile", best::un_volatile<T>, std::remove_volatile_t<T>); SAME("un_qual", best::un_qual<T>, std::remove_cv_t<T>);
  IS("is_lref", best::is_lref<T>, std::is_lvalue_reference_v<T>); IS("is_rref", best::is_rref<T>, std::is_rvalue_reference_v<T>); IS("is_ref", best::is_ref<T>, std::is_reference_v<T>);
  IS("is_ref<Lvalue>", (best::is_ref<T, best::ref_kind::Lvalue>), std::is_lvalue_reference_v<T>); IS("is_ref<Rvalue>", (best::is_ref<T, best::ref_kind::Rvalue>), std::is_rvalue_reference_v<T>);
  SAME("un_ref", best::un_ref<T>, std::remove_reference_t<T>); SAME("as_auto", best::as_auto<T>, std::remove_cvref_t<T>); SAME("as_rref", best::as_rref<T>, std::add_rvalue_reference_t<T>); if constexpr (!std::is_rvalue_reference_v<T>) SAME("as_ref", best::as_ref<T>, std::add_lvalue_reference_t<T>);
  IS("is_raw_ptr", best::is_raw_ptr<T>, std::is_pointer_v<T>); SAME("un_raw_ptr", best::un_raw_ptr<T>, std::remove_pointer_t<T>); IS("is_member_ptr", best::is_member_ptr<T>, std::is_member_pointer_v<T>); IS("is_func_ptr", best::is_func_ptr<T>, std::is_pointer_v<T> && std::is_function_v<std::remove_pointer_t<T>>);
  IS("is_array", best::is_array<T>, std::is_array_v<T>); IS("is_sized_array", best::is_sized_array<T>, std::is_bounded_array_v<T>); IS("is_unsized_array", best::is_unsized_array<T>, std::is_unbounded_array_v<T>); SAME("un_array", best::un_array<T>, std::remove_extent_t<T>);
  IS("is_func", best::is_func<T>, std::is_function_v<T>); IS("is_class", best::is_class<T>, std::is_class_v<T>); IS("is_enum", best::is_enum<T>, std::is_enum_v<T>); IS("is_void", best::is_void<T>, std::is_void_v<T>);
  IS("is_empty", best::is_empty<T>, std::is_void_v<T> || std::is_empty_v<T>); if constexpr (std::is_void_v<T>) { SAME("devoid", best::devoid<T>, best::empty); } else { SAME("devoid", best::devoid<T>, T); }
  IS("is_virtual", best::is_virtual<T>, std::is_polymorphic_v<T>); IS("is_abstract", best::is_abstract<T>, std::is_abstract_v<T>); IS("is_concrete", best::is_concrete<T>, !std::is_abstract_v<T>); IS("is_open", best::is_open<T>, std::is_class_v<T> && !std::is_final_v<T>); IS("is_final", best::is_final<T>, !(std::is_class_v<T> && !std::is_final_v<T>));
  if constexpr (std::is_class_v<T>) IS("is_struct", best::is_struct<T>, std::is_aggregate_v<T>); else IS("is_struct", best::is_struct<T>, false);
  if constexpr (!std::is_array_v<T>) IS("is_object", best::is_object<T>, std::is_object_v<T>);
  constexpr bool pointable = std::is_function_v<T> && requires { typename Wrap<T*>; };
  IS("is_tame_func", best::is_tame_func<T>, pointable); IS("is_abominable", best::is_abominable<T>, std::is_function_v<T> && !pointable);
  if constexpr (!std::is_function_v<T>) { SAME("tame", best::tame<T>, T); SAME("as_raw_ptr", best::as_raw_ptr<T>, std::add_pointer_t<T>); IS("is_const_func", best::is_const_func<T>, false); IS("is_ref_func", best::is_ref_func<T>, false); }
  if constexpr (std::is_enum_v<T>) { SAME("as_underlying", best::as_underlying<T>, std::underlying_type_t<T>); T e = (T)(c.rng.below(2)); IS("to_underlying", best::to_underlying(e) == (std::underlying_type_t<T>)e, true); }
  // Shapes.
  if constexpr (std::is_array_v<T>) {
    static constexpr auto sh = best::shape_of<T>; constexpr size_t rank = std::rank_v<T>; size_t volume = 1; c.event("shapes"); if (rank > 1) c.event("deep_shapes");
    IS("shape rank", sh.rank() == rank && sh.dims().size() == rank && !sh.is_scalar(), true); IS("shape unsized", sh.is_unsized(), std::is_unbounded_array_v<T>); SAME("shape element", typename std::remove_const_t<decltype(sh)>::element, std::remove_all_extents_t<T>);
    times<rank>([&]<size_t i>() { size_t want = std::extent_v<T, (unsigned)i>; if (i == 0 && std::is_unbounded_array_v<T>) { want = (size_t)-1; volume = 0; } else volume *= want; c.eval(); VH_CHECK(sh.dims()[i] == want, "shape", "dimension %zu of %s is %zu, must be %zu", i, t, (size_t)sh.dims()[i], want); });
    c.eval(); VH_CHECK(sh.volume() == volume, "shape", "the volume of %s is %zu, must be %zu", t, sh.volume(), volume);
  } else if constexpr (obj<T>) { static constexpr auto sh = best::shape_of<T>; IS("scalar shape", sh.rank() == 0 && sh.is_scalar() && sh.volume() == 1 && sh.dims().size() == 0 && !sh.is_unsized(), true); SAME("shape element", typename std::remove_const_t<decltype(sh)>::element, T); }
  if constexpr (elem<T>) { SAME("as_array", best::as_array<T, 3>, T[3]); SAME("as_array<0>", best::as_array<T, 0>, best::empty); SAME("as_array<0, D>", best::as_array<T, 0, Agg>, Agg); SAME("as_array<1>", best::as_array<T, 1>, T[1]); }
  // Identity, selection, sameness.
  SAME("id", typename best::id<T>::type, T); SAME("dependent", best::dependent<T, int, void>, T); SAME("select", best::select<true, T, Agg>, T); SAME("select", best::select<false, Agg, T>, T); SAME("select_trait", best::select_trait<false, best::id<Agg>, best::id<T>>, T); SAME("extract_trait", best::extract_trait<best::id<T>>, T);
  IS("same", (best::same<T, T> && best::same<T> && best::same<T, T, T>), true); IS("same", (best::same<T, Tmpl<int>[9]> || best::same<T, T, Tmpl<int>[9]> || best::same<Tmpl<int>[9], T, T>), false); IS("one_of", (best::one_of<T, Tmpl<char>, T, Tmpl<char>>), true); IS("one_of", (best::one_of<T, Tmpl<char>, Tmpl<int>[9]> || best::one_of<T>), false);
  IS("type_trait", best::type_trait<best::id<T>>, true); if constexpr (!std::is_class_v<T>) IS("type_trait", best::type_trait<T>, false);
  if constexpr (obj<T> && std::is_default_constructible_v<T> && !std::is_array_v<T>) c.event("default");
}
template <class T> requires obj<T> || std::is_void_v<T> struct dummy {};
VH_WORKLOAD(unary_pool, 1, 2) {
  each(Bases{}, [&]<class T>() { unary<T>(c); unary<const T>(c); unary<volatile T>(c); unary<const volatile T>(c); unary<T*>(c); if constexpr (!std::is_void_v<T>) { unary<T&>(c); unary<const T&&>(c); } if constexpr (elem<T>) { unary<T[2]>(c); unary<const T[3][4]>(c); unary<T[]>(c); unary<volatile T[][5][6]>(c); unary<T (&)[2]>(c); unary<T (*)[2]>(c); unary<const volatile T[2][3][4]>(c); } });
  each(Objects{}, [&]<class T>() { unary<T>(c); }); each(Refs{}, [&]<class T>() { unary<T>(c); });
}
VH_WORKLOAD(unary_generated, 1, 2) { seeds<1>(c, [&]<u64 s>() { times<16>([&]<size_t i>() { unary<typename gen<s + i * 977>::type>(c); }); }); }
// Every qualifier combination of a function type.
template <class T, class Tame, bool cn, bool l, bool r> void func1(Ctx& c) {
  const char* t = NM(T); c.event("functions"); unary<T>(c);
  IS("is_const_func", best::is_const_func<T>, cn); IS("is_lref_func", best::is_lref_func<T>, l); IS("is_rref_func", best::is_rref_func<T>, r); IS("is_ref_func", best::is_ref_func<T>, l || r);
  IS("is_tame_func", best::is_tame_func<T>, (std::is_same_v<T, Tame>)); SAME("tame", best::tame<T>, Tame); SAME("as_raw_ptr", best::as_raw_ptr<T>, Tame*); SAME("as_const", best::as_const<T>, T); SAME("un_volatile", best::un_volatile<T>, T);
}
template <class R, class... As> void funcs(Ctx& c) {
#define FQ(q, cn, l, r) func1<R(As...) q, R(As...), cn, l, r>(c); func1<R(As..., ...) q, R(As..., ...), cn, l, r>(c);
  FQ(, 0, 0, 0) FQ(&, 0, 1, 0) FQ(&&, 0, 0, 1) FQ(const, 1, 0, 0) FQ(const&, 1, 1, 0) FQ(const&&, 1, 0, 1) FQ(volatile, 0, 0, 0) FQ(volatile&, 0, 1, 0) FQ(volatile&&, 0, 0, 1) FQ(const volatile, 1, 0, 0) FQ(const volatile&, 1, 1, 0) FQ(const volatile&&, 1, 0, 1)
}
template <class T, bool cn, bool l, bool r> void nx(Ctx& c) { const char* t = NM(T); IS("is_const_func", best::is_const_func<T>, cn); IS("is_lref_func", best::is_lref_func<T>, l); IS("is_rref_func", best::is_rref_func<T>, r); IS("is_func", best::is_func<T>, true); }
VH_WORKLOAD(function_types, 1, 2) {
  funcs<void>(c); funcs<int>(c); funcs<int&>(c); funcs<const char*, int>(c); funcs<void, int, Agg&, NoCopy>(c); funcs<Agg, void (*)(int)>(c); funcs<NoCopy&&, int&&, double>(c);
#define NX(q, cn, l, r) nx<int(int) q noexcept, cn, l, r>(c);
  NX(, 0, 0, 0) NX(&, 0, 1, 0) NX(&&, 0, 0, 1) NX(const, 1, 0, 0) NX(const&, 1, 1, 0) NX(const&&, 1, 0, 1) NX(volatile, 0, 0, 0) NX(volatile&, 0, 1, 0) NX(volatile&&, 0, 0, 1) NX(const volatile, 1, 0, 0) NX(const volatile&, 1, 1, 0) NX(const volatile&&, 1, 0, 1)
}
// Sealed types travel unchanged.
template <class T> void sealed(Ctx& c) { const char* t = NM(T); using S = best::abridge<T>; SAME("unabridge", best::unabridge<S>, T); IS("abridged", best::abridged<S>, true); IS("abridged", best::abridged<T>, false); c.event("sealed"); }
VH_WORKLOAD(sealing, 1, 2) { sealed<int>(c); sealed<Agg>(c); sealed<Tmpl<Tmpl<int>>>(c); sealed<best::vec<int>>(c); sealed<const int*>(c); sealed<int (*)(int)>(c); const char* t = "two abridged types"; IS("abridge", (best::same<best::abridge<int>, best::abridge<unsigned>>), false); }
#endif
#ifdef PART_B
template <class T, class S> void pair_quals(Ctx& c) {
  const char* t = NM(T); const char* u = NM(S); c.event("pairs"); c.state(hstr(nameof<Wrap<T>*>()) * 31 + hstr(nameof<Wrap<S>*>()));
  constexpr bool rf = std::is_reference_v<S> || std::is_function_v<S>, cn = rf || std::is_const_v<S>, vl = !rf && std::is_volatile_v<S>;
  using C1 = std::conditional_t<vl, std::add_volatile_t<T>, T>; using Want = std::conditional_t<cn, std::add_const_t<C1>, C1>;
  c.eval(); VH_CHECK((std::is_same_v<best::copy_quals<T, S>, Want>), "copy_quals", "copy_quals<%s, %s> is wrong", t, u); c.event(cn && vl ? "quals:cv" : cn ? "quals:c" : vl ? "quals:v" : "quals:none");
  if constexpr (!std::is_reference_v<T> && std::is_reference_v<S> && !std::is_function_v<std::remove_reference_t<S>>) {
    using Q = std::remove_reference_t<S>; using V1 = std::conditional_t<std::is_volatile_v<Q>, std::add_volatile_t<T>, T>; using C2 = std::conditional_t<std::is_const_v<Q>, std::add_const_t<V1>, V1>; using W = std::conditional_t<std::is_lvalue_reference_v<S>, std::add_lvalue_reference_t<C2>, std::add_rvalue_reference_t<C2>>;
    c.eval(); c.event("ref_copies"); VH_CHECK((std::is_same_v<best::copy_ref<T, S>, W>), "copy_ref", "copy_ref<%s, %s> is wrong", t, u);
  } else if constexpr (!cn && !vl) { c.eval(); VH_CHECK((std::is_same_v<best::copy_ref<T, S>, T>), "copy_ref", "copy_ref<%s, %s> is not its first argument", t, u); }
  constexpr bool qt = std::is_same_v<T, S> || std::is_same_v<std::add_const_t<T>, S> || std::is_same_v<std::add_volatile_t<T>, S> || std::is_same_v<std::add_cv_t<T>, S>;
  c.eval(); c.event(qt ? "qualifies:yes" : "qualifies:no"); VH_CHECK((best::qualifies_to<T, S>) == qt, "qualifies_to", "qualifies_to<%s, %s> must be %d", t, u, qt);
  c.eval(); VH_CHECK((best::same<T, S>) == (std::is_same_v<T, S>) && (best::same<T, S, T>) == (std::is_same_v<T, S>) && (best::same<T, T, S>) == (std::is_same_v<T, S>) && (best::one_of<T, Tmpl<char>, S>) == (std::is_same_v<T, S>), "same", "same<%s, %s>", t, u);
}
VH_WORKLOAD(quals_generated, 1, 2) { seeds<2>(c, [&]<u64 s>() { using T = typename gen<s>::type; times<12>([&]<size_t i>() { using S = typename gen<s + 31 + i * 7>::type; if constexpr (!std::is_reference_v<S>) { pair_quals<T, S>(c); pair_quals<S, T>(c); } else pair_quals<T, S>(c); }); pair_quals<T, T>(c); pair_quals<T, const T>(c); pair_quals<const T, T>(c); pair_quals<T, volatile T>(c); pair_quals<const T, const volatile T>(c); pair_quals<volatile T, const volatile T>(c); pair_quals<volatile T, const T>(c); pair_quals<const volatile T, T>(c); }); }
using Quals = L<int, const int, volatile int, const volatile int, void, const void, int&, int&&, const int&, volatile int&&, const volatile int&, int[3], const int[3], volatile int[3], const volatile int[3], int[], const int[], volatile int[], const volatile int[], const int[2][3], volatile int[][3], int(), int (&)(), int*, int* const, const int* volatile, Agg, const Agg, const Agg (&)[2], volatile Agg (&&)[], int Agg::* const>;
VH_WORKLOAD(quals_matrix, 1, 2) { each(Quals{}, [&]<class T>() { each(Quals{}, [&]<class S>() { pair_quals<T, S>(c); }); }); }
// Hierarchies.
template <class T, class B> void derive(Ctx& c) {
  const char* t = NM(T); const char* u = NM(B); c.eval(3); constexpr bool d = std::is_base_of_v<B, T>; constexpr bool st = d && requires(B* b) { static_cast<T*>(b); };
  VH_CHECK((best::derives<T, B>) == d, "derives", "derives<%s, %s> must be %d", t, u, d); VH_CHECK((best::static_derives<T, B>) == st, "static_derives", "static_derives<%s, %s> must be %d", t, u, st); VH_CHECK((best::virtual_derives<T, B>) == (d && !st), "virtual_derives", "virtual_derives<%s, %s> must be %d", t, u, d && !st); c.event(!d ? "not_derived" : st ? "derived" : "virtually_derived");
}
VH_WORKLOAD(hierarchies, 1, 2) { using H = L<Base, Mid, Leaf, VBase, VLeaf, VMid, Other, Two, Abs, Impl, Fin, Poly, Empty>; each(H{}, [&]<class T>() { each(H{}, [&]<class B>() { derive<T, B>(c); }); }); }
#endif
#ifdef PART_C
#define JUDGE(key, got, want) do { bool g_ = (got), w_ = (want); c.eval(); c.event(w_ ? key ":yes" : key ":no"); VH_CHECK(g_ == w_, key, "%s<%s, %s> is %d, must be %d", key, NM(T), NM(A), g_, w_); } while (0)
using Tr = best::trivially;
// One argument, an object that is not an array.
template <class T, class A> void from_one(Ctx& c) {
  if constexpr (obj<T>) {
    JUDGE("constructible", (best::constructible<T, A>), (std::is_constructible_v<T, A>)); JUDGE("constructible trivially", (best::constructible<T, Tr, A>), (std::is_trivially_constructible_v<T, A>));
    JUDGE("convertible", (best::convertible<T, A>), (std::is_convertible_v<A, T>)); JUDGE("convertible trivially", (best::convertible<T, Tr, A>), (std::is_convertible_v<A, T> && std::is_trivially_constructible_v<T, A>)); JUDGE("converts_to", (best::converts_to<A, T>), (std::is_convertible_v<A, T>));
    JUDGE("assignable", (best::assignable<T, A>), (std::is_assignable_v<T&, A>)); JUDGE("assignable trivially", (best::assignable<T, Tr, A>), (std::is_trivially_assignable_v<T&, A>));
    if constexpr (!std::is_abstract_v<std::remove_reference_t<A>>) { JUDGE("constructible args", (best::constructible<T, best::args<A>>), (std::is_constructible_v<T, A> || std::is_constructible_v<T, best::args<A>>)); JUDGE("constructible args&&", (best::constructible<T, best::args<A>&&>), (std::is_constructible_v<T, A> || std::is_constructible_v<T, best::args<A>&&>)); }
  } else if constexpr (std::is_reference_v<T> && std::is_reference_v<A> && !std::is_function_v<std::remove_reference_t<T>>) {
    constexpr bool ptr = std::is_convertible_v<std::add_pointer_t<A>, std::add_pointer_t<T>>, ok = ptr && (std::is_lvalue_reference_v<T> || std::is_rvalue_reference_v<A>), lv = std::is_lvalue_reference_v<T>;
    JUDGE("ref constructible", (best::constructible<T, A>), ok); JUDGE("ref constructible trivially", (best::constructible<T, Tr, A>), ok); JUDGE("ref convertible", (best::convertible<T, A>), ok && lv); JUDGE("ref convertible trivially", (best::convertible<T, Tr, A>), ok && lv); JUDGE("ref assignable", (best::assignable<T, A>), ok); JUDGE("ref assignable trivially", (best::assignable<T, Tr, A>), ok);
  }
  c.event("pairs"); c.state(hstr(nameof<Wrap<T>*>()) * 31 + hstr(nameof<Wrap<A>*>()));
}
VH_WORKLOAD(from_one_generated, 1, 2) {
  seeds<3>(c, [&]<u64 s>() { times<30>([&]<size_t i>() {
    using T = typename nth<mixs(s + i) % Objects::n, Objects>::type; using U = typename nth<mixs(s + i * 3 + 1) % Objects::n, Objects>::type; using R = typename nth<mixs(s + i * 5 + 2) % Refs::n, Refs>::type; using Q = typename nth<mixs(s + i * 7 + 3) % Refs::n, Refs>::type;
    from_one<T, U>(c); from_one<T, R>(c); from_one<R, Q>(c); if constexpr (!std::is_same_v<T, NoDtor>) { from_one<T, U&>(c); from_one<T, const U&>(c); from_one<T, U&&>(c); from_one<T&, U&>(c); from_one<const T&, U&>(c); from_one<T&&, U&&>(c); } });
  });
}
VH_WORKLOAD(references_matrix, 1, 2) { each(Refs{}, [&]<class T>() { each(Refs{}, [&]<class A>() { from_one<T, A>(c); }); }); }
template <class T> void copies(Ctx& c) {
  using A = void; const char* t = NM(T); (void)t; c.event("copies");
  constexpr bool mc = std::is_convertible_v<T, T> && std::is_convertible_v<T&&, T>, cc = mc && std::is_convertible_v<const T, T> && std::is_convertible_v<const T&, T>, ma = std::is_assignable_v<T&, T> && std::is_assignable_v<T&, T&&>, ca = ma && std::is_assignable_v<T&, const T> && std::is_assignable_v<T&, const T&>;
  constexpr bool tmc = mc && std::is_trivially_constructible_v<T, T>, tcc = tmc && cc && std::is_trivially_constructible_v<T, const T> && std::is_trivially_constructible_v<T, const T&>, tma = std::is_trivially_assignable_v<T&, T>, tca = tma && std::is_trivially_assignable_v<T&, const T&> && std::is_trivially_assignable_v<T&, const T>;
  JUDGE("move_constructible", best::move_constructible<T>, mc); JUDGE("copy_constructible", best::copy_constructible<T>, cc); JUDGE("move_assignable", best::move_assignable<T>, ma); JUDGE("copy_assignable", best::copy_assignable<T>, ca); JUDGE("moveable", best::moveable<T>, mc && ma); JUDGE("copyable", best::copyable<T>, cc && ca);
  JUDGE("move_constructible trivially", (best::move_constructible<T, Tr>), tmc); JUDGE("copy_constructible trivially", (best::copy_constructible<T, Tr>), tcc); JUDGE("move_assignable trivially", (best::move_assignable<T, Tr>), tma); JUDGE("copy_assignable trivially", (best::copy_assignable<T, Tr>), tca); JUDGE("moveable trivially", (best::moveable<T, Tr>), tmc && tma); JUDGE("copyable trivially", (best::copyable<T, Tr>), tcc && tca);
  JUDGE("destructible", best::destructible<T>, std::is_destructible_v<T>); JUDGE("destructible trivially", (best::destructible<T, Tr>), std::is_trivially_destructible_v<T>); JUDGE("relocatable", best::relocatable<T>, mc && ma);
  if constexpr (std::is_same_v<T, Relo>) JUDGE("relocatable trivially", (best::relocatable<T, Tr>), true); else if constexpr (!std::is_volatile_v<T> && std::is_trivially_copyable_v<T> && std::is_trivially_move_constructible_v<T> && std::is_trivially_destructible_v<T>) JUDGE("relocatable trivially", (best::relocatable<T, Tr>), true); else if constexpr (std::is_same_v<T, NoCopy> || std::is_same_v<T, CopyOnly> || std::is_same_v<T, Dtor> || std::is_same_v<T, Poly> || std::is_same_v<T, ExplCopy>) JUDGE("relocatable trivially", (best::relocatable<T, Tr>), false);
  // No tag other than trivially is accepted.
  JUDGE("copyable with another type", (best::copyable<T, int> || best::moveable<T, T> || best::relocatable<T, void> || best::destructible<T, Tr, Tr>), false);
  // No arguments.
  JUDGE("constructible from nothing", best::constructible<T>, std::is_constructible_v<T>); JUDGE("constructible from nothing trivially", (best::constructible<T, Tr>), std::is_trivially_constructible_v<T>); JUDGE("constructible from void", (best::constructible<T, void>), std::is_constructible_v<T>); JUDGE("constructible from void trivially", (best::constructible<T, Tr, void>), std::is_trivially_constructible_v<T>); JUDGE("constructible from no args", (best::constructible<T, best::args<>>), (std::is_constructible_v<T> || std::is_constructible_v<T, best::args<>>));
}
VH_WORKLOAD(object_copies, 1, 2) {
  each(Objects{}, [&]<class T>() { copies<T>(c); if constexpr (!std::is_same_v<T, NoDtor>) { copies<const T>(c); copies<volatile T>(c); } });
  { using A = void; using T = int&; JUDGE("copyable ref", best::copyable<T> && (best::copyable<T, Tr>) && (best::relocatable<T, Tr>) && best::destructible<T> && (best::destructible<T, Tr>), true); }
  { using A = void; using T = int&&; JUDGE("moveable rvalue ref", best::moveable<T> || best::move_constructible<T>, false); JUDGE("relocatable ref", best::relocatable<T> && (best::destructible<T, Tr>), true); }
  { using A = void; using T = void; JUDGE("void from nothing", best::constructible<T> && (best::constructible<T, Tr>) && best::assignable<T> && (best::assignable<T, Tr>), true); JUDGE("void from two", (best::constructible<T, int, int>) || (best::assignable<T, int, int>), false); JUDGE("destructible void", best::destructible<T> && (best::destructible<T, Tr>) && best::relocatable<T>, true); }
  each(Refs{}, [&]<class A>() { using T = void; JUDGE("void from one", (best::constructible<T, A>) && (best::constructible<T, Tr, A>) && (best::assignable<T, A>) && (best::assignable<const T, Tr, A>) && (best::convertible<T, A>), true); });
  each(Objects{}, [&]<class A>() { using T = const void; JUDGE("void from one", (best::constructible<T, A>) && (best::constructible<T, Tr, A>) && (best::assignable<T, A>) && (best::convertible<T, Tr, A>), true); });
}
#endif
#ifdef PART_D
#define JUDGE(key, got, want) do { bool g_ = (got), w_ = (want); c.eval(); c.event(w_ ? key ":yes" : key ":no"); VH_CHECK(g_ == w_, key, "%s<%s, %s> is %d, must be %d", key, NM(T), NM(A), g_, w_); } while (0)
using Tr = best::trivially;
// Arrays go element by element.
template <class E, class F, size_t n> void from_array(Ctx& c) {
  using T = E[n];
#define ARR(AT, FT) { using A = AT; c.event("array_pairs"); JUDGE("array constructible", (best::constructible<T, A>), (std::is_constructible_v<E, FT>)); JUDGE("array constructible trivially", (best::constructible<T, Tr, A>), (std::is_trivially_constructible_v<E, FT>)); JUDGE("array convertible", (best::convertible<T, A>), (std::is_convertible_v<FT, E>)); JUDGE("array convertible trivially", (best::convertible<T, Tr, A>), (std::is_convertible_v<FT, E> && std::is_trivially_constructible_v<E, FT>)); JUDGE("array assignable", (best::assignable<T, A>), (std::is_assignable_v<E&, FT>)); JUDGE("array assignable trivially", (best::assignable<T, Tr, A>), (std::is_trivially_assignable_v<E&, FT>)); }
  ARR(F[n], F) ARR(F (&)[n], F&) ARR(const F (&)[n], const F&) ARR(F (&&)[n], F&&)
  { using A = F (&)[n + 1]; JUDGE("array of another size", (best::convertible<T, A>) || (best::assignable<T, A>), false); }
  { using A = void; JUDGE("array from nothing", best::constructible<T>, std::is_constructible_v<T>); JUDGE("array destructible", best::destructible<T>, std::is_destructible_v<E>); JUDGE("array destructible trivially", (best::destructible<T, Tr>), std::is_trivially_destructible_v<E>); }
  { using A = void; using T = E[]; JUDGE("unsized array destructible", best::destructible<T>, std::is_destructible_v<E>); JUDGE("unsized array destructible trivially", (best::destructible<T, Tr>), std::is_trivially_destructible_v<E>); }
  c.state(hstr(nameof<Wrap<T>*>()) * 31 + hstr(nameof<Wrap<F>*>()));
}
VH_WORKLOAD(arrays_matrix, 1, 2) { each(Elems{}, [&]<class E>() { each(Elems{}, [&]<class F>() { from_array<E, F, 3>(c); }); from_array<E, E, 1>(c); from_array<E, E, 17>(c); }); }
// Several arguments.
template <class T, class... As> void from_many(Ctx& c) {
  using A = L<As...>; constexpr bool ok = std::is_constructible_v<T, As...>, tok = std::is_trivially_constructible_v<T, As...>; using Ar = best::args<As...>; JUDGE("constructible from many", (best::constructible<T, As...>), ok); JUDGE("constructible from many trivially", (best::constructible<T, Tr, As...>), (std::is_trivially_constructible_v<T, As...>)); JUDGE("constructible from many args", (best::constructible<T, Ar>), (ok || std::is_constructible_v<T, Ar>)); JUDGE("constructible from many args&&", (best::constructible<T, Ar&&>), (ok || std::is_constructible_v<T, Ar&&>)); JUDGE("constructible from many args trivially", (best::constructible<T, Tr, Ar>), (tok || std::is_trivially_constructible_v<T, Ar>));
}
VH_WORKLOAD(from_many_matrix, 1, 2) {
  using Ts = L<Agg, FromTwo, Empty, Conv, Expl, NoCopy, NoMove, best::str, best::vec<int>, Tmpl<int>, int, int*, Leaf, Un, best::row<int, char>>; using As = L<int, int&, int*, const char*, double, const char (&)[4], Agg&, size_t, std::nullptr_t>;
  each(Ts{}, [&]<class T>() { each(As{}, [&]<class A1>() { each(As{}, [&]<class A2>() { from_many<T, A1, A2>(c); }); from_many<T, A1, int, const char*>(c); }); });
}
// Operators.
struct Ptr { Agg* p; Agg* operator->() const { return p; } Agg& operator*() const { return *p; } }; struct NoOps {};
#define OP2(name, ...) { auto want = a __VA_ARGS__ b; c.eval(); using best::op; VH_CHECK(best::operate<op::name>(a, b) == want, "operate", "%s of %lld and %lld", #name, (long long)a, (long long)b); VH_CHECK((std::is_same_v<best::op_output<op::name, T&, T&>, decltype(std::declval<T&>() __VA_ARGS__ std::declval<T&>())>), "op_output", "%s", #name); c.event("binary"); VH_CHECK((best::has_op<op::name, T&, T&>) && !(best::has_op<op::name, NoOps&, T&>) && !(best::has_op<op::name, T&, NoOps&>), "has_op", "%s", #name); }
#define FOLD(name, ...) { using best::op; auto w3 = (a __VA_ARGS__ b) __VA_ARGS__ d; auto w4 = ((a __VA_ARGS__ b) __VA_ARGS__ d) __VA_ARGS__ e; c.eval(2); c.event("folds"); VH_CHECK(best::operate<op::name>(a, b, d) == w3, "fold", "%s of %lld, %lld, %lld", #name, (long long)a, (long long)b, (long long)d); VH_CHECK(best::operate<op::name>(a, b, d, e) == w4, "fold", "%s of %lld, %lld, %lld, %lld", #name, (long long)a, (long long)b, (long long)d, (long long)e); }
#define OPA(name, ...) { using best::op; T x = a, y = a, z = a; auto& r = best::operate<op::name>(x, b); y __VA_ARGS__ b; c.eval(2); c.event("assignments"); VH_CHECK(&r == &x && x == y, "operate", "%s of %lld and %lld leaves %lld, must be %lld", #name, (long long)a, (long long)b, (long long)x, (long long)y); T w = a; (w __VA_ARGS__ b) __VA_ARGS__ d; auto& q = best::operate<op::name>(z, b, d); VH_CHECK(&q == &z && z == w, "fold", "%s of %lld, %lld, %lld leaves %lld, must be %lld", #name, (long long)a, (long long)b, (long long)d, (long long)z, (long long)w); VH_CHECK(!(best::has_op<op::name, const T&, T&>) && !(best::has_op<op::name, T, T>) && (best::has_op<op::name, T&, const T&>), "has_op", "%s of a constant", #name); }
#define OP1(name, ...) { using best::op; auto want = __VA_ARGS__ a; c.eval(); c.event("unary"); VH_CHECK(best::operate<op::name>(a) == want, "operate", "%s of %lld", #name, (long long)a); VH_CHECK((std::is_same_v<best::op_output<op::name, T&>, decltype(__VA_ARGS__ std::declval<T&>())>) && (best::has_op<op::name, T&>) && !(best::has_op<op::name, NoOps&>), "op_output", "%s", #name); }
template <class T> void ops(Ctx& c) {
  auto& g = c.rng; auto val = [&] { return (T)(g.below(3) ? g.range(1, 9) : g.range(1, 100)); }; T a = val(), b = val(), d = val(), e = val(); c.state(mixs((u64)a * 1000003 + (u64)b * 1009 + (u64)d * 101 + (u64)e));
  OP2(Add, +) OP2(Sub, -) OP2(Mul, *) OP2(Div, /) OP2(Eq, ==) OP2(Ne, !=) OP2(Lt, <) OP2(Le, <=) OP2(Gt, >) OP2(Ge, >=) OP2(AndAnd, &&) OP2(OrOr, ||) OP2(Spaceship, <=>)
  FOLD(Add, +) FOLD(Sub, -) FOLD(Mul, *) FOLD(Div, /) FOLD(AndAnd, &&) FOLD(OrOr, ||)
  OPA(Assign, =) OPA(AddAssign, +=) OPA(SubAssign, -=) OPA(MulAssign, *=) OPA(DivAssign, /=)
  OP1(Plus, +) OP1(Neg, -) OP1(Not, !)
  if constexpr (std::is_integral_v<T>) {
    OP2(Rem, %) OP2(And, &) OP2(Or, |) OP2(Xor, ^) FOLD(And, &) FOLD(Or, |) FOLD(Xor, ^) OP1(Cmpl, ~) OPA(AndAssign, &=) OPA(OrAssign, |=) OPA(XorAssign, ^=) { T a = val(), b = (T)g.below(4), d = (T)g.below(3), e = (T)g.below(2); OP2(Shl, <<) OP2(Shr, >>) FOLD(Shl, <<) FOLD(Shr, >>) OPA(ShlAssign, <<=) OPA(ShrAssign, >>=) }
  }
  using best::op; { T x = a; auto& r = best::operate<op::PreInc>(x); VH_CHECK(&r == &x && x == (T)(a + 1), "operate", "PreInc"); auto p = best::operate<op::PostInc>(x); VH_CHECK(p == (T)(a + 1) && x == (T)(a + 2), "operate", "PostInc"); auto& q = best::operate<op::PreDec>(x); VH_CHECK(&q == &x && x == (T)(a + 1), "operate", "PreDec"); auto s = best::operate<op::PostDec>(x); VH_CHECK(s == (T)(a + 1) && x == a, "operate", "PostDec"); VH_CHECK(best::operate<op::AddrOf>(x) == &x && &best::operate<op::Deref>(&x) == &x && best::operate<op::Arrow>(&x) == &x, "operate", "addresses"); auto& co = best::operate<op::Comma>(a, x); VH_CHECK(&co == &x && &best::operate<op::Comma>(a, b, d, x) == &x, "operate", "Comma"); c.eval(8); c.event("increments"); }
  { Agg o{(int)(i64)a, (double)b}; Ptr p{&o}; int Agg::*m = &Agg::x; VH_CHECK(best::operate<op::Arrow>(p) == &o && &best::operate<op::Deref>(p) == &o && &best::operate<op::ArrowStar>(&o, m) == &o.x, "operate", "member access"); T arr[4] = {a, b, d, e}; size_t i = g.below(4); VH_CHECK(&best::operate<op::Index>(arr, i) == &arr[i], "operate", "Index"); auto f = [&](T x, T y) { return x - y; }; VH_CHECK(best::operate<op::Call>(f, a, b) == f(a, b) && !(best::has_op<op::Call, NoOps&>) && (best::has_op<op::Call, decltype(f)&, T, T>) && !(best::has_op<op::Call, decltype(f)&, T>), "operate", "Call"); c.eval(5); c.event("others"); }
  static_assert(best::has_op_r<op::Add, double, int, int> && !best::has_op_r<op::Add, int*, int, int> && best::has_op_r<op::Eq, bool, int, int> && !best::has_op_r<op::Add, int, NoOps, int>);
}
VH_WORKLOAD(operators, 400, 20000) { switch (c.rng.below(5)) { case 0: return ops<int>(c); case 1: return ops<i64>(c); case 2: return ops<unsigned>(c); case 3: return ops<u64>(c); default: return ops<double>(c); } }
// Calls.
struct S { int v; int plain(int x) { return v + x; } int ro(int x) const { return v - x; } int lv() & { return v + 1; } int rv() && { return v + 2; } int cl(int x) const& { return v * 2 + x; } int cr() const&& { return v + 3; } }; struct SD : S { int w; };
struct F0 { int k; int operator()() { return k; } int operator()(int x) const { return k + x; } int operator()(int& x) { return x = k; } int operator()(S s, int x) const { return s.v + x + k; } }; struct Fl { int operator()(int x) & { return x + 1; } int operator()(int x) const& { return x + 2; } int operator()(int x) && { return x + 3; } int operator()(int x) const&& { return x + 4; } }; struct Fr { int operator()(int x) && { return x * 2; } }; struct Flo { int operator()(int x) & { return x * 3; } };
inline int fn(int x) { return x * 7; } inline int fn2(S& s, long x) { s.v = (int)x; return 9; } inline void fnv() {}
using Fs = L<int (*)(int), int (&)(int), int (*)(S&, long), void (*)(), F0&, const F0&, Fl&, const Fl&, Flo&, int (S::*)(int), int (S::*)(int) const, int (S::*)() &, int (S::*)(int) const&, int S::*, const int S::*, int SD::*, NoOps&, int&>;
using Sigs = L<L<>, L<int>, L<int&>, L<const char*>, L<S&>, L<const S&>, L<S*>, L<const S*>, L<SD&>, L<SD*>, L<const SD&>, L<S&, int>, L<const S&, int>, L<S*, int>, L<const S*, char>, L<SD&, int>, L<S&, S&>, L<S, int>, L<SD, int>, L<S&, const char*>, L<int, int>, L<NoOps&>, L<NoOps&, int>>;
template <class F, class A> struct judge_call; template <class F, class... As> struct judge_call<F, L<As...>> { static void run(Ctx& c) {
  constexpr bool ok = std::is_invocable_v<F, As...>; c.eval(3); c.event(ok ? "callable:yes" : "callable:no"); const char* t = NM(F); const char* a = NM(L<As...>); c.state(hstr(nameof<Wrap<F>*>()) * 31 + hstr(nameof<Wrap<L<As...>>*>()));
  VH_CHECK((best::callable<F, void(As...)>) == ok, "callable", "callable<%s, void(%s)> must be %d", t, a, ok);
  VH_CHECK((best::callable<F, int(As...)>) == (std::is_invocable_r_v<int, F, As...>), "callable", "callable<%s, int(%s)> must be %d", t, a, std::is_invocable_r_v<int, F, As...>); VH_CHECK((best::callable<F, const char*(As...)>) == (std::is_invocable_r_v<const char*, F, As...>), "callable", "callable<%s, const char*(%s)>", t, a);
  if constexpr (ok) { using R = std::invoke_result_t<F, As...>; VH_CHECK((std::is_same_v<best::call_result<F, As...>, R>), "call_result", "the result of calling %s with %s", t, a); }
} };
VH_WORKLOAD(callables, 1, 2) { each(Fs{}, [&]<class F>() { each(Sigs{}, [&]<class A>() { judge_call<F, A>::run(c); }); }); const char* t = "a function"; c.eval(); VH_CHECK((std::is_same_v<best::call_result<int (*)(), void>, int>), "call_result", "of %s and void", t); }
VH_WORKLOAD(calls, 400, 20000) {
  auto& g = c.rng; int k = (int)g.range(-1000, 1000), x = (int)g.range(-1000, 1000), y = x, z = x; S s{k}; const S cs{k}; SD d; d.v = k; d.w = x; F0 f{k}; const F0 cf{k}; Fl fl; const Fl cfl; c.state(mixs((u64)k * 4001 + (u64)x)); c.event("calls");
#define CALL(...) do { c.eval(); int got = best::call(__VA_ARGS__), want = std::invoke(__VA_ARGS__); VH_CHECK(got == want, "call", "call(%s) gives %d, must be %d", #__VA_ARGS__, got, want); VH_CHECK((std::is_same_v<decltype(best::call(__VA_ARGS__)), decltype(std::invoke(__VA_ARGS__))>), "call-type", "the type of call(%s)", #__VA_ARGS__); } while (0)
  CALL(fn, x); CALL(&fn, x); CALL(f); CALL(cf, x); CALL(f, (const int&)x); CALL(f, s, x); CALL(F0{k}, 3); CALL(fl, x); CALL(cfl, x); CALL(Fl{}, x); CALL(std::move(cfl), x); CALL(Fr{}, x);
  CALL(&S::plain, s, x); CALL(&S::plain, &s, x); CALL(&S::ro, s, x); CALL(&S::ro, cs, x); CALL(&S::ro, &cs, x); CALL(&S::ro, S{x}, x); CALL(&S::lv, s); CALL(&S::rv, S{x}); CALL(&S::rv, std::move(s)); CALL(&S::cl, S{k}, x); CALL(&S::cr, S{k}); CALL(&S::cr, std::move(cs)); CALL(&S::plain, d, x); CALL(&S::plain, &d, x); CALL(&S::v, d); CALL(&SD::w, d); CALL(&S::v, &cs); CALL(&S::v, s); CALL(&S::v, S{k}); CALL(&S::v, std::move(cs));
  int r1 = best::call(f, y), r2 = std::invoke(f, z); VH_CHECK(r1 == r2 && y == z && y == k, "call", "a reference argument"); VH_CHECK(&best::call(&S::v, s) == &s.v && &best::call(&SD::w, &d) == &d.w, "call", "a field is not itself"); int n = 0; auto bump = [&] { n++; }; static_assert(std::is_same_v<decltype(best::call_devoid(bump)), best::empty>); best::call_devoid(bump); VH_CHECK(n == 1 && best::call_devoid(fn, x) == fn(x), "call_devoid", "ran %d times", n);
}
#endif
}  // namespace PARTNS
