// C33, recognition of the library's own types: every concept accepts exactly its kind, whatever the qualifiers.
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>
#include "vh.h"
#include "best/base/niche.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/io/ioerr.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/math/int.h"
#include "best/memory/span.h"
#include "best/meta/tlist.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"
using namespace vh;
namespace {
enum Kind { Vec, Box, Option, Result, Row, Span, Text, Pretext, Tlist, Other };
struct Derived : std::vector<int> {}; struct Fake { using type = int; using alloc = best::malloc; using ok_type = int; using err_type = int; using encoding = best::utf8; static constexpr size_t MaxInline = 3; }; struct Abstract { virtual void f() = 0; }; struct Hold { using type = Abstract; }; struct Priv { private: using type = int; };
template <class T> void is(Ctx& c, const char* n, Kind k) {
#define J(C, K) { constexpr bool g0 = best::C<T>, g1 = best::C<const T>, g2 = best::C<T&>, g3 = best::C<const T&>, g4 = best::C<T&&>, g5 = best::C<const T&&>; bool w = k == K; c.eval(6); c.event(w ? #C ":yes" : #C ":no"); VH_CHECK(g0 == w && g1 == w && g2 == w && g3 == w && g4 == w && g5 == w, #C, #C " of %s must be %d; it is %d, const %d, & %d, const& %d, && %d, const&& %d", n, w, g0, g1, g2, g3, g4, g5); }
  J(is_vec, Vec) J(is_box, Box) J(is_option, Option) J(is_result, Result) J(is_text, Text) J(is_pretext, Pretext)
  if constexpr (!std::is_abstract_v<T>) { J(is_row, Row) }
#undef J
  c.state(hstr(n));
}
#define IS(K, ...) is<__VA_ARGS__>(c, #__VA_ARGS__, K)
// A contiguous range: what its elements are, and how many of them are known at compile time (-1: not known).
template <class R, class E, i64 n, bool span> void range(Ctx& c, const char* name) {
  constexpr bool ok = best::contiguous<R>; c.eval(3); VH_CHECK(ok, "contiguous", "%s is a contiguous range", name);
  if constexpr (ok) { constexpr bool e = std::is_same_v<best::data_type<R>, E>; VH_CHECK(e, "data_type", "the elements of %s are of another type", name); constexpr auto z = best::static_size<R>; VH_CHECK((z.has_value() ? (i64)*z : -1) == n && best::static_contiguous<R> == (n >= 0), "static_size", "the static size of %s is %lld", name, z.has_value() ? (long long)*z : -1); VH_CHECK(best::is_span<R> == span, "is_span", "is_span of %s", name); c.event(span ? "spans" : n >= 0 ? "sized_ranges" : "ranges"); } c.state(hstr(name));
}
#define RANGE(E, n, span, ...) range<__VA_ARGS__, E, n, span>(c, #__VA_ARGS__)
template <class R> void norange(Ctx& c, const char* name) { constexpr bool ok = best::contiguous<R>; c.eval(); VH_CHECK(!ok, "contiguous", "%s is no contiguous range", name); c.event("no_range"); }
// A string: its encoding and which others share it.
template <class S, class Enc> void string(Ctx& c, const char* name) {
  constexpr bool ok = best::is_string<S>, want = !std::is_void_v<Enc>; c.eval(); c.event(want ? "is_string:yes" : "is_string:no"); VH_CHECK(ok == want, "is_string", "is_string of %s must be %d", name, want);
  if constexpr (ok && want) { constexpr bool e = std::is_same_v<best::encoding_type<S>, Enc>; VH_CHECK(e, "encoding_type", "the encoding of %s is another", name); } c.state(hstr(name));
}
#define STRING(Enc, ...) string<__VA_ARGS__, Enc>(c, #__VA_ARGS__)
template <class T> void niche(Ctx& c, const char* name, bool w) { constexpr bool g = best::has_niche<T>; c.eval(); c.event(w ? "has_niche:yes" : "has_niche:no"); VH_CHECK(g == w, "has_niche", "has_niche of %s must be %d", name, w); }
#define NICHE(w, ...) niche<__VA_ARGS__>(c, #__VA_ARGS__, w)
}
VH_WORKLOAD(recognition, 1, 1) {
  IS(Vec, best::vec<int>); IS(Vec, best::vec<int, 0>); IS(Vec, best::vec<char, 100>); IS(Vec, best::vec<best::vec<int>>); IS(Vec, best::vec<best::box<int>, 1>); IS(Vec, best::vec<const char*>);
  IS(Box, best::box<int>); IS(Box, best::box<int[]>); IS(Box, best::box<best::box<int>>); IS(Box, best::box<best::vec<int>>);
  IS(Option, best::option<int>); IS(Option, best::option<int&>); IS(Option, best::option<void>); IS(Option, best::option<best::option<int>>); IS(Option, best::option<best::vec<int>>); IS(Option, best::option<const int>); IS(Option, best::option<best::box<int>>);
  IS(Result, best::result<int, int>); IS(Result, best::result<void, int>); IS(Result, best::result<int, void>); IS(Result, best::result<int&, best::strbuf>); IS(Result, best::result<void, void>); IS(Result, best::result<best::result<int, int>, best::ioerr>);
  IS(Row, best::row<>); IS(Row, best::row<int>); IS(Row, best::row<int, best::strbuf, double>); IS(Row, best::row<int&, const int&>); IS(Row, best::row<void>); IS(Row, best::row<best::row<int>>);
  IS(Text, best::str); IS(Text, best::str16); IS(Text, best::str32); IS(Text, best::text<best::wtf8>); IS(Pretext, best::pretext<best::utf8>); IS(Pretext, best::pretext<best::utf16>);
  IS(Other, int); IS(Other, int*); IS(Other, char[4]); IS(Other, best::strbuf); IS(Other, best::strbuf16); IS(Other, best::span<int>); IS(Other, best::span<int, 3>); IS(Other, best::choice<int, char>); IS(Other, best::ptr<int>); IS(Other, best::bounds); IS(Other, std::vector<int>); IS(Other, std::optional<int>); IS(Other, std::unique_ptr<int>); IS(Other, std::string); IS(Other, std::string_view); IS(Other, Derived); IS(Other, Fake); IS(Other, Hold); IS(Other, Priv); IS(Other, best::ioerr); IS(Other, best::rune); IS(Other, std::map<int, int>); IS(Other, std::tuple<int>); IS(Other, best::niche); IS(Other, Abstract); IS(Other, std::nullptr_t);
  constexpr bool o = std::is_same_v<best::option_type<best::option<int&>>, int&> && std::is_same_v<best::option_type<const best::option<best::strbuf>&>, best::strbuf> && std::is_same_v<best::ok_type<best::result<int&, char>>, int&> && std::is_same_v<best::err_type<best::result<int&, char>>, char> && std::is_same_v<best::ok_type<const best::result<void, int>&>, void> && std::is_same_v<best::err_type<best::result<int, void>&&>, void>; VH_CHECK(o, "part-types", "option_type, ok_type or err_type"); c.eval(6);
  constexpr bool t = best::is_tlist<best::tlist<>> && best::is_tlist<best::tlist<int, void>> && best::is_vlist<best::vlist<1, 2>> && best::is_tlist<best::vlist<1, 2>> && !best::is_vlist<best::tlist<int>> && !best::is_tlist<int> && !best::is_tlist<best::row<int>> && !best::is_vlist<int>; VH_CHECK(t, "is_tlist", "is_tlist or is_vlist"); c.eval(8);
}
VH_WORKLOAD(ranges_known, 1, 1) {
  RANGE(int, -1, true, best::span<int>); RANGE(const int, -1, true, best::span<const int>); RANGE(int, 3, true, best::span<int, 3>); RANGE(int, 0, true, best::span<int, 0>); RANGE(const char, 7, true, best::span<const char, 7>); RANGE(int, -1, true, const best::span<int>); RANGE(int, 3, true, best::span<int, 3>&); RANGE(int, 3, true, const best::span<int, 3>&); RANGE(best::strbuf, -1, true, best::span<best::strbuf>&&);
  RANGE(int, 4, false, int[4]); RANGE(int, 4, false, int(&)[4]); RANGE(const int, 4, false, const int[4]); RANGE(const int, 4, false, const int(&)[4]); RANGE(const char, 6, false, const char(&)[6]); RANGE(int[2], 3, false, int(&)[3][2]);
  RANGE(int, -1, false, std::vector<int>&); RANGE(const int, -1, false, const std::vector<int>&); RANGE(int, -1, false, best::vec<int>&); RANGE(const int, -1, false, const best::vec<int>&); RANGE(const char, -1, false, best::str); RANGE(const char16_t, -1, false, best::str16); RANGE(const char, -1, false, std::string_view); RANGE(const char, -1, false, const std::string&); RANGE(const int, -1, false, std::initializer_list<int>); RANGE(int, 5, false, std::array<int, 5>&); RANGE(const int, 5, false, const std::array<int, 5>&);
#define NO(...) norange<__VA_ARGS__>(c, #__VA_ARGS__)
  NO(int); NO(int*); NO(best::option<int>); NO(std::map<int, int>); NO(best::row<int>); NO(void); NO(std::nullptr_t); NO(best::bounds); NO(best::box<int>); NO(best::choice<int>); NO(int()); NO(best::rune);
}
VH_WORKLOAD(strings_known, 1, 1) {
  STRING(best::utf8, best::str); STRING(best::utf8, const best::str&); STRING(best::utf8, best::strbuf); STRING(best::utf16, best::str16); STRING(best::utf16, best::strbuf16); STRING(best::utf32, best::str32); STRING(best::wtf8, best::text<best::wtf8>); STRING(best::wtf8, best::textbuf<best::wtf8>); STRING(best::utf8, best::pretext<best::utf8>); STRING(best::utf8, const char(&)[4]); STRING(best::utf16, const char16_t(&)[4]); STRING(best::utf32, const char32_t(&)[4]); STRING(best::utf8, std::string_view); STRING(best::utf8, std::string); STRING(best::utf16, std::u16string); STRING(best::utf32, std::u32string_view);
  STRING(void, int); STRING(void, best::span<int>); STRING(void, std::vector<char>); STRING(void, best::vec<char>); STRING(void, const char*); STRING(void, const int(&)[3]); STRING(void, best::option<best::str>); STRING(void, best::rune); STRING(void, char); STRING(void, std::nullptr_t);
}
namespace { struct HasN { constexpr HasN(best::niche) {} constexpr HasN() {} constexpr bool operator==(best::niche) const { return false; } }; struct CtorOnly { CtorOnly(best::niche) {} }; struct EqOnly { bool operator==(best::niche) const { return false; } }; }
VH_WORKLOAD(niches_known, 1, 1) {
  NICHE(true, int&); NICHE(true, const best::strbuf&); NICHE(true, int&&); NICHE(true, best::box<int>); NICHE(true, HasN); NICHE(true, best::ioerr); NICHE(true, best::rune);
  NICHE(false, int); NICHE(false, int*); NICHE(false, best::ptr<int>); NICHE(false, best::vec<int>); NICHE(false, void); NICHE(false, bool); NICHE(false, CtorOnly); NICHE(false, EqOnly); NICHE(false, double); NICHE(false, int()); NICHE(false, int[3]); c.state(1);
}
// The common type of integers: the widest, unsigned if one is.
namespace {
template <class A, class B> void ints2(Ctx& c) { constexpr size_t z = sizeof(A) > sizeof(B) ? sizeof(A) : sizeof(B); constexpr bool u = std::is_unsigned_v<A> || std::is_unsigned_v<B>; using R = best::common_int<A, B>; c.eval(2); c.event("common_ints"); VH_CHECK(sizeof(R) == z && std::is_unsigned_v<R> == u && std::is_integral_v<R>, "common_int", "the common type of two integers of %zu and %zu bytes (unsigned: %d, %d) has %zu bytes, unsigned %d", sizeof(A), sizeof(B), std::is_unsigned_v<A>, std::is_unsigned_v<B>, sizeof(R), std::is_unsigned_v<R>); c.state(hcomb(sizeof(A) * 2 + std::is_unsigned_v<A>, sizeof(B) * 2 + std::is_unsigned_v<B>)); }
template <class A, class... Bs> void ints1(Ctx& c) { (ints2<A, Bs>(c), ...); constexpr bool s = std::is_same_v<best::common_int<A>, A>; VH_CHECK(s, "common_int", "the common type of one integer is another"); }
template <class... As> void ints(Ctx& c) { (ints1<As, As...>(c), ...); constexpr bool m = sizeof(best::common_int<As...>) == 8 && std::is_unsigned_v<best::common_int<As...>> && std::is_same_v<best::common_int<i8, i16, i32>, i32> && std::is_same_v<best::common_int<i8, u16, i32>, u32> && std::is_same_v<best::common_int<i32, u8, i8>, u32>; VH_CHECK(m, "common_int", "the common type of many integers"); }
}
VH_WORKLOAD(common_integers, 1, 1) { ints<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>(c); }
// A range of integers with a location is the same range.
VH_WORKLOAD(located_bounds, 2000, 60000) {
  auto& g = c.rng; best::bounds b{.start = g.len(20)}; std::string d = fmt("start %zu", b.start); switch (g.below(4)) { case 0: b.end = b.start + g.below(9); d += fmt(" end %zu", *b.end); break; case 1: b.including_end = b.start + g.below(9); d += fmt(" including_end %zu", *b.including_end); break; case 2: b.count = g.below(9); d += fmt(" count %zu", *b.count); break; default: break; }
  best::bounds::with_location l = b; best::bounds back = l.to_bounds(), conv = l; auto same = [&](const best::bounds& x) { return x.start == b.start && x.end == b.end && x.including_end == b.including_end && x.count == b.count; };
  VH_CHECK(same(back) && same(conv), "with_location", "a located range is not the range it was made from: %s", d.c_str()); size_t max = 40 + g.below(5); VH_CHECK(l.compute_count(max) == b.compute_count(max), "with_location", "a located range counts otherwise: %s", d.c_str()); c.eval(3); c.event("located_bounds"); c.state(hstr(d));
}
