// C22: bit operations against bit-by-bit definitions, on every integer width.
#include "vh.h"
#include "best/math/bit.h"
#include "best/container/option.h"
namespace p22 {
using namespace vh;
template <class I> constexpr int N = sizeof(I) * 8;
template <class I> struct Bits { bool b[64]; };
template <class I> Bits<I> split(I x) { Bits<I> r{}; u64 u = (u64)(std::make_unsigned_t<I>)x; for (int i = 0; i < N<I>; i++) r.b[i] = u >> i & 1; return r; }
template <class I> I join(const Bits<I>& r) { u64 u = 0; for (int i = 0; i < N<I>; i++) u |= (u64)r.b[i] << i; return (I)u; }
template <class I> std::string sh(I x) { return vh::fmt("%s%d 0x%llx", std::is_signed_v<I> ? "i" : "u", N<I>, (unsigned long long)(std::make_unsigned_t<I>)x); }
#define EQ(key, got, want) do { auto g_ = (got); auto w_ = (want); static_assert(!std::is_same_v<decltype(g_), bool> || true); VH_CHECK((i64)g_ == (i64)w_, key, "%s(%s) = %lld, must be %lld", key, sh(x).c_str(), (long long)g_, (long long)w_); } while (0)
template <class I> void value(Ctx& c, I x) {
  auto b = split(x); int n = N<I>, ones = 0, lz = 0, lo = 0, tz = 0, to = 0, top = 0;
  for (int i = 0; i < n; i++) { ones += b.b[i]; if (b.b[i]) top = i + 1; }
  while (lz < n && !b.b[n - 1 - lz]) lz++; while (lo < n && b.b[n - 1 - lo]) lo++; while (tz < n && !b.b[tz]) tz++; while (to < n && b.b[to]) to++;
  EQ("count_ones", best::count_ones(x), ones); EQ("count_zeros", best::count_zeros(x), n - ones);
  EQ("leading_zeros", best::leading_zeros(x), lz); EQ("leading_ones", best::leading_ones(x), lo); EQ("trailing_zeros", best::trailing_zeros(x), tz); EQ("trailing_ones", best::trailing_ones(x), to);
  if constexpr (!std::is_signed_v<I>) {
    EQ("is_pow2", best::is_pow2(x), ones == 1);
    u128 p = 1; while (p <= x) p *= 2;  // the least power of two above x
    bool fits = p <= (u128)best::max_of<I>;
    EQ("next_pow2_minus1", best::next_pow2_minus1(x), (I)(u64)(p - 1));
    EQ("wrapping_next_pow2", best::wrapping_next_pow2(x), fits ? (I)(u64)p : I(0));
    auto k = best::checked_next_pow2(x); VH_CHECK(k.has_value() == fits && (!fits || *k == (I)(u64)p), "checked_next_pow2", "checked_next_pow2(%s)", sh(x).c_str());
    if (fits) EQ("next_pow2", best::next_pow2(x), (I)(u64)p); else c.event("next_pow2_overflows");
    EQ("bits_for", best::bits_for(x), top);
    c.event("pow2s");
  }
  c.event("values");
}
template <class I> void shift(Ctx& c, I x, u32 s) {
  auto b = split(x); int n = N<I>; Bits<I> l{}, r{}, a{}, rl{}, rr{};
  for (int i = 0; i < n; i++) {
    l.b[i] = s < (u32)n && i >= (int)s ? b.b[i - s] : false;
    bool in = s < (u32)n && i + (int)s < n; r.b[i] = in ? b.b[i + s] : false; a.b[i] = in ? b.b[i + s] : b.b[n - 1];
    rl.b[(i + s % n) % n] = b.b[i]; rr.b[i] = b.b[(i + s % n) % n];
  }
#define SH(key, got, want) do { I g_ = (got), w_ = join(want); static_assert(std::is_same_v<decltype(got), I>, key); VH_CHECK(g_ == w_, key, "%s(%s, %u) = 0x%llx, must be 0x%llx", key, sh(x).c_str(), s, (unsigned long long)g_, (unsigned long long)w_); } while (0)
  SH("shift_left", best::shift_left(x, s), l); SH("shift_right", best::shift_right(x, s), r); SH("shift_sign", best::shift_sign(x, s), a);
  SH("rotate_left", best::rotate_left(x, s), rl); SH("rotate_right", best::rotate_right(x, s), rr);
  c.event(s < (u32)n ? "shifts" : "oversize_shifts");
}
static const u32 big[] = {64, 65, 127, 128, 255, 256, 257, 1000, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffff0, 0xffffffc0};
template <class I> void every8(Ctx& c) { for (int v = 0; v < 256; v++) { value(c, (I)v); for (u32 s = 0; s < 70; s++) shift(c, (I)v, s); for (u32 s : big) shift(c, (I)v, s); c.eval(); c.state(hcomb(v, std::is_signed_v<I>)); } c.event("all_8_bit", 256); }
VH_WORKLOAD(bytes, 1, 1) { every8<i8>(c); every8<u8>(c); every8<char>(c); }
template <class I> void slice16(Ctx& c) { for (int k = 0; k < 1024; k++) { I v = (I)(c.idx * 1024 + k); value(c, v); if (c.thorough) for (u32 s = 0; s < 34; s++) shift(c, v, s); else { shift(c, v, c.rng.below(18)); shift(c, v, c.rng.below(16)); } c.eval(); c.state(hcomb((u64)(u16)v, 99 + std::is_signed_v<I>)); } c.event("all_16_bit", 1024); }
VH_WORKLOAD(halves, 64, 64) { slice16<i16>(c); slice16<u16>(c); }
template <class I> void wide(Ctx& c) {
  for (int k = 0; k < 40; k++) {
    I v = c.rng.edge<I>();
    if (c.rng.chance(1, 4)) { v = 0; int n = c.rng.below(4); for (int i = 0; i <= n; i++) v = (I)((u64)v | 1ull << c.rng.below(N<I>)); if (c.rng.flip()) v = (I)~(u64)v; }
    value(c, v); c.eval(); c.state(hcomb((u64)v, sizeof(I) * 2 + std::is_signed_v<I>));
    for (u32 s = 0; s <= (u32)N<I>; s += 1 + c.rng.below(4)) shift(c, v, s);
    shift(c, v, N<I> - 1); shift(c, v, N<I>); shift(c, v, c.rng.pick(big)); shift(c, v, (u32)c.rng.next());
  }
}
VH_WORKLOAD(wides, 400, 20000) { wide<i32>(c); wide<u32>(c); wide<i64>(c); wide<u64>(c); wide<long long>(c); wide<unsigned long long>(c); }
template <class I> void dies(Ctx& c) {
  I x = (I)(best::max_of<I> / 2 + 1 + c.rng.below(c.rng.flip() ? 3 : best::max_of<I> / 2)); if (!(x >> (N<I> - 1))) x = best::max_of<I>;
  VH_MUST_CRASH("next_pow2", sh(x), { volatile auto r = best::next_pow2(x); (void)r; }); c.event("crashes"); c.eval();
}
VH_WORKLOAD(deaths, 10, 200) { dies<u8>(c); dies<u16>(c); dies<u32>(c); dies<u64>(c); }
}  // namespace p22
