// C01: allocator contract. Oracle: an independent table of live blocks with their expected bytes; heap accounting hooks.
#include "vh.h"
#include "best/memory/allocator.h"
#include <map>
using namespace vh;

namespace {
struct Block { u8* p; size_t size, align; u64 tag; };
best::layout lay(size_t size, size_t align) { return best::layout(best::unsafe("harness: size is a multiple of a power-of-two align"), size, align); }
u8 pat(u64 tag, size_t i) { return (u8)(mix(tag + i / 7) >> ((i % 7) * 8)); }
void fill(Block& b) { for (size_t i = 0; i < b.size; i++) b.p[i] = pat(b.tag, i); }
long first_bad(const u8* p, u64 tag, size_t n) { for (size_t i = 0; i < n; i++) if (p[i] != pat(tag, i)) return (long)i; return -1; }

struct Monitor {
  Ctx& c; std::map<uintptr_t, Block> live; u64 hist = 0;
  size_t align() { size_t a = size_t(1) << c.rng.below(c.rng.chance(1, 3) ? 13 : 7); return a; }
  size_t size(size_t a) {
    size_t k;
    switch (c.rng.below(5)) { case 0: k = 1; break; case 1: k = 1 + c.rng.below(4); break; case 2: k = 1 + c.rng.below(300) / a; break; case 3: k = 1 + c.rng.below(5000) / a; break; default: k = 1 + c.rng.below(c.rng.chance(1, 40) ? 3000000 : 20000) / a; }
    return k * a;
  }
  void admit(void* raw, size_t s, size_t a, const char* op) {
    c.event(op); c.eval();
    auto addr = (uintptr_t)raw;
    VH_CHECK(raw != nullptr, "null", "%s(%zu:%zu) returned null", op, s, a);
    if (!raw) return;
    VH_CHECK(addr % a == 0, "misaligned", "%s(%zu:%zu) returned misaligned %p", op, s, a, raw);
    auto it = live.upper_bound(addr);
    if (it != live.end()) VH_CHECK(addr + s <= it->first, "overlap", "%s(%zu:%zu): block overlaps a later live block", op, s, a);
    if (it != live.begin()) { --it; VH_CHECK(it->first + it->second.size <= addr, "overlap", "%s(%zu:%zu): block overlaps an earlier live block", op, s, a); }
    Block b{(u8*)raw, s, a, c.rng.next()};
    live[addr] = b;
    hist = hcomb(hist, hcomb(s, a) ^ op[0]);
    c.state(hist);
  }
  Block take() { auto it = live.begin(); std::advance(it, c.rng.below(live.size())); Block b = it->second; live.erase(it); return b; }
  void verify(Block& b, const char* when) { long k = first_bad(b.p, b.tag, b.size); c.event("content_checks"); VH_CHECK(k < 0, "content", "block %zu:%zu changed at byte %ld %s", b.size, b.align, k, when); }
};
}  // namespace

VH_WORKLOAD(history, 600, 20000) {
  Heap h0 = heap_now();
  {
    HeapPause* hp = nullptr; (void)hp;
    Monitor m{c};
    size_t n = 20 + c.rng.below(120);
    for (size_t i = 0; i < n; i++) {
      u64 op = c.rng.below(10);
      if (m.live.empty() || op < 3) {
        size_t a = m.align(), s = m.size(a);
        bool z = c.rng.flip();
        void* p = (z ? best::malloc::zalloc(lay(s, a)) : best::malloc::alloc(lay(s, a))).raw();
        if (p && z) { size_t k = 0; while (k < s && ((u8*)p)[k] == 0) k++; VH_CHECK(k == s, "not-zeroed", "zalloc(%zu:%zu) byte %zu is %u", s, a, k, ((u8*)p)[k]); }
        m.admit(p, s, a, z ? "zalloc" : "alloc");
        if (p) fill(m.live[(uintptr_t)p]);
      } else if (op < 7) {
        Block b = m.take(); m.verify(b, "before realloc");
        size_t a = c.rng.chance(2, 3) ? b.align : m.align(), s = m.size(a);
        void* p = best::malloc::realloc(best::ptr<void>(b.p), lay(b.size, b.align), lay(s, a)).raw();
        size_t common = std::min(s, b.size);
        if (p) { long k = first_bad((u8*)p, b.tag, common); VH_CHECK(k < 0, "realloc-content", "realloc %zu:%zu -> %zu:%zu lost byte %ld", b.size, b.align, s, a, k); }
        m.admit(p, s, a, "realloc");
        if (b.align > 16 || a > 16) c.event("realloc_overaligned");
        if (p) fill(m.live[(uintptr_t)p]);
      } else {
        Block b = m.take(); m.verify(b, "before dealloc");
        best::malloc::dealloc(best::ptr<void>(b.p), lay(b.size, b.align)); c.event("dealloc"); c.eval();
      }
      if (c.rng.chance(1, 16)) for (auto& [k, b] : m.live) m.verify(b, "while live");
    }
    while (!m.live.empty()) { Block b = m.take(); m.verify(b, "at end"); best::malloc::dealloc(best::ptr<void>(b.p), lay(b.size, b.align)); c.event("dealloc"); }
    if (c.idx < 2) c.sample(fmt("%zu operations, final history hash %llx", n, (unsigned long long)m.hist));
  }
  Heap h1 = heap_now();
  if (heap_supported()) { c.event("leak_checks"); VH_CHECK(h1.blocks == h0.blocks, "leak", "history leaked %lld heap blocks", (long long)(h1.blocks - h0.blocks)); }
}

// Every (alignment, alignment) pair with small, shrinking and growing resizes.
VH_WORKLOAD(realloc_grid, 13 * 13, 13 * 13) {
  size_t a = size_t(1) << (c.idx / 13), b = size_t(1) << (c.idx % 13);
  static const size_t ks[] = {1, 2, 3, 5, 17, 64, 300};
  for (size_t k1 : ks) for (size_t k2 : ks) {
    size_t s = k1 * a, t = k2 * b;
    Heap h0 = heap_now();
    u8* p = (u8*)best::malloc::alloc(lay(s, a)).raw();
    VH_CHECK((uintptr_t)p % a == 0, "misaligned", "alloc(%zu:%zu)", s, a);
    u64 tag = c.rng.next(); for (size_t i = 0; i < s; i++) p[i] = pat(tag, i);
    u8* q = (u8*)best::malloc::realloc(best::ptr<void>(p), lay(s, a), lay(t, b)).raw();
    VH_CHECK((uintptr_t)q % b == 0, "misaligned", "realloc(%zu:%zu -> %zu:%zu)", s, a, t, b);
    long k = first_bad(q, tag, std::min(s, t));
    VH_CHECK(k < 0, "realloc-content", "realloc %zu:%zu -> %zu:%zu lost byte %ld", s, a, t, b, k);
    memset(q, 0x5a, t);
    best::malloc::dealloc(best::ptr<void>(q), lay(t, b));
    Heap h1 = heap_now();
    if (heap_supported()) VH_CHECK(h1.blocks == h0.blocks, "leak", "realloc %zu:%zu -> %zu:%zu leaked", s, a, t, b);
    c.eval(); c.event("realloc"); c.state(hcomb(hcomb(a, b), hcomb(k1, k2)));
  }
}

#ifndef NDEBUG
VH_WORKLOAD(wrong_layout, 200, 2000) {
  size_t a = size_t(1) << c.rng.below(9), s = (1 + c.rng.below(100)) * a;
  size_t a2, s2;
  // The offset at which the block's record is kept depends on max(16, align); a different record is detected for
  // layouts of the same offset class.
  if (c.rng.flip() || a > 16) { a2 = a; do { s2 = (1 + c.rng.below(100)) * a2; } while (s2 == s); }
  else { do { a2 = size_t(1) << c.rng.below(5); s2 = c.rng.flip() ? (s + a2 - 1) / a2 * a2 : (1 + c.rng.below(100)) * a2; } while (a2 == a && s2 == s); }
  bool re = c.rng.flip();
  c.state(hcomb(hcomb(a, s), hcomb(a2, s2) + re));
  VH_MUST_CRASH("layout-mismatch", fmt("%s of a %zu:%zu block as %zu:%zu", re ? "realloc" : "dealloc", s, a, s2, a2),
    auto p = best::malloc::alloc(lay(s, a)); memset(p.raw(), 1, s);
    if (re) best::malloc::realloc(p, lay(s2, a2), lay(s2 * 2, a2)); else best::malloc::dealloc(p, lay(s2, a2)));
}
#endif

VH_WORKLOAD(bad_requests, 24, 24) {
  size_t k = c.idx % 8, a = size_t(1) << (c.idx / 8 * 4);
  c.state(c.idx);
  switch (k) {
    case 0: VH_MUST_CRASH("null-free", "dealloc(null)", best::malloc::dealloc(best::ptr<void>(nullptr), lay(a, a))); break;
    case 1: VH_MUST_CRASH("null-free", "realloc(null)", best::malloc::realloc(best::ptr<void>(nullptr), lay(a, a), lay(a, a))); break;
    case 2: VH_MUST_CRASH("dangling-free", "dealloc(dangling)", best::malloc::dealloc(best::ptr<void>((void*)16), lay(a, a))); break;
    case 3: VH_MUST_CRASH("dangling-free", "realloc(dangling)", best::malloc::realloc(best::ptr<void>((void*)256), lay(a, a), lay(a, a))); break;
    // Sizes that cannot exist: the request must stop the process, not return a short block.
    case 4: case 5: case 6: case 7: {
      size_t top = (SIZE_MAX / a - (k - 4)) * a;
      if (c.idx / 8 == 2 && k > 5) break;
      VH_MUST_CRASH("huge-request", fmt("allocation of %zu:%zu", top, a),
        auto p = (k & 1) ? best::malloc::alloc(lay(top, a)) : best::malloc::zalloc(lay(top, a)); ((volatile char*)p.raw())[100000] = 1);
      break;
    }
  }
}
