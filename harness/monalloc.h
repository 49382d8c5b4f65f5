// Monitoring allocator: every block is recorded with its arena and layout; returning it with another layout, to another
// arena, or twice is a violation. Stateful and comparable (equal arenas are interchangeable).
#pragma once
#include "vh.h"
#include <map>
#include "best/memory/allocator.h"
#include "best/memory/layout.h"

namespace ma {
using namespace vh;
struct Blk { size_t size, align; int arena; };
struct State { std::map<void*, Blk> live; Ctx* c = nullptr; u64 allocs = 0, frees = 0, reallocs = 0; };
inline State& st() { static State* s = new State; return *s; }
inline void begin(Ctx& c) { HeapPause hp; st().live.clear(); st().c = &c; st().allocs = st().frees = st().reallocs = 0; }
inline void end(Ctx& c) {
  HeapPause hp; auto& s = st(); if (!s.live.empty()) { auto& b = *s.live.begin(); VH_FAIL("leaked-block", "%zu block(s) never returned, e.g. %zu bytes from arena %d", s.live.size(), b.second.size, b.second.arena); for (auto& [p, b] : s.live) free(p); s.live.clear(); }
  c.event("blocks_allocated", s.allocs); c.event("blocks_resized", s.reallocs); c.event("blocks_returned", s.frees); s.c = nullptr;
}
inline void bad(const char* key, const std::string& m) { if (st().c) { Ctx& c = *st().c; VH_FAIL(key, "%s", m.c_str()); } }
inline void check(void* p, best::layout l, int arena, const char* what) {
  auto it = st().live.find(p); if (it == st().live.end()) { bad("foreign-block", fmt("%s of a pointer that is no live block", what)); return; }
  if (it->second.size != l.size() || it->second.align != l.align()) bad("wrong-layout", fmt("%s with layout (%zu,%zu) of a block obtained with (%zu,%zu)", what, l.size(), l.align(), it->second.size, it->second.align));
  if (it->second.arena != arena) bad("wrong-arena", fmt("%s through allocator %d of a block from allocator %d", what, arena, it->second.arena));
}
struct Mon {
  int arena = 0;
  best::ptr<void> get(best::layout l, int fill) const { HeapPause hp; size_t al = l.align() < 16 ? 16 : l.align(); size_t n = l.size() ? l.size() : 1; void* p = nullptr; if (n > (size_t(1) << 40)) { bad("absurd-allocation", fmt("asked for %zu bytes", n)); abort(); } if (al == 16) p = malloc(n); else if (posix_memalign(&p, al, n)) abort(); memset(p, fill, n); st().live[p] = {l.size(), l.align(), arena}; st().allocs++; return best::ptr<void>(p); }
  best::ptr<void> alloc(best::layout l) const { return get(l, 0xa5); }
  best::ptr<void> zalloc(best::layout l) const { return get(l, 0); }
  best::ptr<void> realloc(best::ptr<void> p, best::layout o, best::layout n) const { HeapPause hp; check(p.raw(), o, arena, "resize"); auto q = get(n, 0xa5); memcpy(q.raw(), p.raw(), o.size() < n.size() ? o.size() : n.size()); st().live.erase(p.raw()); free(p.raw()); st().reallocs++; st().allocs--; return q; }
  void dealloc(best::ptr<void> p, best::layout l) const { HeapPause hp; check(p.raw(), l, arena, "return"); if (st().live.erase(p.raw())) { st().frees++; free(p.raw()); } }
  bool operator==(const Mon& o) const { return arena == o.arena; }
};
// The same, without state (an empty type).
struct Mon0 {
  best::ptr<void> alloc(best::layout l) const { return Mon{7}.alloc(l); }
  best::ptr<void> zalloc(best::layout l) const { return Mon{7}.zalloc(l); }
  best::ptr<void> realloc(best::ptr<void> p, best::layout o, best::layout n) const { return Mon{7}.realloc(p, o, n); }
  void dealloc(best::ptr<void> p, best::layout l) const { Mon{7}.dealloc(p, l); }
  bool operator==(const Mon0&) const = default;
};
}  // namespace ma
