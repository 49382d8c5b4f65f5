// Lifetime monitor: instrumented element types whose every construction, copy, move, assignment, read and destruction is
// checked against a registry of live objects. Objects carry a serial number; address-bound types also check that they
// are used at the address they were constructed at (a bitwise copy of such an object is a violation).
#pragma once
#include "vh.h"
#include <map>

namespace tr {
using namespace vh;
struct Rec { const void* at; bool live; };
struct Registry {
  std::vector<Rec> recs; std::map<const void*, u32> by_addr; Ctx* c = nullptr; const char* what = "";
  u64 ctors = 0, copies = 0, moves = 0, dtors = 0, assigns = 0, reads = 0; u64 live = 0;
};
inline Registry& reg() { static Registry* r = new Registry; return *r; }
inline void bad(const char* key, const char* msg, const void* at) { if (reg().c) { Ctx& c = *reg().c; VH_FAIL(key, "%s (object at %p) during %s", msg, at, reg().what); } else { fprintf(stderr, "tracker: %s\n", msg); } }
inline void begin(Ctx& c, const char* what = "") { HeapPause hp; auto& r = reg(); r.recs.clear(); r.recs.reserve(64); r.by_addr.clear(); r.c = &c; r.what = what; r.ctors = r.copies = r.moves = r.dtors = r.assigns = r.reads = r.live = 0; r.recs.push_back({nullptr, false}); }
inline void op(const char* what) { reg().what = what; }
inline u64 live() { return reg().live; }
// Every object that was constructed is gone.
inline void end(Ctx& c, const char* key = "leaked-objects") {
  auto& r = reg(); if (r.live) VH_FAIL(key, "%llu object(s) never destroyed (constructed %llu, destroyed %llu) after %s", (unsigned long long)r.live, (unsigned long long)(r.ctors), (unsigned long long)r.dtors, r.what);
  c.event("objects_constructed", r.ctors); c.event("objects_copied", r.copies); c.event("objects_moved", r.moves); c.event("objects_assigned", r.assigns); c.event("objects_destroyed", r.dtors); r.c = nullptr;
}
inline u32 born(const void* at, bool bound) {
  HeapPause hp; auto& r = reg(); r.ctors++; r.live++;
  if (bound) { auto it = r.by_addr.find(at); if (it != r.by_addr.end()) { bad("constructed-over-live", "constructed on top of a live object", at); r.recs[it->second].live = false; r.live--; } }
  u32 id = (u32)r.recs.size(); r.recs.push_back({at, true}); if (bound) r.by_addr[at] = id; return id;
}
inline bool check(const void* at, u32 id, u32 tag, bool bound, const char* what) {
  auto& r = reg(); r.reads++;
  if (id == 0 || id >= r.recs.size() || tag != (id ^ 0x5eed1234)) { bad("used-dead", what, at); return false; }
  if (!r.recs[id].live) { bad("used-dead", what, at); return false; }
  if (bound && r.recs[id].at != at) { bad("bitwise-moved", what, at); return false; }
  return true;
}
inline void dead(const void* at, u32 id, bool bound) { HeapPause hp; auto& r = reg(); r.dtors++; r.recs[id].live = false; r.live--; if (bound) r.by_addr.erase(r.recs[id].at); }

constexpr int Moved = -7777;
#define TR_BODY(NAME, BOUND, COPY, PAD)                                                                                       \
  u32 id, tag; int v; char pad[PAD];                                                                                          \
  NAME() : NAME(0) {}                                                                                                         \
  NAME(int x) : id(born(this, BOUND)), tag(id ^ 0x5eed1234), v(x) { memset(pad, 0x11, PAD); }                                 \
  NAME(NAME&& o) noexcept : NAME(0) { reg().moves++; if (check(&o, o.id, o.tag, BOUND, "moved from a dead object")) { v = o.v; o.v = Moved; } } \
  NAME& operator=(NAME&& o) noexcept { reg().assigns++; bool a = check(this, id, tag, BOUND, "move-assigned to a dead object"), b = check(&o, o.id, o.tag, BOUND, "move-assigned from a dead object"); if (a && b && this != &o) { v = o.v; o.v = Moved; } return *this; } \
  ~NAME() { if (check(this, id, tag, BOUND, "destroyed a dead object")) dead(this, id, BOUND); id = tag = 0xdddddddd; v = -6666; } \
  int get() const { check(this, id, tag, BOUND, "read a dead object"); return v; }                                            \
  bool operator==(const NAME& o) const { return get() == o.get(); }                                                           \
  std::strong_ordering operator<=>(const NAME& o) const { return get() <=> o.get(); }
#define TR_COPY(NAME, BOUND)                                                                                                  \
  NAME(const NAME& o) : NAME(0) { reg().copies++; if (check(&o, o.id, o.tag, BOUND, "copied a dead object")) v = o.v; }        \
  NAME& operator=(const NAME& o) { reg().assigns++; reg().copies++; bool a = check(this, id, tag, BOUND, "copy-assigned to a dead object"), b = check(&o, o.id, o.tag, BOUND, "copy-assigned from a dead object"); if (a && b) v = o.v; return *this; }

struct Obj { TR_BODY(Obj, true, true, 4) TR_COPY(Obj, true) };                       // copyable, bound to its address
struct Big { TR_BODY(Big, true, true, 84) TR_COPY(Big, true) };                      // too big for inline storage
struct Uniq { TR_BODY(Uniq, true, false, 4) Uniq(const Uniq&) = delete; Uniq& operator=(const Uniq&) = delete; };      // move-only
struct [[clang::trivial_abi]] Rel { TR_BODY(Rel, false, true, 4) TR_COPY(Rel, false) };   // trivially relocatable, not trivially destructible
struct [[clang::trivial_abi]] RelUniq { TR_BODY(RelUniq, false, false, 20) RelUniq(const RelUniq&) = delete; RelUniq& operator=(const RelUniq&) = delete; };
struct alignas(64) Align { TR_BODY(Align, true, true, 4) TR_COPY(Align, true) };
}  // namespace tr
