// Harness core: seeded workloads, monitors' reporting, event counters, forked death monitor, heap accounting.
// Depends on nothing of the code under test.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <functional>

namespace vh {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t;
using u128 = unsigned __int128; using i128 = __int128;

constexpr u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
constexpr u64 hcomb(u64 a, u64 b) { return mix(a ^ mix(b)); }
inline u64 hbytes(const void* p, size_t n, u64 h = 1469598103934665603ull) { auto c = (const u8*)p; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return mix(h); }
inline u64 hstr(const std::string& s) { return hbytes(s.data(), s.size()); }

struct Rng {
  u64 s;
  constexpr explicit Rng(u64 seed) : s(mix(seed)) {}
  constexpr u64 next() { s += 0x9e3779b97f4a7c15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
  constexpr u64 below(u64 n) { return n ? next() % n : 0; }
  constexpr i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo) + 1); }  // inclusive
  constexpr bool chance(u64 num, u64 den) { return below(den) < num; }
  constexpr bool flip() { return next() >> 63; }
  template <class T, size_t N> constexpr const T& pick(const T (&a)[N]) { return a[below(N)]; }
  template <class V> constexpr decltype(auto) pickv(V&& v) { return v[below(v.size())]; }
  // Size biased to small values and around powers of two.
  size_t len(size_t max) { switch (below(4)) { case 0: return below(max < 4 ? max + 1 : 4); case 1: return below(max < 12 ? max + 1 : 12); default: return below(max + 1); } }
  // An integer biased to boundaries.
  template <class I> I edge() {
    constexpr int B = sizeof(I) * 8;
    using U = std::make_unsigned_t<I>;
    switch (below(6)) {
      case 0: { static const i64 k[] = {0, 1, 2, 3, 7, 9, 10, 11, 16, 35, 36, 37, 63, 64, 99, 100, 127, 128, 255, 256, 1000}; I v = (I)k[below(21)]; return flip() ? v : (I)(U(0) - U(v)); }
      case 1: { U v = U(U(1) << below(B)); v = U(v + U(below(3)) - U(1)); return flip() ? (I)v : (I)U(U(0) - v); }
      case 2: { U m = U(~U(0)); if (flip()) m = U(m >> 1); return (I)U(m - U(below(3))); }
      case 3: { U m = U(U(1) << (B - 1)); return (I)U(m + U(below(3))); }
      case 4: return (I)(U)(next() >> below(64));
      default: return (I)(U)next();
    }
  }
};

struct Ctx {
  Rng rng;
  const char* workload;
  u64 idx;        // case index
  u64 total;      // number of cases in this workload/tier
  bool thorough;
  void event(const char* name, u64 n = 1);
  void state(u64 h);                       // a distinct, non-trivial state/case
  void eval(u64 n = 1);                    // executions / inputs tried
  void sample(const std::string& s);
};

// Records a violation (first detail per key kept) and continues.
void fail(Ctx& c, const char* key, const char* file, int line, const char* fmt, ...) __attribute__((format(printf, 5, 6)));
bool failed_already(const char* key);

enum class Death { Crashed, Survived, Bad };
struct DeathInfo { Death kind; int status; std::string err; };
// Runs `f` in a forked child. Crashed: the library's own crash (status 128 + its message). Survived: f returned.
// Bad: signal, sanitizer report, hang or other exit.
DeathInfo in_child(const std::function<void()>& f);
// Declares that `f` must crash with the library's message.
void must_crash(Ctx& c, const char* key, const char* file, int line, const std::string& what, const std::function<void()>& f, const char* msg = nullptr);

struct Heap { i64 blocks, bytes; };
Heap heap_now();     // live blocks / bytes allocated through malloc by this process (pauses excluded)
bool heap_supported();
void heap_pause(bool);   // bracket harness-internal allocations
struct HeapPause { HeapPause() { heap_pause(true); } ~HeapPause() { heap_pause(false); } };

using Fn = void (*)(Ctx&);
struct Workload { const char* name; u64 quick, thorough; Fn fn; };
struct Reg { Reg(const char* name, u64 q, u64 t, Fn fn); };
std::string show(const std::string& bytes);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string u128s(u128 v); std::string i128s(i128 v);
void guard_begin(); 
}  // namespace vh

#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
// VH_WORKLOAD(name, quick_cases, thorough_cases) { ... uses c ... }
#define VH_WORKLOAD(name, q, t)                          \
  static void name##_fn(vh::Ctx& c);                     \
  static vh::Reg name##_reg(#name, q, t, &name##_fn);    \
  static void name##_fn([[maybe_unused]] vh::Ctx& c)
#define VH_FAIL(key, ...) vh::fail(c, key, __FILE__, __LINE__, __VA_ARGS__)
#define VH_CHECK(cond, key, ...) do { if (!(cond)) vh::fail(c, key, __FILE__, __LINE__, __VA_ARGS__); } while (0)
#define VH_MUST_CRASH(key, what, ...) vh::must_crash(c, key, __FILE__, __LINE__, what, [&] { __VA_ARGS__; })
