// C04: span searching, splitting, affixes. Oracle: naive element-by-element definitions over std::vector.
#include "vh.h"
#include "best/memory/span.h"
#include "best/container/vec.h"
#include <memory>
#include <optional>
using namespace vh;

namespace {
struct Tri { u8 a, b, c; bool operator==(const Tri&) const = default; };
struct Pod { u16 a, b; bool operator==(const Pod&) const = default; };
struct Cls { int v; Cls(int x = 0) : v(x) {} Cls(const Cls& o) : v(o.v) {} Cls& operator=(const Cls& o) { v = o.v; return *this; } ~Cls() {} bool operator==(const Cls& o) const { return v == o.v; } };
struct Loose { u8 v, junk; bool operator==(const Loose& o) const { return v == o.v; } };  // equality is not byte equality
enum class En : u16 { A = 1, B = 0x101, C = 0x100, D = 0 };

template <class T> T mk(Rng& r, unsigned alpha) {
  u64 k = r.below(alpha);
  if constexpr (std::is_same_v<T, bool>) return k & 1;
  else if constexpr (std::is_floating_point_v<T>) { static const T v[] = {0.0, -0.0, 1.0, -1.0, 256.0, 0.5, (T)NAN}; return v[k % 7]; }
  else if constexpr (std::is_same_v<T, Tri>) { static const u8 v[] = {0, 1, 0xff}; return Tri{v[k % 3], v[k / 3 % 3], v[r.below(2)]}; }
  else if constexpr (std::is_same_v<T, Pod>) { static const u16 v[] = {0, 1, 0x100, 0x101}; return Pod{v[k % 4], v[r.below(2)]}; }
  else if constexpr (std::is_same_v<T, Cls>) return Cls((int)k);
  else if constexpr (std::is_same_v<T, Loose>) return Loose{(u8)k, (u8)r.next()};
  else if constexpr (std::is_same_v<T, En>) { static const En v[] = {En::A, En::B, En::C, En::D}; return v[k % 4]; }
  else if constexpr (std::is_pointer_v<T>) { static int arr[8]; return k % 9 == 8 ? nullptr : arr + k % 8; }
  else if constexpr (sizeof(T) == 1) { static const u8 v[] = {'a', 'b', 0, 0xff, 0x80, 'c', 1, 0x7f}; return (T)v[k % 8]; }
  else { // byte patterns that match at non-element boundaries
    static const u64 v[] = {0, 1, 0x0100, 0x0101, 0x01000000, 0x00010000, 0x0101010101010101ull, 0xffffffffffffffffull, 0x8000000000000000ull, 0x0001000100010001ull, 0xff00ff00ff00ff00ull, 0x00ff00ff00ff00ffull};
    return (T)v[k % 12];
  }
}
template <class T> struct Exact {  // exact-size heap copy, with a chosen misalignment of the start within the block
  char* raw; T* p; size_t n;
  Exact(const std::vector<T>& v, size_t lead) : raw((char*)malloc((lead + v.size()) * sizeof(T) + (v.empty() && !lead))), p((T*)raw + lead), n(v.size()) { memset(raw, 0x41, lead * sizeof(T)); for (size_t i = 0; i < n; i++) new (p + i) T(v[i]); }
  ~Exact() { free(raw); }
  best::span<T> span() const { return best::span<T>(p, n); }
  best::span<const T> cspan() const { return best::span<const T>(p, n); }
};
using Opt = std::optional<size_t>;
// `char`s are compared as bytes (the library's own tests rely on it); everything else with ==.
template <class T, class U> bool eq1(const T& a, const U& b) { if constexpr ((std::is_same_v<T, char> || std::is_same_v<U, char>) && !std::is_same_v<T, U>) return (u8)a == (u8)b; else return a == b; }
template <class T, class U> Opt nfind(const std::vector<T>& h, const std::vector<U>& n) { if (n.empty()) return 0; for (size_t i = 0; i + n.size() <= h.size(); i++) { bool ok = true; for (size_t j = 0; j < n.size() && ok; j++) ok = eq1(h[i + j], n[j]); if (ok) return i; } return {}; }
template <class T, class U> Opt nrfind(const std::vector<T>& h, const std::vector<U>& n) { Opt r; for (size_t i = 0; i + n.size() <= h.size(); i++) { bool ok = true; for (size_t j = 0; j < n.size() && ok; j++) ok = eq1(h[i + j], n[j]); if (ok) r = i; } return r; }
template <class T, class F> Opt pfind(const std::vector<T>& h, F f) { for (size_t i = 0; i < h.size(); i++) if (f(h[i])) return i; return {}; }
template <class T, class F> Opt prfind(const std::vector<T>& h, F f) { Opt r; for (size_t i = 0; i < h.size(); i++) if (f(h[i])) r = i; return r; }
template <class O> bool same(const O& got, const Opt& want) { return got.has_value() == want.has_value() && (!want || *got == *want); }
template <class O> std::string so(const O& o) { return o.has_value() ? fmt("%zu", (size_t)*o) : "none"; }
template <class T> std::string dump(const std::vector<T>& v) { std::string s = fmt("[%zu]", v.size()); for (size_t i = 0; i < v.size() && i < 40; i++) { s += " "; auto b = (const u8*)&v[i]; for (size_t k = 0; k < sizeof(T) && k < 8; k++) s += fmt("%02x", b[k]); } return s; }
std::string dump(const std::vector<bool>& v) { std::string s; for (bool b : v) s += b ? '1' : '0'; return s; }
template <class T> u64 hv(const std::vector<T>& v) { u64 h = v.size() * 31 + sizeof(T); for (auto& x : v) h = hcomb(h, *(const u8*)&x + (sizeof(T) > 1 ? ((const u8*)&x)[1] * 256 : 0)); return h; }
template <class P> bool is_piece(const P& p, const void* base, size_t start, size_t len, size_t esz) { return p.size() == len && (len == 0 || (const char*)p.data().raw() == (const char*)base + start * esz); }

// Splits by a located separator, forwards; the reference for iterated splitting.
using Piece = std::pair<size_t, size_t>;
template <class F> std::vector<Piece> pieces(size_t n, size_t sep, F next) { std::vector<Piece> out; size_t at = 0; for (;;) { Opt f = next(at); if (!f) { out.push_back({at, n - at}); return out; } out.push_back({at, *f - at}); at = *f + sep; } }

template <class T> void check_split_iter(Ctx& c, const char* what, auto make, const T* base, const std::vector<Piece>& want, bool unique_seps) {
  // Front to back, stepping by hand.
  { auto it = make(); size_t k = 0; bool ok = true; while (auto p = it.next()) { if (k >= want.size() || !is_piece(*p, base, want[k].first, want[k].second, sizeof(T))) { ok = false; break; } k++; if (k > want.size() + 3) break; }
    VH_CHECK(ok && k == want.size(), "split", "%s: forward split piece %zu of %zu wrong", what, k, want.size()); VH_CHECK(!ok || !it.next().has_value(), "split-after-end", "%s: split yields after its end", what); c.event("split_pieces", k); }
  if (!unique_seps) return;
  { auto it = make(); size_t k = want.size(); bool ok = true; while (auto p = it.next_back()) { if (k == 0 || !is_piece(*p, base, want[k - 1].first, want[k - 1].second, sizeof(T))) { ok = false; break; } k--; }
    VH_CHECK(ok && k == 0, "split-back", "%s: backward split piece %zu of %zu wrong", what, k, want.size()); }
  { auto it = make(); size_t lo = 0, hi = want.size(); bool ok = true; std::string order;
    while (lo < hi && ok) { bool f = c.rng.flip(); order += f ? 'f' : 'b'; auto h = it.size_hint(); size_t rem = hi - lo; VH_CHECK(h.lower <= rem && (!h.upper || *h.upper >= rem), "split-size-hint", "%s: size_hint does not bracket %zu", what, rem);
      auto p = f ? it.next() : it.next_back(); auto w = f ? want[lo++] : want[--hi]; ok = p.has_value() && is_piece(*p, base, w.first, w.second, sizeof(T)); }
    VH_CHECK(ok && !it.next().has_value() && !it.next_back().has_value(), "split-both-ends", "%s: two-ended split wrong (%s) of %zu pieces", what, order.c_str(), want.size()); c.event("split_two_ended"); }
}

template <class T, class U = T> void one(Ctx& c, const std::vector<T>& h, const std::vector<U>& n) {
  Exact<T> H(h, c.rng.below(5)); Exact<U> N(n, c.rng.below(5));
  auto hs = H.cspan(); auto ns = N.cspan();
  auto D = [&] { return fmt("hay %s needle %s (element size %zu)", dump(h).c_str(), dump(n).c_str(), sizeof(T)); };
  c.eval(); c.state(hcomb(hv(h), hv(n)));
  Opt w = nfind(h, n), rw = nrfind(h, n);
  auto g = hs.find(ns);
  c.event(w ? "find_hit" : "find_miss");
  VH_CHECK(same(g, w), "find-span", "find: got %s, expected %s; %s", so(g).c_str(), so(w).c_str(), D().c_str());
  VH_CHECK(hs.contains(ns) == w.has_value(), "contains-span", "contains: %s", D().c_str());
  if (!n.empty()) {
    auto r = hs.rfind(ns);
    VH_CHECK(same(r, rw), "rfind-span", "rfind: got %s, expected %s; %s", so(r).c_str(), so(rw).c_str(), D().c_str());
    auto s = hs.split_once(ns); auto rs = hs.rsplit_once(ns);
    VH_CHECK(s.has_value() == w.has_value() && (!w || (is_piece(s->first(), H.p, 0, *w, sizeof(T)) && is_piece(s->second(), H.p, *w + n.size(), h.size() - *w - n.size(), sizeof(T)))), "split_once-span", "split_once: %s", D().c_str());
    VH_CHECK(rs.has_value() == rw.has_value() && (!rw || (is_piece(rs->first(), H.p, 0, *rw, sizeof(T)) && is_piece(rs->second(), H.p, *rw + n.size(), h.size() - *rw - n.size(), sizeof(T)))), "rsplit_once-span", "rsplit_once: %s", D().c_str());
  }
  bool st = n.size() <= h.size() && std::equal(n.begin(), n.end(), h.begin(), [](auto& a, auto& b) { return b == a; });
  bool en = n.size() <= h.size() && std::equal(n.begin(), n.end(), h.end() - n.size(), [](auto& a, auto& b) { return b == a; });
  c.event(st || en ? "affix_hit" : "affix_miss");
  VH_CHECK(hs.starts_with(ns) == st, "starts_with", "starts_with should be %d: %s", st, D().c_str());
  VH_CHECK(hs.ends_with(ns) == en, "ends_with", "ends_with should be %d: %s", en, D().c_str());
  auto sp = hs.strip_prefix(ns); auto ss = hs.strip_suffix(ns);
  VH_CHECK(sp.has_value() == st && (!st || is_piece(*sp, H.p, n.size(), h.size() - n.size(), sizeof(T))), "strip_prefix", "strip_prefix: %s", D().c_str());
  VH_CHECK(ss.has_value() == en && (!en || is_piece(*ss, H.p, 0, h.size() - n.size(), sizeof(T))), "strip_suffix", "strip_suffix: %s", D().c_str());
  auto cp = hs, cs = hs; bool bp = cp.consume_prefix(ns), bs = cs.consume_suffix(ns);
  VH_CHECK(bp == st && is_piece(cp, H.p, st ? n.size() : 0, st ? h.size() - n.size() : h.size(), sizeof(T)), "consume_prefix", "consume_prefix: %s", D().c_str());
  VH_CHECK(bs == en && is_piece(cs, H.p, 0, en ? h.size() - n.size() : h.size(), sizeof(T)), "consume_suffix", "consume_suffix: %s", D().c_str());
  bool eq = h.size() == n.size() && st;
  VH_CHECK((hs == ns) == eq && (hs != ns) == !eq, "equality", "equality should be %d: %s", eq, D().c_str());
  // Single value needles.
  for (size_t k = 0; k < 2 && k < n.size(); k++) {
    const U& x = n[k]; std::vector<U> xv{x}; Opt f = nfind(h, xv), rf = nrfind(h, xv);
    auto a = hs.find(x); auto b = hs.rfind(x);
    c.event(f ? "value_hit" : "value_miss"); c.eval();
    VH_CHECK(same(a, f) && hs.contains(x) == f.has_value(), "find-value", "find(value): got %s, expected %s; %s", so(a).c_str(), so(f).c_str(), D().c_str());
    VH_CHECK(same(b, rf), "rfind-value", "rfind(value): got %s, expected %s; %s", so(b).c_str(), so(rf).c_str(), D().c_str());
    auto s = hs.split_once(x); auto rs = hs.rsplit_once(x);
    VH_CHECK(s.has_value() == f.has_value() && (!f || (is_piece(s->first(), H.p, 0, *f, sizeof(T)) && is_piece(s->second(), H.p, *f + 1, h.size() - *f - 1, sizeof(T)))), "split_once-value", "split_once(value): %s", D().c_str());
    VH_CHECK(rs.has_value() == rf.has_value() && (!rf || (is_piece(rs->first(), H.p, 0, *rf, sizeof(T)) && is_piece(rs->second(), H.p, *rf + 1, h.size() - *rf - 1, sizeof(T)))), "rsplit_once-value", "rsplit_once(value): %s", D().c_str());
    if constexpr (std::is_same_v<T, U>) {
      auto want = pieces(h.size(), 1, [&](size_t at) -> Opt { for (size_t i = at; i < h.size(); i++) if (eq1(h[i], x)) return i; return {}; });
      check_split_iter<T>(c, "split(value)", [&] { return hs.split(x); }, H.p, want, true);
    }
    // Predicates.
    size_t calls = 0; auto pred = [&](const T& y) { calls++; return y == x; }; auto rp = [&](const T& y) { return y == x; };
    auto pf = hs.find(pred); VH_CHECK(same(pf, f) && calls == (f ? *f + 1 : h.size()), "find-pred", "find(predicate): got %s, expected %s with %zu calls; %s", so(pf).c_str(), so(f).c_str(), calls, D().c_str());
    auto pr = hs.rfind(rp); VH_CHECK(same(pr, rf), "rfind-pred", "rfind(predicate): got %s, expected %s; %s", so(pr).c_str(), so(rf).c_str(), D().c_str());
    VH_CHECK(hs.contains(rp) == f.has_value(), "contains-pred", "contains(predicate): %s", D().c_str());
    auto sp2 = hs.split_once(rp); auto rs2 = hs.rsplit_once(rp);
    VH_CHECK(sp2.has_value() == f.has_value() && (!f || (is_piece(sp2->first(), H.p, 0, *f, sizeof(T)) && is_piece(sp2->second(), H.p, *f + 1, h.size() - *f - 1, sizeof(T)))), "split_once-pred", "split_once(pred): %s", D().c_str());
    VH_CHECK(rs2.has_value() == rf.has_value() && (!rf || (is_piece(rs2->first(), H.p, 0, *rf, sizeof(T)) && is_piece(rs2->second(), H.p, *rf + 1, h.size() - *rf - 1, sizeof(T)))), "rsplit_once-pred", "rsplit_once(pred): %s", D().c_str());
    auto wantp = pieces(h.size(), 1, [&](size_t at) -> Opt { for (size_t i = at; i < h.size(); i++) if (eq1(h[i], x)) return i; return {}; });
    check_split_iter<T>(c, "split(pred)", [&] { return hs.split(rp); }, H.p, wantp, true);
  }
  // Iterated splitting by a sub-sequence; occurrences of a separator may overlap, so only the forward order is defined then.
  if (n.size() > 1) {
    auto want = pieces(h.size(), n.size(), [&](size_t at) -> Opt { std::vector<T> t(h.begin() + at, h.end()); auto f = nfind(t, n); if (f) return *f + at; return {}; });
    bool overlap = false; { size_t last = 0; bool any = false; for (size_t i = 0; i + n.size() <= h.size(); i++) { std::vector<T> t(h.begin() + i, h.begin() + i + n.size()); if (nfind(t, n)) { if (any && i - last < n.size()) overlap = true; any = true; last = i; } } }
    check_split_iter<T>(c, "split(span)", [&] { return hs.split(ns); }, H.p, want, !overlap);
  }
}
template <class T> std::vector<T> rv(Rng& r, size_t n, unsigned a) { std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(mk<T>(r, a)); return v; }
template <class T> void run(Ctx& c) {
  unsigned alpha = 2 + c.rng.below(c.rng.chance(1, 4) ? 10 : 3);
  auto h = rv<T>(c.rng, c.rng.chance(1, 10) ? c.rng.below(300) : c.rng.len(24), alpha);
  std::vector<T> n;
  switch (c.rng.below(4)) {
    case 0: n = rv<T>(c.rng, c.rng.below(5), alpha); break;
    case 1: { size_t a = c.rng.below(h.size() + 1), b = a + c.rng.below(h.size() - a + 1); n.assign(h.begin() + a, h.begin() + b); break; }
    case 2: { size_t a = c.rng.below(h.size() + 1), b = a + c.rng.below(h.size() - a + 1); n.assign(h.begin() + a, h.begin() + b); if (!n.empty()) n[c.rng.below(n.size())] = mk<T>(c.rng, alpha); break; }
    default: n = rv<T>(c.rng, 1 + c.rng.below(3), alpha);
  }
  one<T>(c, h, n);
  if (c.idx < 2) c.sample(fmt("hay %s needle %s", dump(h).c_str(), dump(n).c_str()));
}
template <class T, class U> void cross(Ctx& c) {
  unsigned alpha = 2 + c.rng.below(6);
  auto h = rv<T>(c.rng, c.rng.len(16), alpha); std::vector<U> n;
  if (c.rng.flip()) n = rv<U>(c.rng, c.rng.below(4), alpha); else { size_t a = c.rng.below(h.size() + 1), b = a + c.rng.below(std::min<size_t>(h.size() - a, 4) + 1); for (; a < b; a++) n.push_back((U)h[a]); }
  // Whether a `char` of 0x80 or more equals the unsigned byte is not settled by the library: ASCII only there.
  if constexpr (std::is_same_v<T, char>) { for (auto& x : h) x &= 0x7f; for (auto& x : n) x &= 0x7f; }
  c.event("cross_type");
  one<T, U>(c, h, n);
}
}  // namespace

VH_WORKLOAD(bytes, 3000, 100000) { switch (c.rng.below(4)) { case 0: run<char>(c); break; case 1: run<u8>(c); break; case 2: run<i8>(c); break; default: run<char8_t>(c); } }
VH_WORKLOAD(wide, 4000, 100000) { switch (c.rng.below(5)) { case 0: run<u16>(c); break; case 1: run<i32>(c); break; case 2: run<u64>(c); break; case 3: run<char16_t>(c); break; default: run<char32_t>(c); } }
VH_WORKLOAD(classes, 4000, 100000) { switch (c.rng.below(7)) { case 0: run<Tri>(c); break; case 1: run<Pod>(c); break; case 2: run<Cls>(c); break; case 3: run<Loose>(c); break; case 4: run<En>(c); break; case 5: run<int*>(c); break; default: run<double>(c); } }
VH_WORKLOAD(cross_types, 3000, 60000) { switch (c.rng.below(6)) { case 0: cross<u8, i8>(c); break; case 1: cross<i8, u8>(c); break; case 2: cross<i32, i64>(c); break; case 3: cross<u16, i16>(c); break; case 4: cross<i32, u8>(c); break; default: cross<char, u8>(c); } }
// Exhaustive: two- and three-letter haystacks whose bytes overlap element boundaries.
VH_WORKLOAD(exhaustive16, 243, 243) {
  static const u16 L[] = {0x0101, 0x0100, 0x0001};
  std::vector<u16> h; size_t k = c.idx; for (int i = 0; i < 5; i++) { h.push_back(L[k % 3]); k /= 3; }
  for (size_t cut = 0; cut <= 5; cut++) { std::vector<u16> hh(h.begin(), h.begin() + cut);
    for (size_t n = 1; n <= 2; n++) for (size_t j = 0; j < (n == 1 ? 3 : 9); j++) { std::vector<u16> nn{L[j % 3]}; if (n == 2) nn.push_back(L[j / 3]); one<u16>(c, hh, nn); } }
}
VH_WORKLOAD(exhaustive_bytes, 256, 256) {
  std::vector<char> h; for (int i = 0; i < 8; i++) h.push_back("ab"[c.idx >> i & 1]);
  for (size_t cut = 0; cut <= 8; cut += 1 + c.idx % 3) { std::vector<char> hh(h.begin(), h.begin() + cut); for (size_t n = 1; n <= 3; n++) for (size_t j = 0; j < (size_t(1) << n); j++) { std::vector<char> nn; for (size_t i = 0; i < n; i++) nn.push_back("ab"[j >> i & 1]); one<char>(c, hh, nn); } }
}
VH_WORKLOAD(nul_terminated, 500, 5000) {
  auto go = [&]<class T>(T) { auto v = rv<T>(c.rng, c.rng.len(30), 6); v.push_back(T(0)); Exact<T> e(v, c.rng.below(4)); size_t w = 0; while (!(v[w] == T(0))) w++; auto s = best::from_nul<T>(e.p); c.eval(); c.event("from_nul"); c.state(hv(v)); VH_CHECK(s.size() == w && s.data().raw() == e.p, "from_nul", "from_nul found %zu, expected %zu", s.size(), w);
    VH_CHECK(best::span<T>::from_nul(nullptr).size() == 0, "from_nul-null", "from_nul(nullptr)"); };
  switch (c.rng.below(4)) { case 0: go(char{}); break; case 1: go(u16{}); break; case 2: go(i32{}); break; default: go(u8{}); }
}
VH_WORKLOAD(subarray, 1000, 10000) {
  size_t n = c.rng.len(20); std::vector<u32> v(n + 1, 1); u32* p = v.data();
  size_t a = c.rng.below(n + 1), al = c.rng.below(n - a + 1), b = c.rng.below(n + 1), bl = c.rng.below(n - b + 1);
  best::span<u32> x(p + a, al), y(p + b, bl); bool w = a <= b && b + bl <= a + al;
  c.eval(); c.event("has_subarray"); c.state(hcomb(hcomb(a, al), hcomb(b, bl)));
  VH_CHECK(x.has_subarray(y) == w, "has_subarray", "[%zu,+%zu) has_subarray [%zu,+%zu) should be %d", a, al, b, bl, w);
}
