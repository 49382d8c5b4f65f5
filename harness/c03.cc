// C03: bounds-checked access. Oracle: 128-bit arithmetic on the bounds; pointer identity; exact-size heap buffers + ASan.
#include "vh.h"
#include "best/memory/span.h"
#include "best/container/vec.h"
#include "best/container/box.h"
#include "best/text/ascii.h"
#include "best/text/utf8.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/str.h"
#include "best/text/strbuf.h"
#include <memory>
#include <optional>
using namespace vh;

namespace {
struct Tri { u8 a, b, c; bool operator==(const Tri&) const = default; };
struct Cls { u64 v; Cls(u64 x) : v(x) {} Cls(const Cls& o) : v(o.v) {} bool operator==(const Cls& o) const { return v == o.v; } };
constexpr size_t kEdges[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, size_t(1) << 63, (size_t(1) << 62) + 1};

struct B { size_t start; std::optional<size_t> end, inc, count; };
best::bounds to_best(const B& b) { best::bounds r; r.start = b.start; if (b.end) r.end = *b.end; if (b.inc) r.including_end = *b.inc; if (b.count) r.count = *b.count; return r; }
std::string str(const B& b) { HeapPause _; std::string s = fmt("{start=%zu", b.start); if (b.end) s += fmt(" end=%zu", *b.end); if (b.inc) s += fmt(" including_end=%zu", *b.inc); if (b.count) s += fmt(" count=%zu", *b.count); return s + "}"; }
// The documented meaning: end wins over including_end wins over count; nothing means "to the end".
std::optional<size_t> expect_count(const B& b, size_t size) {
  u128 s = b.start, e;
  if (b.end) e = *b.end; else if (b.inc) e = (u128)*b.inc + 1; else if (b.count) e = s + *b.count; else e = size;
  if (!b.end && b.inc && b.start > *b.inc) return std::nullopt;  // an inclusive end before the start is an error
  if (s > e || e > size) return std::nullopt;
  return (size_t)(e - s);
}
u64 hb(const B& b, size_t n) { return hcomb(hcomb(hcomb(b.start, b.end.value_or(77777)), hcomb(b.inc.value_or(77777), b.count.value_or(77777))), n); }

template <class T> struct Buf {
  T* p; size_t n;
  explicit Buf(size_t n) : p((T*)malloc(n * sizeof(T) + (n == 0))), n(n) { for (size_t i = 0; i < n; i++) { u64 h = mix(i + 1); if constexpr (std::is_same_v<T, Cls>) new (p + i) Cls(h); else memcpy(p + i, &h, sizeof(T) < 8 ? sizeof(T) : 8); } }
  ~Buf() { free(p); }
};
size_t small_or_edge(Rng& r, size_t n) { switch (r.below(4)) { case 0: return r.pick(kEdges); case 1: return n + r.below(3); case 2: return n ? n - 1 - r.below(n > 2 ? 2 : 1) : 0; default: return r.below(n + 4); } }
B rand_bounds(Rng& r, size_t n) { B b{r.chance(1, 3) ? 0 : small_or_edge(r, n)}; u64 k = r.below(8); if (k & 1) b.end = small_or_edge(r, n); if (k & 2) b.inc = small_or_edge(r, n); if (k & 4) b.count = small_or_edge(r, n);
  // Often make the pair consistent, to reach the accepting side.
  if (r.flip() && b.start <= n) { size_t e = b.start + r.below(n - b.start + 1); if (b.end) b.end = e; else if (b.inc) { if (e > 0) b.inc = e - 1; } else if (b.count) b.count = e - b.start; }
  return b; }

// `at(opt)` gives the accessor's optional sub-span as (ptr, size).
template <class Opt> void check_at(Ctx& c, const char* what, const B& b, const void* base, size_t n, size_t esz, const Opt& got) {
  auto want = expect_count(b, n);
  c.eval();
  if (want) c.event("in_bounds"); else c.event("out_of_bounds");
  if (got.has_value() != want.has_value()) { VH_FAIL("at-accepts", "%s.at(%s) with size %zu: %s, expected %s", what, str(b).c_str(), n, got ? "present" : "none", want ? "present" : "none"); return; }
  if (want) {
    const void* p = (const void*)best::data((*got)).raw();
    size_t k = best::size(*got);
    VH_CHECK(k == *want, "at-size", "%s.at(%s) with size %zu has %zu elements, expected %zu", what, str(b).c_str(), n, k, *want);
    VH_CHECK(n == 0 || p == (const char*)base + b.start * esz, "at-pointer", "%s.at(%s) with size %zu starts at the wrong element", what, str(b).c_str(), n);
  }
}
struct StrAsSpan { best::ptr<const char> d; size_t n; };
}  // namespace

// Exhaustive small grid of bounds, for the range computation itself and for span::at.
VH_WORKLOAD(grid, 9 * 12, 9 * 12) {
  size_t n = c.idx / 12;
  size_t axis[13]; size_t na = 0; for (size_t i = 0; i <= n + 1; i++) if (na < 10) axis[na++] = i; axis[na++] = SIZE_MAX; axis[na++] = SIZE_MAX - 1;
  if (c.idx % 12 >= na) return;
  Buf<u16> buf(n); best::span<u16> sp(buf.p, n);
  size_t s = axis[c.idx % 12];
  for (size_t e = 0; e <= na; e++) for (size_t i = 0; i <= na; i++) for (size_t k = 0; k <= na; k++) {
    B b{s}; if (e < na) b.end = axis[e]; if (i < na) b.inc = axis[i]; if (k < na) b.count = axis[k];
    auto bb = to_best(b);
    check_at(c, "span", b, buf.p, n, 2, sp.at(bb));
    auto want = expect_count(b, n);
    auto got = bb.try_compute_count(n);
    VH_CHECK(got.has_value() == want.has_value() && (!want || *got == *want), "try_compute_count", "try_compute_count(%s, %zu)", str(b).c_str(), n);
    if (want) { VH_CHECK(bb.compute_count(n) == *want, "compute_count", "compute_count(%s, %zu)", str(b).c_str(), n);
      auto sub = sp[bb]; VH_CHECK(sub.size() == *want && (n == 0 || sub.data().raw() == buf.p + b.start), "subscript-range", "span[%s] size %zu", str(b).c_str(), n);
      auto un = sp.at(best::unsafe("checked"), bb); VH_CHECK(un.size() == *want && (n == 0 || un.data().raw() == buf.p + b.start), "at-unsafe", "span.at(unsafe, %s) size %zu gives size %zu", str(b).c_str(), n, un.size());
      u64 h = 0; for (auto& x : sub) h += x; asm volatile("" ::"r"(h)); }
    // Without a size: only an explicit end can be answered.
    best::container_internal::option<size_t> none; auto open = bb.try_compute_count(none);
    bool explicit_end = b.end || b.inc || b.count;
    if (!explicit_end) VH_CHECK(!open.has_value(), "open-count", "try_compute_count(%s, none) should be none", str(b).c_str());
    else { u128 st = b.start, en = b.end ? (u128)*b.end : b.inc ? (u128)*b.inc + 1 : st + *b.count; bool ok = st <= en && !(!b.end && b.inc && b.start > *b.inc) && (b.end || b.inc ? en - st <= SIZE_MAX : en <= SIZE_MAX);
      VH_CHECK(open.has_value() == ok && (!ok || (u128)*open == en - st), "open-count", "try_compute_count(%s, none) is %s %zu", str(b).c_str(), open.has_value() ? "present" : "none", open.has_value() ? *open : 0); }
    c.state(hb(b, n));
  }
}

template <class T> static void elems(Ctx& c) {
  size_t n = c.rng.len(40);
  Buf<T> buf(n);
  best::span<T> sp(buf.p, n);
  best::span<const T> csp = sp;
  best::vec<T> v; for (size_t i = 0; i < n; i++) v.push(buf.p[i]);
  const auto& cv = v;
  auto bx = best::box<T[]>(sp);
  VH_CHECK(v.size() == n && bx->size() == n, "size", "size");
  for (size_t k = 0; k < n + 6; k++) {
    size_t i = k < n + 2 ? k : kEdges[k - n - 2];
    auto a = sp.at(i); auto d = csp.at(i); auto e = v.at(i); auto f = cv.at(i); auto g = bx->at(i);
    c.eval(5); c.event(i < n ? "element_in" : "element_out");
    bool w = i < n;
    VH_CHECK(a.has_value() == w && d.has_value() == w && e.has_value() == w && f.has_value() == w && g.has_value() == w, "at-element", "at(%zu) on %zu elements accepted %d%d%d%d%d", i, n, (bool)a, (bool)d, (bool)e, (bool)f, (bool)g);
    if (w && a && d && e && f && g) {
      VH_CHECK(&*a == buf.p + i && &*d == buf.p + i && &sp[i] == buf.p + i && &csp[i] == buf.p + i, "element-address", "span element %zu of %zu has the wrong address", i, n);
      VH_CHECK(&*e == (T*)v.data().raw() + i && &*f == &*e && &v[i] == &*e && &cv[i] == &*e, "element-address", "vec element %zu of %zu", i, n);
      VH_CHECK(*e == buf.p[i] && *g == buf.p[i] && bx[i] == buf.p[i], "element-value", "element %zu of %zu", i, n);
    }
  }
  auto f = sp.first(), l = sp.last(); auto vf = v.first(), vl = v.last();
  VH_CHECK(f.has_value() == (n > 0) && l.has_value() == (n > 0) && vf.has_value() == (n > 0) && vl.has_value() == (n > 0), "first-last", "first/last of %zu", n);
  if (n && f && l) VH_CHECK(&*f == buf.p && &*l == buf.p + n - 1 && *vl == buf.p[n - 1] && *vf == buf.p[0], "first-last", "first/last of %zu wrong element", n);
  auto fixed = [&]<size_t m>(best::index_t<m>) {
    auto a = sp.template first<m>(); auto b = sp.template last<m>(); auto sf = sp.template split_first<m>(); auto sl = sp.template split_last<m>();
    bool w = m <= n; c.eval(4); c.event(w ? "prefix_in" : "prefix_out");
    VH_CHECK(a.has_value() == w && b.has_value() == w && sf.has_value() == w && sl.has_value() == w, "fixed-prefix", "first/last/split<%zu> of %zu", m, n);
    if (w && a && b && sf && sl) {
      VH_CHECK(a->data().raw() == buf.p && b->data().raw() == buf.p + n - m && a->size() == m && b->size() == m, "fixed-prefix", "first/last<%zu> of %zu", m, n);
      auto [p, q] = *sf; VH_CHECK(p.data().raw() == buf.p && p.size() == m && q.data().raw() == buf.p + m && q.size() == n - m, "fixed-split", "split_first<%zu> of %zu", m, n);
      auto [x, y] = *sl; VH_CHECK(x.data().raw() == buf.p + n - m && x.size() == m && y.data() == buf.p && y.size() == n - m, "fixed-split", "split_last<%zu> of %zu", m, n);
    }
  };
  fixed(best::index<0>); fixed(best::index<1>); fixed(best::index<2>); fixed(best::index<3>); fixed(best::index<7>); fixed(best::index<40>);
  { auto a = sp.split_first(); auto b = sp.split_last(); VH_CHECK(a.has_value() == (n > 0) && b.has_value() == (n > 0), "split-first-last", "split_first/last of %zu", n);
    if (n && a && b) { auto& [x, xs] = *a; auto& [y, ys] = *b; VH_CHECK(&x == buf.p && xs.data().raw() == buf.p + 1 && xs.size() == n - 1 && &y == buf.p + n - 1 && ys.data().raw() == buf.p && ys.size() == n - 1, "split-first-last", "split_first/last of %zu", n); } }
  for (int r = 0; r < 6; r++) {
    size_t m = small_or_edge(c.rng, n);
    auto s1 = sp, s2 = sp; auto a = s1.take_first(m); auto b = s2.take_last(m); auto sa = sp.split_at(m);
    bool w = m <= n; c.eval(3); c.event(w ? "take_in" : "take_out");
    VH_CHECK(a.has_value() == w && b.has_value() == w && sa.has_value() == w, "take", "take_first/last/split_at(%zu) of %zu", m, n);
    if (w && a && b && sa) {
      VH_CHECK(a->data().raw() == buf.p && a->size() == m && s1.data().raw() == buf.p + m && s1.size() == n - m, "take", "take_first(%zu) of %zu", m, n);
      VH_CHECK(b->data().raw() == buf.p + (n - m) && b->size() == m && s2.data().raw() == buf.p && s2.size() == n - m, "take", "take_last(%zu) of %zu", m, n);
      auto [p, q] = *sa; VH_CHECK(p.data().raw() == buf.p && p.size() == m && q.data().raw() == buf.p + m && q.size() == n - m, "split_at", "split_at(%zu) of %zu", m, n);
    } else if (!w) VH_CHECK(s1.size() == n && s2.size() == n && s1.data() == sp.data() && s2.data() == sp.data(), "take", "failed take changed the span");
    B b2 = rand_bounds(c.rng, n); c.state(hcomb(hb(b2, n), sizeof(T)));
    check_at(c, "span", b2, buf.p, n, sizeof(T), sp.at(to_best(b2)));
    check_at(c, "const span", b2, buf.p, n, sizeof(T), csp.at(to_best(b2)));
    check_at(c, "vec", b2, v.data().raw(), n, sizeof(T), v.as_span().at(to_best(b2)));
    if (expect_count(b2, n)) { auto u = v[to_best(b2)]; auto w2 = cv[to_best(b2)]; VH_CHECK(u.size() == *expect_count(b2, n) && w2.size() == u.size() && (n == 0 || u.data().raw() == (T*)v.data().raw() + b2.start), "vec-range", "vec[%s] of %zu", str(b2).c_str(), n); }
  }
  if (n == 7) {
    best::span<T, 7> st(buf.p, 7); c.event("static_span");
    VH_CHECK(&st[best::index<6>] == buf.p + 6 && &st[3] == buf.p + 3 && !st.at(7) && !st.at({.start = 3, .end = 8}) && st.at({.start = 3, .end = 7})->size() == 4 && st.size() == 7, "static-span", "fixed-size span access");
    auto sub = st[best::vals<best::bounds{.start = 2, .count = 3}>]; VH_CHECK(sub.size() == 3 && sub.data().raw() == buf.p + 2, "static-span", "fixed-size slice");
    VH_CHECK(!st.first(best::index<8>) && st.template first<7>() && !st.template split_last<8>() && st.template split_last<7>(), "static-span", "first<m> on fixed-size span");
  }
}
VH_WORKLOAD(elements, 4000, 100000) {
  switch (c.rng.below(5)) { case 0: elems<u8>(c); break; case 1: elems<u16>(c); break; case 2: elems<Tri>(c); break; case 3: elems<u64>(c); break; default: elems<Cls>(c); }
}

// Strings: in range and on rune boundaries, by an independent boundary table.
template <class Enc, class Code, class F> static void strings(Ctx& c, const char* en, F&& put) {
  std::vector<Code> codes; std::vector<bool> bnd;
  size_t k = c.rng.below(9);
  for (size_t i = 0; i < k; i++) { static const char32_t rs[] = {U'a', U'z', 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}; char32_t r = c.rng.pick(rs); size_t at = codes.size(); put(codes, r); bnd.resize(codes.size(), false); bnd[at] = true; }
  bnd.push_back(true);
  size_t n = codes.size();
  std::unique_ptr<Code[]> exact(new Code[n + (n == 0)]); std::copy(codes.begin(), codes.end(), exact.get());
  best::span<const Code> sp(exact.get(), n);
  auto t = best::text<Enc>::from(best::pretext<Enc>(sp, Enc{}));
  if (!t) { VH_FAIL("valid-text-rejected", "%s text of %zu units rejected", en, n); return; }
  best::textbuf<Enc> tb(*t);
  VH_CHECK(t->size() == n && tb.size() == n, "size", "text size %zu vs %zu", t->size(), n);
  for (size_t i = 0; i < n + 3; i++) VH_CHECK(t->is_rune_boundary(i) == (i <= n && bnd[i]), "rune-boundary", "%s boundary at %zu of %zu is %d", en, i, n, t->is_rune_boundary(i));
  for (int r = 0; r < 12; r++) {
    B b = rand_bounds(c.rng, n); auto want = expect_count(b, n);
    c.state(hcomb(hb(b, n), hbytes(codes.data(), n * sizeof(Code))));
    // Unchecked text (pretext): bounds only.
    auto pre = best::pretext<Enc>(sp, Enc{}).at(to_best(b));
    VH_CHECK(pre.has_value() == want.has_value() && (!want || pre->size() == *want), "pretext-at", "%s pretext.at(%s) of %zu", en, str(b).c_str(), n);
    bool ok = want && bnd[b.start] && bnd[b.start + *want];
    if (want && !ok) c.event("mid_character");
    auto got = t->at(to_best(b)); auto got2 = tb.at(to_best(b)); c.eval(3); c.event("text_at");
    VH_CHECK(got.has_value() == ok && got2.has_value() == ok, "text-at", "%s text.at(%s) of %zu: %d/%d, expected %d", en, str(b).c_str(), n, got.has_value(), got2.has_value(), ok);
    if (ok && got && got2) {
      VH_CHECK(got->size() == *want && (n == 0 || got->data() == exact.get() + b.start), "text-at", "%s text.at(%s) is the wrong piece", en, str(b).c_str());
      auto x = (*t)[to_best(b)]; auto y = tb[to_best(b)];
      VH_CHECK(x.size() == *want && y.size() == *want && (*want == 0 || memcmp(y.data(), exact.get() + b.start, *want * sizeof(Code)) == 0), "text-subscript", "%s text[%s]", en, str(b).c_str());
    }
    if (!ok && c.rng.chance(1, 40)) { if (c.rng.flip()) VH_MUST_CRASH("text-oob", fmt("%s text[%s] of %zu", en, str(b).c_str(), n), (void)(*t)[to_best(b)]); else VH_MUST_CRASH("text-oob", fmt("%s textbuf[%s] of %zu", en, str(b).c_str(), n), (void)tb[to_best(b)]); }
    size_t m = small_or_edge(c.rng, n); auto sa = t->split_at(m); bool sok = m <= n && bnd[m];
    VH_CHECK(sa.has_value() == sok, "text-split_at", "%s split_at(%zu) of %zu", en, m, n);
    if (sok && sa) VH_CHECK(sa->first().size() == m && sa->second().size() == n - m && (n == 0 || sa->second().data() == exact.get() + m), "text-split_at", "%s split_at(%zu) of %zu wrong pieces", en, m, n);
  }
}
VH_WORKLOAD(strings_, 3000, 60000) {
  switch (c.rng.below(4)) {
    case 0: strings<best::utf8, char>(c, "utf8", [](std::vector<char>& v, char32_t r) { if (r < 0x80) v.push_back(r); else if (r < 0x800) { v.push_back(0xc0 | r >> 6); v.push_back(0x80 | (r & 63)); } else if (r < 0x10000) { v.push_back(0xe0 | r >> 12); v.push_back(0x80 | (r >> 6 & 63)); v.push_back(0x80 | (r & 63)); } else { v.push_back(0xf0 | r >> 18); v.push_back(0x80 | (r >> 12 & 63)); v.push_back(0x80 | (r >> 6 & 63)); v.push_back(0x80 | (r & 63)); } }); break;
    case 1: strings<best::utf16, char16_t>(c, "utf16", [](std::vector<char16_t>& v, char32_t r) { if (r < 0x10000) v.push_back(r); else { r -= 0x10000; v.push_back(0xd800 + (r >> 10)); v.push_back(0xdc00 + (r & 0x3ff)); } }); break;
    case 2: strings<best::utf32, char32_t>(c, "utf32", [](std::vector<char32_t>& v, char32_t r) { v.push_back(r); }); break;
    default: strings<best::ascii, char>(c, "ascii", [](std::vector<char>& v, char32_t r) { v.push_back(r & 0x7f); }); break;
  }
}

// The crashing accessors, in forked children.
VH_WORKLOAD(crashing, 700, 8000) {
  size_t n = c.rng.below(8);
  B b; do b = rand_bounds(c.rng, n); while (expect_count(b, n));
  size_t i = c.rng.flip() ? n + c.rng.below(3) : c.rng.pick(kEdges);
  c.state(hcomb(hb(b, n), i));
  Buf<u32> buf(n); best::span<u32> sp(buf.p, n);
  best::vec<u32> v; for (size_t k = 0; k < n; k++) v.push(buf.p[k]);
  const char* msg = "bounds-check failed";
  auto die = [&](const char* key, const std::string& what, const std::function<void()>& f) { must_crash(c, key, __FILE__, __LINE__, what, f, msg); };
  switch (c.idx % 10) {
    case 0: die("span-range-oob", fmt("span[%s] of %zu", str(b).c_str(), n), [&] { volatile size_t s = sp[to_best(b)].size(); (void)s; }); break;
    case 1: die("vec-range-oob", fmt("vec[%s] of %zu", str(b).c_str(), n), [&] { volatile size_t s = v[to_best(b)].size(); (void)s; }); break;
    case 2: die("span-index-oob", fmt("span[%zu] of %zu", i, n), [&] { volatile auto p = &sp[i]; (void)p; }); break;
    case 3: die("vec-index-oob", fmt("vec[%zu] of %zu", i, n), [&] { volatile auto p = &v[i]; (void)p; }); break;
    case 4: die("compute_count-oob", fmt("compute_count(%s) of %zu", str(b).c_str(), n), [&] { volatile size_t s = to_best(b).compute_count(n); (void)s; }); break;
    case 5: die("box-index-oob", fmt("box[%zu] of %zu", i, n), [&] { auto bx = best::box<u32[]>(sp); volatile auto p = &bx[i]; (void)p; }); break;
    case 6: die("swap-oob", fmt("swap(0, %zu) of %zu", i, n), [&] { if (c.rng.flip()) sp.swap(i, 0); else sp.swap(0, i); }); break;
    case 7: { msg = nullptr; size_t w = n == 5 ? 6 : n; die("static-span-length", fmt("fixed-size span<5> from %zu elements", w), [&] { best::span<u32, 5> s(buf.p, w); volatile size_t k = s.size(); (void)k; }); break; }
    case 8: { best::bounds::with_location l = to_best(b); die("span-range-oob", fmt("const vec[%s]", str(b).c_str()), [&] { const auto& cv = v; volatile size_t s = cv[l].size(); (void)s; }); break; }
    case 9: { die("vec-index-oob", fmt("vec[%zu] const of %zu", i, n), [&] { const auto& cv = v; volatile auto p = &cv[i]; (void)p; }); break; }
  }
}
