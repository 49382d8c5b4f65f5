// C15: string queries. Texts of every encoding over exact-size blocks, queried with needles of every encoding, runes and
// predicates; the oracle answers each query on the two rune sequences and converts rune positions to code-unit positions.
#include "text.h"
#include "best/container/vec.h"
#include <memory>
#include <optional>
using namespace vh; using tx::Runes; using tx::Txt; using best::text; using best::pretext;

namespace {
using Pos = std::optional<size_t>;
bool at(const Runes& h, size_t i, const Runes& n) { return i + n.size() <= h.size() && std::equal(n.begin(), n.end(), h.begin() + i); }
Pos first(const Runes& h, size_t lo, size_t hi, const Runes& n) { for (size_t i = lo; i + n.size() <= hi; i++) if (at(h, i, n)) return i; return {}; }
Pos last(const Runes& h, size_t lo, size_t hi, const Runes& n) { for (size_t i = hi; i >= lo + n.size(); i--) if (at(h, i - n.size(), n)) return i - n.size(); return {}; }
using Match = std::function<bool(u32)>;
Pos first(const Runes& h, size_t lo, size_t hi, const Match& m) { for (size_t i = lo; i < hi; i++) if (m(h[i])) return i; return {}; }
Pos last(const Runes& h, size_t lo, size_t hi, const Match& m) { for (size_t i = hi; i > lo; i--) if (m(h[i - 1])) return i - 1; return {}; }
int sgn(best::ord o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 9; }
int lex(const Runes& a, const Runes& b) { return a < b ? -1 : b < a ? 1 : 0; }

template <class E> struct Q {  // queries of one haystack
  Ctx& c; const Txt<E>& h; std::string what;
  void pos(const best::option<size_t>& got, Pos want, const char* op) { c.eval(); Pos w = want ? Pos(h.off[*want]) : Pos(); Pos g = got ? Pos(*got) : Pos(); VH_CHECK(g == w, op, "%s of %s in %s gave %zd, not %zd", op, what.c_str(), (tx::ename<E>() + tx::show(h.r)).c_str(), g ? (ssize_t)*g : -1, w ? (ssize_t)*w : -1); }
  template <class T> bool is(const T& t, size_t a, size_t b) { return t.data() == h.p + h.off[a] && t.size() == h.off[b] - h.off[a]; }
  template <class T> void piece(const T& t, size_t a, size_t b, const char* op) { c.eval(); bool good = is(t, a, b) || (a == b && t.size() == 0); VH_CHECK(good && t.enc() == h.e, op, "%s of %s in %s gave units %zd+%zu, not %zu+%zu", op, what.c_str(), (tx::ename<E>() + tx::show(h.r)).c_str(), t.data() - h.p, (size_t)t.size(), h.off[a], h.off[b] - h.off[a]); }
  template <class T> void opt(const best::option<T>& t, bool some, size_t a, size_t b, const char* op) { VH_CHECK(t.has_value() == some, op, "%s of %s in %s is %d", op, what.c_str(), (tx::ename<E>() + tx::show(h.r)).c_str(), t.has_value()); if (t && some) piece(*t, a, b, op); }
  template <class R> void two(const best::option<R>& r, Pos at, size_t len, const char* op) { VH_CHECK(r.has_value() == at.has_value(), op, "%s of %s in %s is %d", op, what.c_str(), (tx::ename<E>() + tx::show(h.r)).c_str(), r.has_value()); if (r && at) { piece(r->first(), 0, *at, op); piece(r->second(), *at + len, h.r.size(), op); } }
  void flag(bool got, bool want, const char* op) { c.eval(); VH_CHECK(got == want, op, "%s of %s in %s is %d", op, what.c_str(), (tx::ename<E>() + tx::show(h.r)).c_str(), got); }
  // All the queries taking a pattern; `pat` is passed to the library, `key` (runes or predicate) to the model, len = its length in runes.
  template <class T, class P, class K> void pattern(T t, const P& pat, const K& key, size_t len) {
    size_t N = h.r.size(); Pos f = first(h.r, 0, N, key), l = last(h.r, 0, N, key); bool pre = N >= len && f == 0, suf = N >= len && l && *l + len == N; if (len == 0) { pre = suf = true; }
    pos(t.find(pat), f, "find"); flag(t.contains(pat), f.has_value(), "contains"); flag(t.starts_with(pat), pre, "starts_with"); flag(t.ends_with(pat), suf, "ends_with"); opt(t.strip_prefix(pat), pre, len, N, "strip_prefix"); opt(t.strip_suffix(pat), suf, 0, N - len, "strip_suffix");
    T u = t; flag(u.consume_prefix(pat), pre, "consume_prefix"); if (pre) piece(u, len, N, "consume_prefix"); else piece(u, 0, N, "consume_prefix"); u = t; flag(u.consume_suffix(pat), suf, "consume_suffix"); if (suf) piece(u, 0, N - len, "consume_suffix"); else piece(u, 0, N, "consume_suffix");
    c.event(f ? "hits" : "misses"); if (pre) c.event("prefixes"); if (suf) c.event("suffixes"); if (len == 0) return;
    pos(t.rfind(pat), l, "rfind"); two(t.split_once(pat), f, len, "split_once"); two(t.rsplit_once(pat), l, len, "rsplit_once");
    for (int mode = 0; mode < 3; mode++) { auto it = t.split(pat); size_t lo = 0, hi = N; bool done = false; const char* op = mode == 0 ? "split" : mode == 1 ? "split-back" : "split-mixed"; for (size_t k = 0; k <= N + 1 && !done; k++) { bool back = mode == 1 || (mode == 2 && c.rng.flip()); size_t left = 1; { size_t q = lo; while (Pos x = first(h.r, q, hi, key)) { left++; q = *x + len; } } auto sh = it.size_hint(); VH_CHECK(sh.lower <= left && (!sh.upper || *sh.upper >= left), "split-size-hint", "split size hint excludes %zu pieces", left);
        if constexpr (requires { it->rest(); }) piece(it->rest(), lo, hi, "split-rest");
        auto got = back ? it.next_back() : it.next(); if (!got) { VH_FAIL(op, "%s of %s in %s ended early", op, what.c_str(), tx::show(h.r).c_str()); break; } Pos x = back ? last(h.r, lo, hi, key) : first(h.r, lo, hi, key); if (!x) { piece(*got, lo, hi, op); done = true; lo = hi; } else if (back) { piece(*got, *x + len, hi, op); hi = *x; } else { piece(*got, lo, *x, op); lo = *x + len; } c.event("split_pieces"); }
      if (done) { VH_CHECK(!it.next() && !it.next_back() && !it.next(), op, "%s of %s in %s yields more after its end", op, what.c_str(), tx::show(h.r).c_str()); } }
  }
};
template <class E, class P> void preds(Ctx& c, const Txt<E>& h, P t) {
  auto set = std::make_shared<Runes>(); for (size_t i = 1 + c.rng.below(2); i--;) set->push_back(h.r.empty() || c.rng.chance(1, 4) ? 'z' : c.rng.pickv(h.r)); auto pred = [set, big = std::string(64, 'x')](best::rune r) { if (big.size() != 64) abort(); return std::find(set->begin(), set->end(), r.to_int()) != set->end(); }; Match m = [&](u32 r) { return std::find(set->begin(), set->end(), r) != set->end(); };
  Q<E> q{c, h, "a predicate"}; q.pattern(t, pred, m, 1); { auto it = t.split([s = std::string(80, 'y'), pred](best::rune r) { return s.size() == 80 && pred(r); }); char mess[256]; memset(mess, 0x5a, sizeof mess); asm volatile("" ::"r"(mess) : "memory"); size_t lo = 0, N = h.r.size(); while (auto x = it.next()) { Pos f = first(h.r, lo, N, m); q.piece(*x, lo, f ? *f : N, "split-temporary"); if (!f) break; lo = *f + 1; } } c.event("predicates"); { auto p2 = pred; (void)t.split(p2); VH_CHECK(p2(best::rune('q')) == m('q'), "predicate-consumed", "split() changed the caller's predicate"); }
  Match punct = [](u32 r) { return r < 128 && ispunct((int)r); }; q.what = "punctuation"; q.pattern(t, &best::rune::is_ascii_punct, punct, 1);
}
// What can be asked of one string alone.
template <class E> void alone(Ctx& c, const Txt<E>& h) {
  size_t N = h.r.size(); auto t = h.text(); Q<E> q{c, h, "-"}; auto self = [&](auto t) {
    q.flag(t.is_empty(), N == 0, "is_empty"); q.flag(t.size() == h.n && t.data() == h.p && t.as_codes().size() == h.n, true, "size");
    for (int mode = 0; mode < 3; mode++) { auto it = t.runes(); auto ix = t.rune_indices(); size_t lo = 0, hi = N; while (true) { bool back = mode == 1 || (mode == 2 && c.rng.flip()); auto sh = it.size_hint(), sh2 = ix.size_hint(); VH_CHECK(sh.lower <= hi - lo && (!sh.upper || *sh.upper >= hi - lo) && sh2.lower <= hi - lo && (!sh2.upper || *sh2.upper >= hi - lo), "runes-size-hint", "%zu left of %s", hi - lo, tx::show(h.r).c_str()); q.piece(it->rest(), lo, hi, "runes-rest"); q.piece(ix->rest(), lo, hi, "indices-rest");
        auto r = back ? it.next_back() : it.next(); auto i = back ? ix.next_back() : ix.next(); if (lo == hi) { VH_CHECK(!r && !i, "runes-end", "runes of %s do not end", tx::show(h.r).c_str()); break; } size_t k = back ? --hi : lo++; VH_CHECK(r && r->to_int() == h.r[k], "runes", "rune %zu of %s", k, tx::show(h.r).c_str()); VH_CHECK(i && i->first() == h.off[k] && i->second().to_int() == h.r[k], "rune_indices", "rune %zu of %s is at %zu, not %zu", k, tx::show(h.r).c_str(), i ? (size_t)i->first() : 0, h.off[k]); c.event("runes_iterated"); if (!r || !i) break; } }
    VH_CHECK(t.runes().count() == N, "runes-count", "%s", tx::show(h.r).c_str()); auto cp = t; cp = t; q.piece(cp, 0, N, "copy"); VH_CHECK(cp == t && sgn(cp <=> t) == 0, "compare-self", "%s", tx::show(h.r).c_str()); }; self(t); self(h.pre());
  std::vector<bool> b(h.n + 1); for (size_t o : h.off) b[o] = true; for (size_t i = 0; i <= h.n + 2; i++) { bool ok = i <= h.n && b[i]; q.flag(t.is_rune_boundary(i), ok, "is_rune_boundary"); auto s = t.split_at(i); VH_CHECK(s.has_value() == ok, "split_at", "split_at(%zu) of %s", i, tx::show(h.r).c_str()); if (s && ok) { size_t k = std::find(h.off.begin(), h.off.end(), i) - h.off.begin(); q.piece(s->first(), 0, k, "split_at"); q.piece(s->second(), k, N, "split_at"); } auto s2 = h.pre().split_at(i); VH_CHECK(s2.has_value() == (i <= h.n), "pretext-split_at", "split_at(%zu) of %s", i, tx::show(h.r).c_str()); if (s2 && i <= h.n) VH_CHECK(s2->first().size() == i && s2->second().size() == h.n - i && s2->second().data() == h.p + i, "pretext-split_at", "%zu", i); c.event("split_ats"); }
  size_t a = c.rng.below(N + 1), z = a + c.rng.below(N + 1 - a); q.piece(t[{.start = h.off[a], .end = h.off[z]}], a, z, "slice"); q.opt(t.at({.start = h.off[a], .end = h.off[z]}), true, a, z, "at");
  auto f = text<E>::from(h.pre()); q.opt(f, true, 0, N, "from"); auto fp = text<E>::from_partial(h.pre()); q.piece(fp.first(), 0, N, "from_partial"); VH_CHECK(fp.second().size() == 0, "from_partial", "%s", tx::show(h.r).c_str()); if (std::is_same_v<E, tx::keyed> == false && std::find(h.r.begin(), h.r.end(), 0) == h.r.end()) { std::vector<typename E::code> z(h.p, h.p + h.n); z.push_back(0); auto nul = text<E>::from_nul(z.data()); VH_CHECK(nul && nul->size() == h.n && nul->data() == z.data(), "from_nul", "%s", tx::show(h.r).c_str()); auto pn = pretext<E>::from_nul(z.data()); VH_CHECK(pn.size() == h.n, "from_nul", "%s", tx::show(h.r).c_str()); VH_CHECK(t == z.data() && sgn(t <=> z.data()) == 0 && h.pre() == z.data(), "compare-literal", "%s", tx::show(h.r).c_str()); }
  VH_CHECK(t == h.span() && sgn(t <=> h.span()) == 0 && h.pre() == h.span(), "compare-codes", "%s", tx::show(h.r).c_str()); if (N) { VH_CHECK(!(t == best::span<const typename E::code>(h.p, h.n - 1)) && sgn(t <=> best::span<const typename E::code>(h.p, h.n - 1)) == 1, "compare-codes", "%s", tx::show(h.r).c_str()); }
  text<E> em(h.e); VH_CHECK(em.is_empty() && (em == t) == (N == 0) && sgn(em <=> t) == (N ? -1 : 0) && em.data() != nullptr, "empty", "%s", tx::show(h.r).c_str());
}
u32 letter(Rng& g, int a) { static const u32 A[][5] = {{'a', 'b', 'a', 'b', 'a'}, {'a', 'b', ',', 'z', 'a'}, {'a', 0xe9, 0xe8, 'b', 0xff}, {'a', 0x4e00, 0x4e01, 0xe9, 'a'}, {0x1f600, 0x1f601, 0x1f200, 'a', 0x1f600}, {0xffff, 0x10000, 0xe000, 0xd7ff, 0x10ffff}, {0x7f, 0x80, 0x7ff, 0x800, 0xc3}, {0, 'a', 0xa9, 0xc3, 0xe9}, {0xd800, 0xdc00, 'a', 0x10000, 0xdfff}}; return A[a][g.below(5)]; }
template <class E> Runes gen(Rng& g, int a, size_t max) { Runes r; for (size_t i = g.len(max); i--;) { u32 x = letter(g, a); if (!tx::can<E>(x)) x = 'a' + x % 2; r.push_back(x); } return r; }
template <class E> void against_runes(Ctx& c, const Txt<E>& h, int a) {
  for (int i = 0; i < 3; i++) { u32 r = i == 0 && !h.r.empty() ? c.rng.pickv(h.r) : letter(c.rng, a); Q<E> q{c, h, tx::show({r})}; q.pattern(h.text(), tx::rune(r), Runes{r}, 1); q.pattern(h.pre(), tx::rune(r), Runes{r}, 1); best::rune x = tx::rune(r); auto t = h.text(); auto p = h.pre(); bool eq = h.r == Runes{r}; int o = lex(h.r, {r});
    VH_CHECK((t == x) == eq && (p == x) == eq && (t != x) == !eq, "compare-rune", "%s with U+%04X", tx::show(h.r).c_str(), r); VH_CHECK(sgn(t <=> x) == o && sgn(p <=> x) == o && (t < x) == (o < 0) && (t >= x) == (o >= 0), "order-rune", "%s with U+%04X: %d, not %d", tx::show(h.r).c_str(), r, sgn(t <=> x), o); c.event("rune_patterns"); if (!tx::can<E>(r)) c.event("unencodable_runes"); }
}
template <class E, class F> void pair(Ctx& c, const Txt<E>& h, int a) {
  Runes n; switch (c.rng.below(6)) { case 0: n = gen<F>(c.rng, a, 4); break; case 5: n = h.r; if (c.rng.flip()) n.push_back(letter(c.rng, a)); break; default: if (!h.r.empty()) { size_t s = c.rng.below(h.r.size()), k = c.rng.below(std::min<size_t>(h.r.size() - s, 8)) + 1; n = Runes(h.r.begin() + s, h.r.begin() + s + k); if (c.rng.chance(1, 5)) n[c.rng.below(n.size())] = letter(c.rng, a); if (c.rng.chance(1, 6)) n.push_back(letter(c.rng, a)); } } if (c.rng.chance(1, 8)) n = h.r; for (auto& x : n) if (!tx::can<F>(x)) x = 'a' + x % 2;
  Txt<F> m(n, c.rng.below(2)); Q<E> q{c, h, tx::ename<F>() + tx::show(n)}; q.pattern(h.text(), m.text(), n, n.size()); q.pattern(h.pre(), m.pre(), n, n.size()); q.pattern(h.text(), m.pre(), n, n.size()); q.pattern(h.pre(), m.text(), n, n.size());
  auto cmp = [&](auto x, auto y) { int o = lex(h.r, n); bool eq = o == 0; c.eval(); VH_CHECK((x == y) == eq && (x != y) == !eq && (y == x) == eq, "compare", "%s%s == %s%s: %d", tx::ename<E>(), tx::show(h.r).c_str(), tx::ename<F>(), tx::show(n).c_str(), x == y); VH_CHECK(sgn(x <=> y) == o && sgn(y <=> x) == -o && (x < y) == (o < 0) && (x <= y) == (o <= 0) && (x > y) == (o > 0) && (x >= y) == (o >= 0), "order", "%s%s <=> %s%s: %d, not %d", tx::ename<E>(), tx::show(h.r).c_str(), tx::ename<F>(), tx::show(n).c_str(), sgn(x <=> y), o); c.event(eq ? "equal_pairs" : "ordered_pairs"); };
  cmp(h.text(), m.text()); cmp(h.pre(), m.pre()); cmp(h.text(), m.pre()); cmp(h.pre(), m.text()); c.event("cross_pairs", !std::is_same_v<E, F>); c.state(hcomb(hcomb(tx::hash(h.r), tx::hash(n)), hstr(q.what)));
}
// Not-quite-valid input: every invalid unit reads as one replacement character, from either end.
template <class E> void damaged(Ctx& c, int a) {
  using C = typename E::code; Runes r = gen<E>(c.rng, a, 10); auto v = tx::encn<E>(r, tx::make_enc<E>(0)); for (size_t k = 1 + c.rng.below(3); k-- && !v.empty();) { size_t i = c.rng.below(v.size()); switch (c.rng.below(4)) { case 0: v.erase(v.begin() + i); break; case 1: v[i] = (C)c.rng.next(); break; case 2: v[i] ^= (C)(1u << c.rng.below(8)); break; default: v.insert(v.begin() + i, (C)(sizeof(C) == 2 ? 0xd800 + c.rng.below(0x800) : 0x80 + c.rng.below(0x80))); } }
  size_t n = v.size(); C* p = (C*)malloc(n * sizeof(C) + !n); if (n) memcpy(p, v.data(), n * sizeof(C)); struct W { u32 r; size_t at, len; bool ok; }; std::vector<W> w; size_t good = 0; bool bad = false; E e = tx::make_enc<E>(0);
  for (size_t i = 0; i < n;) { W x{0xfffd, i, 1, false}; for (size_t k = 1; k <= 4 && i + k <= n; k++) { u32 got = 0; bool ok = false; best::span<const C> s{p + i, k}; (void)s; // an independent decode: try every rune length
        if constexpr (sizeof(C) == 1) { u8 l = v[i]; if (std::is_same_v<E, best::ascii> || std::is_same_v<E, best::latin1>) { got = l; ok = k == 1 && tx::can<E>(l); } else { static const u8 m[] = {0, 0x7f, 0x1f, 0x0f, 0x07}; got = l & m[k]; for (size_t j = 1; j < k; j++) got = got * 64 + ((u8)v[i + j] & 63); auto b = got < 0x110000 ? tx::enc1<E>(got, e) : std::vector<C>{}; ok = b.size() == k && tx::can<E>(got) && !memcmp(b.data(), p + i, k); } }
        else if constexpr (sizeof(C) == 2) { if (k == 1) { got = v[i]; ok = !tx::surr(got); } else if (k == 2) { got = 0x10000 + ((v[i] & 0x3ff) << 10) + (v[i + 1] & 0x3ff); ok = v[i] >= 0xd800 && v[i] < 0xdc00 && v[i + 1] >= 0xdc00 && v[i + 1] < 0xe000; } }
        else { got = v[i]; if constexpr (std::is_same_v<E, tx::keyed>) got ^= e.key; ok = k == 1 && tx::can<E>(got); }
        if (ok) { x = {got, i, k, true}; break; } } if (!x.ok) bad = true; if (!bad) good = i + x.len; w.push_back(x); i += x.len; }
  pretext<E> t(best::span<const C>(p, n), e); auto rs = t.runes(); auto tr = t.try_runes(); auto ix = t.rune_indices(); size_t lo = 0, hi = w.size(); while (lo < hi) { bool back = c.rng.flip(); auto& x = back ? w[--hi] : w[lo++]; auto a = back ? rs.next_back() : rs.next(); auto b = back ? tr.next_back() : tr.next(); auto d = back ? ix.next_back() : ix.next(); VH_CHECK(a && a->to_int() == x.r, "lossy-runes", "%s: unit %zu of %zu reads U+%04X, not U+%04X", tx::ename<E>(), x.at, n, a ? a->to_int() : 0, x.r); VH_CHECK(b && b->ok().has_value() == x.ok && (!x.ok || b->ok()->to_int() == x.r), "try-runes", "%s: unit %zu of %zu", tx::ename<E>(), x.at, n); VH_CHECK(d && d->first() == x.at && d->second().to_int() == x.r, "lossy-indices", "%s: unit %zu of %zu", tx::ename<E>(), x.at, n); if (!a || !b || !d) break; c.event("lossy_runes"); } VH_CHECK(!rs.next() && !tr.next() && !ix.next(), "lossy-end", "%s", tx::ename<E>());
  auto f = text<E>::from(t); VH_CHECK(f.has_value() == !bad, "from", "%s: from() %s %zu units", tx::ename<E>(), f ? "accepts" : "rejects", n); auto fp = text<E>::from_partial(t); VH_CHECK(fp.first().size() == good && fp.first().data() == p && fp.second().size() == n - good && fp.second().data() == p + good, "from_partial", "%s: valid prefix of %zu, not %zu", tx::ename<E>(), (size_t)fp.first().size(), good); c.event(bad ? "damaged_inputs" : "undamaged_inputs"); c.eval(); free(p);
}
template <class E> void all(Ctx& c) {
  int a = c.rng.below(9); Runes r = gen<E>(c.rng, a, 14); if (c.rng.chance(1, 10)) r = gen<E>(c.rng, 0, 60); Txt<E> h(r, c.rng.below(2)); alone(c, h); against_runes(c, h, a); if (c.rng.flip()) preds(c, h, h.text()); else preds(c, h, h.pre());
  pair<E, best::utf8>(c, h, a); pair<E, best::utf16>(c, h, a); pair<E, best::utf32>(c, h, a); pair<E, best::wtf8>(c, h, a); pair<E, best::ascii>(c, h, a); pair<E, best::latin1>(c, h, a); pair<E, tx::keyed>(c, h, a); damaged<E>(c, a);
}
}  // namespace
#ifdef PART_A
VH_WORKLOAD(utf8, 1500, 30000) { all<best::utf8>(c); }
#elif defined PART_B
VH_WORKLOAD(utf16, 1500, 30000) { all<best::utf16>(c); }
#elif defined PART_C
VH_WORKLOAD(utf32, 600, 10000) { all<best::utf32>(c); }
#elif defined PART_D
VH_WORKLOAD(wtf8, 900, 20000) { all<best::wtf8>(c); }
#elif defined PART_E
VH_WORKLOAD(ascii, 600, 10000) { all<best::ascii>(c); }
#elif defined PART_F
VH_WORKLOAD(latin1, 900, 10000) { all<best::latin1>(c); }
#else
VH_WORKLOAD(keyed, 900, 10000) { all<tx::keyed>(c); }
// Literals and other string types.
VH_WORKLOAD(literals, 4, 8) {
  best::str s = "a,b,,c\xc3\xa9"; VH_CHECK(s == "a,b,,c\xc3\xa9" && s == u"a,b,,cé" && s == U"a,b,,cé" && s == std::string("a,b,,c\xc3\xa9") && s != "a,b" && s.find(",") == 1 && s.rfind(u",") == 4 && s.find(U"é") == 6 && s.split(u",").count() == 4, "literals", "literals"); best::str16 t = u"a,b,,cé"; VH_CHECK(s == t && t == s && t.split(",").count() == 4 && t.rfind("é") == 6 && t.starts_with("a,") && t.ends_with("cé"), "literals", "utf16 literals"); VH_CHECK(best::str::from_nul(nullptr)->is_empty(), "from_nul", "null"); c.state(c.idx); c.event("literals"); c.eval(20);
}
#endif
