// C16: owned strings. Seeded histories of edits over three strings of one encoding with a monitoring allocator, compared
// after every step with an ideal rune sequence encoded by the harness.
#include "text.h"
#include "monalloc.h"
#include "best/text/strbuf.h"
#include <algorithm>
using namespace vh; using tx::Runes; using tx::Txt; using best::text; using best::pretext;

namespace {
template <class E> struct Slot {
  using B = best::textbuf<E, ma::Mon>; using C = typename E::code;
  std::optional<B> b; Runes m; E e;
};
template <class E> struct H {
  using B = best::textbuf<E, ma::Mon>; using C = typename E::code; Ctx& c; Slot<E> s[3]; std::string log;
  void verify(Slot<E>& x, const char* op) {
    B& b = *x.b; const B& k = b; auto want = tx::encn(x.m, x.e); c.eval();
    bool same = k.size() == want.size() && (want.empty() || !memcmp(k.data(), want.data(), want.size() * sizeof(C)));
    VH_CHECK(same, op, "after %s the string is %zu units, not the %zu units of %s (or they differ)%s", op, k.size(), want.size(), tx::show(x.m).c_str(), log.c_str());
    VH_CHECK(k.data() != nullptr && b.data() == k.data() && k.is_empty() == want.empty() && k.capacity() >= k.size() && k.enc() == x.e, "accessors", "after %s of %s", op, tx::show(x.m).c_str());
    VH_CHECK(best::rune::validate(best::span<const C>(k.data(), k.size()), x.e), "valid", "after %s the string is not validly encoded: %s", op, tx::show(x.m).c_str());
    text<E> t = k.as_text(), t2 = k; VH_CHECK(t.data() == k.data() && t.size() == k.size() && t2.data() == k.data() && k->size() == k.size() && t.enc() == x.e && k->data() == k.data(), "as_text", "after %s", op);
    size_t i = 0; for (auto r : k.runes()) { VH_CHECK(i < x.m.size() && r.to_int() == x.m[i], "runes", "rune %zu after %s of %s", i, op, tx::show(x.m).c_str()); if (++i > x.m.size()) break; } VH_CHECK(i == x.m.size(), "runes", "%zu runes after %s, not %zu", i, op, x.m.size());
    i = 0; size_t off = 0; for (auto [at, r] : k.rune_indices()) { if (i >= x.m.size()) break; VH_CHECK(at == off && r.to_int() == x.m[i], "rune_indices", "rune %zu after %s of %s", i, op, tx::show(x.m).c_str()); off += tx::enc1(x.m[i], x.e).size(); i++; }
    c.state(hcomb(tx::hash(x.m), sizeof(C) * 8 + (size_t)x.e.About.is_universal)); c.event("contents_checked");
  }
  // What is pushed: (decoded) runes the source yields.
  void pushed(Slot<E>& x, const Runes& add, bool ok, const char* op) { bool want = std::all_of(add.begin(), add.end(), [](u32 r) { return tx::can<E>(r); }); VH_CHECK(ok == want, op, "%s of %s reported %d", op, tx::show(add).c_str(), ok); if (want) x.m.insert(x.m.end(), add.begin(), add.end()); c.event(want ? "pushes" : "refused_pushes"); if (!want && add.size() > 1 && tx::can<E>(add[0])) c.event("refused_after_prefix"); verify(x, op); }
  void lossy(Slot<E>& x, const Runes& add, const char* op) { for (u32 r : add) { bool bad = !tx::can<E>(r); if (bad) c.event("replaced_runes"); x.m.push_back(!bad ? r : tx::can<E>(0xfffd) ? 0xfffd : '?'); } c.event("lossy_pushes"); verify(x, op); }
  template <class F> void source(Slot<E>& x, const Runes& r, int key, int form) {
    Runes q; for (u32 v : r) q.push_back(tx::can<F>(v) ? v : 'q'); Txt<F> h(q, key); using FC = typename F::code;
    switch (form) {
      case 0: pushed(x, q, x.b->push(h.text()), "push-text"); break;
      case 1: pushed(x, q, x.b->push(h.pre()), "push-pretext"); break;
      case 2: x.b->push_lossy(h.text()); lossy(x, q, "push_lossy-text"); break;
      case 3: x.b->push_lossy(h.pre()); lossy(x, q, "push_lossy-pretext"); break;
      case 4: { best::textbuf<F> o(h.text()); pushed(x, q, x.b->push(o), "push-textbuf"); break; }
      case 5: { best::textbuf<F> o(h.text()); x.b->push_lossy(o); lossy(x, q, "push_lossy-textbuf"); break; }
      case 6: { auto o = B::transcode(ma::Mon{x.b->allocator().arena}, h.text()); if constexpr (std::is_same_v<E, tx::keyed>) { Slot<E> y; y.e = E{}; bool want = true; for (u32 v : q) want &= tx::can<E>(v); VH_CHECK(o.has_value() == want, "transcode", "%s", tx::show(q).c_str()); if (o && want) { y.b.emplace(std::move(*o)); y.m = q; verify(y, "transcode"); } break; }
        bool want = std::all_of(q.begin(), q.end(), [](u32 v) { return tx::can<E>(v); }); VH_CHECK(o.has_value() == want, "transcode", "transcode of %s gave %d", tx::show(q).c_str(), o.has_value()); c.event(want ? "transcodes" : "refused_transcodes"); if (o && want) { x.b.emplace(*std::move(o)); x.m = q; verify(x, "transcode"); } break; }
      default: {  // damaged units between the runes
        std::vector<FC> v; Runes d; FC bad[2] = {FC(sizeof(FC) == 1 ? 0xff : sizeof(FC) == 2 ? 0xdc00 : 0x110000 + c.rng.below(9)), FC(sizeof(FC) == 1 ? 0xc0 : sizeof(FC) == 2 ? 0xdfff : 0x7fffffff)}; if (std::is_same_v<F, best::latin1>) break; bool any = false;
        for (size_t i = 0; i <= q.size(); i++) { if (c.rng.chance(1, 3)) { FC w = bad[c.rng.below(2)]; if constexpr (std::is_same_v<F, tx::keyed>) w ^= 0x1000000; v.push_back(w); d.push_back(0xfffd); any = true; } if (i < q.size()) { auto w = tx::enc1(q[i], h.e); v.insert(v.end(), w.begin(), w.end()); d.push_back(q[i]); } }
        if (sizeof(FC) == 2) for (u32 z : q) if (tx::surr(z)) return; FC* p = (FC*)malloc(v.size() * sizeof(FC) + 1); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(FC)); pretext<F> pt(best::span<const FC>(p, v.size()), h.e); if (any) c.event("damaged_sources");
        if (form == 7) pushed(x, d, x.b->push(pt), "push-damaged"); else if (form == 8) { x.b->push_lossy(pt); lossy(x, d, "push_lossy-damaged"); }
        else if constexpr (std::is_same_v<E, F>) { int ar = (int)c.rng.below(3); auto o = form == 9 ? B::from(ma::Mon{ar}, pt) : [&] { using V = typename B::buf; V w(ma::Mon{ar}, best::span<const FC>(p, v.size())); return B::from(std::move(w), h.e); }(); bool want = !any; VH_CHECK(o.has_value() == want, "from", "from(%zu units, %s) gave %d", v.size(), any ? "damaged" : "valid", o.has_value()); c.event(want ? "froms" : "refused_froms"); if (o && want) { VH_CHECK(o->allocator().arena == ar, "from-allocator", "from() uses allocator %d, not %d", o->allocator().arena, ar); x.b.emplace(*std::move(o)); x.m = q; x.e = h.e; verify(x, "from"); } }
        free(p); } }
  }
  Runes gen(size_t max) { static const u32 A[] = {'a', 'b', 0, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x4e00, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xd800, 0xdc00, 0xdfff}; Runes r; size_t lim = c.rng.flip() ? 21 : std::is_same_v<E, best::ascii> ? 4 : std::is_same_v<E, best::latin1> ? 7 : 18; for (size_t i = c.rng.len(max); i--;) r.push_back(A[c.rng.below(lim)]); return r; }
  void step() {
    auto& x = s[c.rng.below(3)]; auto& y = s[c.rng.below(3)]; log = fmt(" (had %zu runes, capacity %zu)", x.m.size(), x.b->capacity());
    switch (c.rng.below(16)) {
      case 0: case 1: { Runes r = gen(1); r.resize(1, 'z'); pushed(x, r, x.b->push(tx::rune(r[0])), "push-rune"); break; }
      case 2: { Runes r = gen(1); r.resize(1, 'z'); x.b->push_lossy(tx::rune(r[0])); lossy(x, r, "push_lossy-rune"); break; }
      case 3: case 4: case 5: case 6: case 7: { Runes r = gen(c.rng.chance(1, 8) ? 60 : 12); int key = (int)c.rng.below(2), form = (int)c.rng.below(11); switch (form >= 9 ? 9 : c.rng.below(7)) { case 0: source<best::utf8>(x, r, key, form); break; case 1: source<best::utf16>(x, r, key, form); break; case 2: source<best::utf32>(x, r, key, form); break; case 3: source<best::ascii>(x, r, key, form); break; case 4: source<best::latin1>(x, r, key, form); break; case 5: source<best::wtf8>(x, r, key, form); break; case 6: source<tx::keyed>(x, r, key, form); break; default: source<E>(x, r, key, form); } break; }
      case 8: { size_t n = 0, k = c.rng.below(x.m.size() + 1); Runes p(x.m.begin(), x.m.begin() + k); n = tx::encn(p, x.e).size(); if (c.rng.chance(1, 5)) n = x.b->size() + c.rng.below(9), p = x.m; x.b->truncate(n); x.m = p; verify(x, "truncate"); c.event("truncates"); break; }
      case 9: x.b->clear(); x.m.clear(); verify(x, "clear"); c.event("clears"); break;
      case 10: { size_t n = c.rng.len(70); x.b->reserve(n); VH_CHECK(x.b->capacity() >= x.b->size() + n, "reserve", "reserve(%zu) leaves capacity %zu of %zu", n, x.b->capacity(), x.b->size()); const C* p = x.b->data(); verify(x, "reserve"); Runes r; for (size_t i = 0; i < n; i++) r.push_back('r'); if (c.rng.flip()) { for (size_t i = 0; i < n; i++) x.b->push(best::rune('r')); x.m.insert(x.m.end(), r.begin(), r.end()); verify(x, "push-reserved"); VH_CHECK(x.b->data() == p, "reserve", "pushing %zu reserved units moved the string", n); } c.event("reserves"); break; }
      case 11: { B o(*y.b); verify(y, "copy-source"); x.m = y.m; x.e = y.e; x.b.emplace(o); verify(x, "copy"); o.clear(); verify(x, "copy-independent"); c.event("copies"); break; }
      case 12: *x.b = *y.b; x.m = y.m; x.e = y.e; verify(x, "copy-assign"); verify(y, "copy-assign"); c.event("copy_assigns"); break;
      case 13: if (&x == &y) break; if (c.rng.flip()) { *x.b = std::move(*y.b); } else x.b.emplace(std::move(*y.b)); x.m = y.m; x.e = y.e; verify(x, "move"); y.b.emplace(ma::Mon{(int)c.rng.below(3)}, y.e); y.m.clear(); verify(y, "fresh"); c.event("moves"); break;
      case 14: { typename B::buf v = c.rng.flip() ? std::move(*x.b).into_buf() : typename B::buf(std::move(*x.b)); auto want = tx::encn(x.m, x.e); VH_CHECK(v.size() == want.size() && (want.empty() || !memcmp(v.data().raw(), want.data(), want.size() * sizeof(C))), "into_buf", "into_buf of %s", tx::show(x.m).c_str()); x.b.emplace(best::unsafe("from into_buf"), std::move(v), x.e); verify(x, "unsafe-buf"); c.event("into_bufs"); break; }
      default: { Txt<E> h(y.m, x.e == tx::make_enc<E>(1)); const B& k = *x.b; int w = x.m < y.m ? -1 : y.m < x.m ? 1 : 0; if (h.e == x.e) { VH_CHECK((k == h.text()) == (w == 0) && (k == h.pre()) == (w == 0) && (k == h.span()) == (w == 0), "equality", "%s vs %s", tx::show(x.m).c_str(), tx::show(y.m).c_str()); auto o = k <=> h.text(); VH_CHECK((o < 0) == (w < 0) && (o > 0) == (w > 0), "order", "%s vs %s", tx::show(x.m).c_str(), tx::show(y.m).c_str()); auto z = k <=> *y.b; VH_CHECK((z < 0) == (w < 0) && (z > 0) == (w > 0), "order", "%s vs %s", tx::show(x.m).c_str(), tx::show(y.m).c_str()); } VH_CHECK((k == *y.b) == (w == 0), "equality", "%s vs %s", tx::show(x.m).c_str(), tx::show(y.m).c_str());
        if (!x.m.empty()) { VH_CHECK((k == tx::rune(x.m[0])) == (x.m.size() == 1) && (k <=> tx::rune(x.m[0])) == (x.m.size() == 1 ? best::ord::equivalent : best::ord::greater), "rune-comparison", "%s", tx::show(x.m).c_str()); size_t a = c.rng.below(x.m.size() + 1), o = tx::encn(Runes(x.m.begin(), x.m.begin() + a), x.e).size(); auto t = k[{.start = o}]; VH_CHECK(t.data() == k.data() + o && t.size() == k.size() - o, "slice", "%s from %zu", tx::show(x.m).c_str(), a); auto u = k.at({.end = o}); VH_CHECK(u && u->size() == o, "at", "%s to %zu", tx::show(x.m).c_str(), a); VH_CHECK(!k.at({.start = k.size() + 1}), "at", "beyond the end"); } c.event("queries"); }
    }
    // A cut inside a character must crash and never happen.
    if (c.rng.chance(1, 250)) for (u32 r : x.m) if (auto w = tx::enc1(r, x.e); w.size() > 1) { size_t o = 0; for (u32 q : x.m) { if (q == r) break; o += tx::enc1(q, x.e).size(); } size_t n = o + 1 + c.rng.below(w.size() - 1); VH_MUST_CRASH("mid-character", fmt("truncate(%zu) of %s", n, tx::show(x.m).c_str()), { x.b->truncate(n); }); c.event("mid_character"); break; }
  }
};
template <class E> void all(Ctx& c) {
  ma::begin(c); {
    H<E> h{c}; for (int i = 0; i < 3; i++) { auto& x = h.s[i]; x.e = tx::make_enc<E>((int)c.rng.below(2)); x.b.emplace(ma::Mon{i}, x.e); h.verify(x, "fresh"); if (c.rng.flip()) { Runes q; for (u32 v : h.gen(20)) if (tx::can<E>(v)) q.push_back(v); Txt<E> t(q, x.e == tx::make_enc<E>(1)); x.e = t.e; x.b.emplace(ma::Mon{i}, t.text()); x.m = q; h.verify(x, "from-text"); } }
    for (u64 n = 4 + c.rng.below(30); n--;) h.step();
    { Runes q; for (u32 v : h.gen(20)) if (tx::can<E>(v) && v) q.push_back(v); using B = best::textbuf<E, ma::Mon>; auto v = tx::encn(q, E{}); v.push_back(0); if (!std::is_same_v<E, tx::keyed>) { auto o = B::from_nul(v.data()), o2 = B::from_nul(ma::Mon{2}, v.data()); VH_CHECK(o && o2, "from_nul", "%s", tx::show(q).c_str()); if (o && o2) { Slot<E> y; y.m = q; y.b.emplace(*std::move(o2)); VH_CHECK(y.b->allocator().arena == 2, "from_nul", "allocator lost"); h.verify(y, "from_nul"); y.b.emplace(*std::move(o)); h.verify(y, "from_nul"); } auto z = B::from_nul(nullptr); VH_CHECK(z && z->is_empty(), "from_nul", "null"); c.event("from_nuls"); }
      Txt<E> t(q); auto o = best::textbuf<E, ma::Mon>::from(t.pre()); VH_CHECK(o.has_value(), "from", "%s", tx::show(q).c_str()); if (o) { Slot<E> y; y.m = q; y.e = t.e; y.b.emplace(best::unsafe("encoded by the harness"), t.pre()); h.verify(y, "unsafe-pretext"); y.b.emplace(*std::move(o)); h.verify(y, "from"); y.b.emplace(t.text()); h.verify(y, "from-text"); auto k = best::textbuf<E, ma::Mon>::transcode(t.text()); VH_CHECK(k && *k == t.text(), "transcode", "own encoding"); } }
    c.sample(fmt("%s: %s", tx::ename<E>(), tx::show(h.s[0].m).c_str()));
  } ma::end(c);
}
}  // namespace
#ifdef PART_A
VH_WORKLOAD(utf8, 3000, 60000) { all<best::utf8>(c); }
VH_WORKLOAD(literals, 2, 4) {
  best::strbuf a = "caf\xc3\xa9"; best::strbuf16 b = u"café"; best::strbuf32 d = U"café"; VH_CHECK(a.size() == 5 && b.size() == 4 && d.size() == 4 && a == b && b == d && a == "caf\xc3\xa9" && b == u"café" && d == U"café" && a == d, "literals", "literals");
  VH_CHECK(a.push(u" ok") && a.push("!") && a.push(U'🐈') && a == "caf\xc3\xa9 ok!\xf0\x9f\x90\x88", "literals", "pushes"); a = "x"; VH_CHECK(a == "x" && (a <=> "y") < 0 && (a <=> "x") == 0 && (a <=> "") > 0, "literals", "assign"); best::textbuf<best::ascii> s = "abc"; VH_CHECK(!s.push("d\xc3\xa9") && s == "abc", "literals", "refused push"); s.push_lossy("d\xc3\xa9"); VH_CHECK(s == "abcd?", "literals", "lossy"); best::strbuf e; VH_CHECK(e.is_empty() && e == "" && e.data(), "literals", "empty");
}
#elif defined PART_B
VH_WORKLOAD(utf16, 3000, 60000) { all<best::utf16>(c); }
#elif defined PART_C
VH_WORKLOAD(utf32, 2000, 40000) { all<best::utf32>(c); }
VH_WORKLOAD(ascii, 2000, 40000) { all<best::ascii>(c); }
#elif defined PART_D
VH_WORKLOAD(latin1, 2000, 40000) { all<best::latin1>(c); }
VH_WORKLOAD(wtf8, 2000, 40000) { all<best::wtf8>(c); }
#else
VH_WORKLOAD(keyed, 2000, 40000) { all<tx::keyed>(c); }
#endif
