#!/usr/bin/env python3
"""Writes harness/c29_defs.inc: reflected structs and enums with what their reflections must show.  gen_reflect.py N SEED"""
import random, sys
N, SEED = int(sys.argv[1]), int(sys.argv[2]); R = random.Random(SEED); out = []; P = out.append
TYPES = [("int", "(int)g.next()", 1), ("unsigned char", "(unsigned char)g.next()", 1), ("double", "(double)(int)g.below(1000)", 1), ("bool", "g.flip()", 1),
         ("best::strbuf", "best::strbuf(words[g.below(6)])", 1), ("best::str", "words[g.below(6)]", 1), ("int*", "nullptr", 0), ("best::option<int>", "g.flip() ? best::option<int>((int)g.below(9)) : best::option<int>()", 1),
         ("best::vec<int>", "best::vec<int>{(int)g.below(9), 2}", 1), ("std::string", "std::string(g.below(40), 'q')", 0), ("long", "(long)g.next()", 1), ("const short", "(short)g.next()", 1), ("In", "In{(int)g.below(99), g.flip()}", 1),
         ("En", "(En)g.below(4)", 1), ("Mo", "Mo((int)g.below(99))", 0), ("float", "(float)(int)g.below(100)", 1), ("std::pair<int, int>", "std::pair<int, int>(1, 2)", 0), ("best::box<int>", "best::box<int>((int)g.below(99))", 0), ("int (*)(int)", None, 0)]
TYPES = [(a, b, c and a not in ("double", "float")) for a, b, c in TYPES]
TYPES = [t for t in TYPES if t[1]]
NAMES = ["a", "b", "ab", "abc", "abcd", "x", "y", "xy", "xx", "_x", "x_", "value", "values", "name", "names", "type", "z_", "Z", "zz9", "very_long_field_name_number_one", "very_long_field_name_number_two", "i", "id", "idx", "n0", "n1", "n10", "n01", "tags", "each", "match", "key", "data", "size", "A", "Aa", "aA", "first", "second", "v", "desc_", "self", "it", "any_", "BestName", "row", "hide_me", "q", "qq", "qqq"]
def tag():
    k = R.randrange(4); v = R.randrange(100)
    return (("int", v, str(v)) if k == 0 else ("key", v, "T2{%d}" % v) if k == 1 else ("key", v, "T3{%d}" % v) if k == 2 else ("other", v, "T4{%d}" % v))
def tags(lo, hi): return [tag() for _ in range(R.randint(lo, hi))]
def lists(ts): return "{%s}, {%s}" % (", ".join(str(v) for k, v, _ in ts if k == "int"), ", ".join(str(v) for k, v, _ in ts if k == "key"))
P("// GENERATED by tools/gen_reflect.py %d %d." % (N, SEED))
for part in range(4):
    P("#ifdef PART_%s" % "ABCD"[part])
    for k in range(N):
        n = [0, 1, 2, 3, 5, 8, 13, 17, 24, 40][k] if k < 10 and part == 0 else [64, 33][k] if part == 1 and k < 2 else R.choice([1, 2, 3, 4, 5, 6, 7, 9, 11, 14])
        name = "S%s%d" % ("abcd"[part], k); fs = []; pool = NAMES + ["f%d" % i for i in range(64)] if n > 45 else list(NAMES); R.shuffle(pool)
        for i in range(n): fs.append((pool[i], TYPES[R.randrange(len(TYPES))]))
        if n > 20: fs = [(f, TYPES[R.choice([0, 1, 3, 4, 10])]) for f, _ in fs]
        tmpl = R.random() < .2; mode = R.choice(["none", "infer", "ops", "ops", "pick"]) if n else R.choice(["none", "infer"]); self_t = name + ("<int>" if tmpl else "")
        ttags, vis, calls = [], [], []
        if mode != "none":
            if mode != "pick": vis = [[f, []] for f, _ in fs]; calls.append("infer()")
            if mode in ("ops", "pick"):
                hidden = [f for f, _ in fs] if mode == "pick" else []
                for _ in range(R.randint(1, 9)):
                    c = R.randrange(4)
                    if c == 0: t = tags(1, 3); ttags += t; calls.append("with(%s)" % ", ".join(x for _, _, x in t))
                    elif c == 1 and vis and mode == "ops": i = R.randrange(len(vis)); hidden.append(vis[i][0]); calls.append("hide(&%s::%s)" % (name, vis[i][0])); del vis[i]
                    elif c == 2 and hidden: f = hidden.pop(R.randrange(len(hidden))); t = tags(0, 2); vis.append([f, t]); calls.append("with(&%s::%s%s)" % (name, f, "".join(", " + x for _, _, x in t)))
                    elif vis: v = R.choice(vis); t = tags(1, 3); v[1] = v[1] + t; calls.append("with(&%s::%s%s)" % (name, v[0], "".join(", " + x for _, _, x in t)))
                if mode == "pick" and not calls: calls.append("with(&%s::%s)" % (name, fs[0][0])); vis.append([fs[0][0], []])
        else: vis = [[f, []] for f, _ in fs]
        P("namespace g29 { %sstruct %s%s { %s %s};" % ("template <class Q> " if tmpl else "", name, "", "".join("%s %s; " % (t[0], f) for f, t in fs), "" if mode == "none" else "constexpr friend auto BestReflect(auto& m, %s*) { return m.%s; } " % (name, ".".join(calls))) + " }")
        ty = dict((f, t) for f, t in fs); S = "g29::" + self_t
        for kind in (0,):
            P("static %s make_%s(Rng& g) { (void)g; return %s{%s}; }" % (S, name, S, ", ".join(t[1] for _, t in fs)))
        absent = [f for f, _ in fs if f not in [v[0] for v in vis]]
        P("static const StructWant& want_%s() { static const StructWant w{\"%s\", \"g29::%s\", {%s}, {%s}, %s, %s}; return w; }" % (name, name, self_t,
          ", ".join('{"%s", tid<%s>(), [](const void* p) { return (const void*)best::addr(((const %s*)p)->%s); }, %s, %s}' % (f, ty[f][0], S, f, lists(t), ("[](const void* p) { return dbg(((const %s*)p)->%s); }" % (S, f)) if ty[f][2] else "nullptr") for f, t in vis),
          ", ".join('"%s"' % f for f in absent), lists(ttags), "true" if all(ty[f][2] for f, _ in vis) else "false"))
        P("static void all_%s(Ctx& c) { auto a = make_%s(c.rng); auto b = make_%s(c.rng); judge_struct<%s>(c, a, b, want_%s());%s }" % (name, name, name, "true" if all(ty[f][2] for f, _ in vis) else "false", name, "".join(' VH_CHECK(same(best::field_name<&%s::%s>, "%s"), "field-name", "field_name of %s");' % (S, f, f, f) for f, _ in fs[:6])))
    # enums
    for k in range(N // 2):
        name = "E%s%d" % ("abcd"[part], k); u, lo, hi = R.choice([("int", -2**31, 2**31 - 1), ("unsigned char", 0, 255), ("signed char", -128, 127), ("long", -2**63, 2**63 - 1), ("unsigned long", 0, 2**64 - 1), ("unsigned short", 0, 65535), ("bool", 0, 1), ("char", -128, 127), (None, 0, 63)])
        scoped = R.random() < .7 or u is None and False; 
        if u is None: scoped = False
        pool = list(NAMES); R.shuffle(pool); n = R.randint(0, 14); shape = R.randrange(3); vals = set()
        while len(vals) < n:
            v = len(vals) if shape == 0 else R.randrange(0, 64) if shape == 1 else R.choice([R.randrange(0, 130), -R.randrange(1, 100), lo, hi, 63, 64, 255, 256])
            if v < lo or v > hi: n -= 1; continue
            vals.add(v)
        vals = sorted(vals); R.shuffle(vals); ens = [(pool[i], v) for i, v in enumerate(vals)]
        mode = R.choice(["none", "infer", "ops", "ops", "bounds", "pick"]) if ens else "none"; ttags, vis, calls = [], [], []
        if mode == "bounds":
            a = R.choice([0, 1, 5, 60, 100, -10, -100]); ct = R.choice([1, 10, 64, 120, 300])
            if u is None: a, ct = 0, 64
            if a < 0 and lo >= 0: a = 0
            st = a % 2**64; calls.append("template infer<best::bounds{.start = %dull, .count = %d}>()" % (st, ct)); vis = [[f, v, []] for f, v in sorted(ens, key=lambda e: e[1]) if a <= v < a + ct]
        elif mode != "pick":
            vis = [[f, v, []] for f, v in sorted(ens, key=lambda e: e[1]) if 0 <= v < 64]
            if mode != "none": calls.append("infer()")
        if mode in ("ops", "pick", "bounds"):
            hidden = [e for e in ens if e[0] not in [v[0] for v in vis]]
            for _ in range(R.randint(1, 8)):
                c = R.randrange(4); full = (lambda f: "%s::%s" % (name, f))
                if c == 0: t = tags(1, 3); ttags += t; calls.append("with(%s)" % ", ".join(x for _, _, x in t))
                elif c == 1 and vis and mode != "pick": i = R.randrange(len(vis)); hidden.append((vis[i][0], vis[i][1])); calls.append("hide(%s)" % full(vis[i][0])); del vis[i]
                elif c == 2 and hidden: f, v = hidden.pop(R.randrange(len(hidden))); t = tags(0, 2); vis.append([f, v, t]); calls.append("with(%s%s)" % (full(f), "".join(", " + x for _, _, x in t)))
                elif vis: v = R.choice(vis); t = tags(1, 3); v[2] = v[2] + t; calls.append("with(%s%s)" % (full(v[0]), "".join(", " + x for _, _, x in t)))
            if mode == "pick" and not calls: calls.append("with(%s)" % full(ens[0][0])); vis.append([ens[0][0], ens[0][1], []])
        num = lambda v: "(-9223372036854775807 - 1)" if v == -2**63 else "%d%s" % (v, "ull" if v >= 2**63 else "")
        ns = "namespace en_%s { " % name
        P("namespace g29 { %senum %s%s%s { %s }; %s } }" % (ns, "class " if scoped else "", name, " : " + u if u else "", ", ".join("%s = %s" % (f, num(v)) for f, v in ens), "" if mode == "none" else "constexpr auto BestReflect(auto& m, %s*) { return m.%s; }" % (name, ".".join(calls))))
        S = "g29::en_%s::%s" % (name, name)
        P("static const EnumWant& want_%s() { static const EnumWant w{\"%s\", \"%s\", {%s}, {%s}, %s, %d, %d}; return w; }" % (name, name, S, ", ".join('{"%s", (i64)%s, %s}' % (f, num(v), lists(t)) for f, v, t in vis), ", ".join('{"%s", (i64)%s, {}, {}}' % (f, num(v)) for f, v in ens if f not in [x[0] for x in vis]), lists(ttags), 1 if u is None else 0, 0))
        P("static void all_%s(Ctx& c) { judge_enum<%s>(c, want_%s());%s }" % (name, S, name, "".join(' VH_CHECK(best::value_name<%s::%s>.has_value() && same(*best::value_name<%s::%s>, "%s"), "value-name", "value_name of %s::%s");' % (S, f, S, f, f, name, f) for f, _ in ens)))
    P("static void (*const structs[])(Ctx&) = {%s};" % ", ".join("all_S%s%d" % ("abcd"[part], k) for k in range(N)))
    P("static void (*const enums[])(Ctx&) = {%s};" % ", ".join("all_E%s%d" % ("abcd"[part], k) for k in range(N // 2)))
    # names
    P("namespace g29 { struct Xn {}; template <class...> struct Tn {}; }")
    checks = []
    for k in range(N):
        d = R.randint(1, 4); pre, full, dec, post = [], [], [], []; ns_ok = True
        for i in range(d):
            nm = "%s%s%d_%d" % (R.choice("pqrPQR_"), "abcd"[part], k, i); last = i == d - 1; kind = "ns" if ns_ok and not last and R.random() < .5 else R.choice(["st", "tm"])
            if kind == "ns": pre.append("namespace %s { " % nm); full.append((nm, "")); post.append(" }")
            elif kind == "st": ns_ok = False; pre.append("struct %s { " % nm); full.append((nm, "")); post.append(" };")
            else:
                ns_ok = False; args = [R.choice(["int", "g29::Xn", "g29::Tn<>", "g29::Tn<int>", "g29::Tn<g29::Xn, g29::Tn<int>>", "const char *", "g29::Xn &"]) for _ in range(R.randint(1, 3))]
                pre.append("template <%s> struct %s { " % (", ".join("class Z%d_%d" % (i, j) for j in range(len(args))), nm)); full.append((nm, "<%s>" % ", ".join(args))); post.append(" };")
        P("namespace g29 { " + "".join(pre) + "".join(reversed(post)) + " }")
        path = "::".join(["g29"] + [a + b for a, b in full[:-1]]); a, b = full[-1]
        checks.append('  judge_names(c, best::type_names::of<%s::%s%s>, best::type_name<%s::%s%s>, "%s", "%s", "%s");' % (path, a, b, path, a, b, path, a, b))
    P("static void all_names(Ctx& c) {\n%s\n}" % "\n".join(checks)); P("#endif")
print("\n".join(out))
