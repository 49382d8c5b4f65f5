#!/usr/bin/env python3
"""Writes harness/c25_defs.inc: random command definitions (reflected structs) together with their descriptions for the
oracles of C25 and C26. Development-time only; its output is committed."""
import random, sys
R = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 20251)
WORDS = """alpha bravo cargo-lock delta_t echo foxtrot golf-ball hotel_id india juliet kilo-watt lima mike november_x oscar papa
quebec-city romeo sierra tango uniform victor_y whiskey xray yankee zulu amber blue_sky copper dun ebony fawn-grey gold hazel
indigo jade_green khaki-2 lemon maroon navy-3 olive pink_4 quartz red silver-9 teal umber violet white_noise naïve élan-x über""".split()
KINDS = ["int", "u8", "i64", "bool", "opt_int", "opt_bool", "vec_int", "vec_bool", "vec_str", "str", "strbuf", "rune", "opt_rune", "vec_buf", "custom", "quiet"]
CPP = {"int": "int", "u8": "uint8_t", "i64": "int64_t", "bool": "bool", "opt_int": "best::option<int>", "opt_bool": "best::option<bool>", "vec_int": "best::vec<int>", "vec_bool": "best::vec<bool>",
       "vec_str": "best::vec<best::str>", "str": "best::str", "strbuf": "best::strbuf", "rune": "best::rune", "opt_rune": "best::option<best::rune>", "vec_buf": "best::vec<best::strbuf>", "custom": "Celsius", "quiet": "Quiet"}
INIT = {"int": " = 0", "u8": " = 0", "i64": " = 0", "bool": " = false"}
out = []
uid = [0]
def fresh():
    uid[0] += 1
    return uid[0]
def q(s): return '"' + s.replace("\n", "\\n") + '"'
class Pool:
    def __init__(s):
        s.w = WORDS[:]; R.shuffle(s.w)
        s.l = list("abcdefgijklmnopqrstuvwxyz") + ["é", "λ", "7", "🐈"]; R.shuffle(s.l)
        if R.random() < .5: s.l.sort(key=lambda ch: ch.isascii())
        s.g = list("XCQWÑ"); R.shuffle(s.g)
    def word(s): return s.w.pop()
    def letter(s): return s.l.pop()
    def gletter(s): return s.g.pop()
VIS = ["Public"] * 12 + ["Hidden"] * 3 + ["Invisible"] * 2 + ["Delete"]
def help_():
    k = R.random()
    if k < .12: return ""
    n = fresh()
    if k < .3: return f"helps {n}a\nand {n}b"
    if k < .4: return f"helps {n}a\n{n}b\n{n}c, the last"
    if k < .5: return f"ünï help {n}"
    return f"helps with {n}"
def rl(ch): return "U'\\0'" if ch is None else "U'%s'" % ch
COUNT = {None: "-1", "Optional": "0", "Required": "1", "Repeated": "2"}
def gen(name, role, depth, pool, allow_subs=True, flat_in_letter=False):
    """role: root/sub/group. Emits nested structs first."""
    fields, refl, model = [], [], []
    def field_name(base): return f"f{fresh()}_" + "".join(c if c.isascii() and c.isalnum() else "_" for c in base)
    items = []
    nflags = R.randint(2, 6) if depth == 0 else R.randint(1, 4)
    for _ in range(nflags): items.append("flag")
    if depth < 3:
        for _ in range(R.randint(1, 3) if depth == 0 else R.choice([0, 0, 1, 1, 2]) if depth == 1 else R.choice([0, 0, 1])): items.append("group")
        if allow_subs:
            for _ in range(R.randint(1, 2) if depth == 0 else R.choice([0, 0, 1])): items.append("sub")
    R.shuffle(items)
    reuse = []
    has_sub = "sub" in items
    for it in items:
        w = pool.word()
        if it == "flag":
            kind = R.choice(KINDS)
            named = R.random() < .5 or not w.replace("-", "_").replace("_", "a").isascii()
            fn = field_name(w) if named else w.replace("-", "_")
            letter = pool.letter() if R.random() < .55 and pool.l else None
            vis = R.choice(VIS)
            count = R.choice([None, None, None, "Optional", "Repeated", "Repeated"] + (["Required"] if R.random() < .5 else []))
            arg = R.choice(["", "", f"ARG{fresh()}"]) ; hp = help_()
            al = []
            if vis != "Delete":
                for _ in range(R.choice([0, 0, 0, 1, 1, 2])):
                    al.append((pool.word(), R.choice([None, None, "Public", "Hidden", "Invisible", "Delete"])))
            fields.append(f"{CPP[kind]} {fn}{INIT.get(kind, '')};")
            t = []
            if named: t.append(f".name = {q(w)}")
            if letter: t.append(f".letter = {rl(letter)}")
            if vis != "Public": t.append(f".vis = cli::{vis}")
            if arg: t.append(f".arg = {q(arg)}")
            if count: t.append(f".count = cli::{count}")
            if hp: t.append(f".help = {q(hp)}")
            als = "".join(f", cli::alias{{{q(a)}{', cli::' + v if v else ''}}}" for a, v in al)
            refl.append(f".with(&{name}::{fn}, cli::flag{{{', '.join(t)}}}{als})")
            model.append(f'n->flags.push_back({{"{fn}", K_{kind}, {q(w)}, {rl(letter)}, V{vis}, {{{", ".join("{%s, V%s}" % (q(a), v or vis) for a, v in al)}}}, {COUNT[count]}, {q(arg)}, {q(hp)}}});')
        elif it == "group":
            form = R.choice(["flat", "named", "named", "letter", "both"])
            if form in ("letter", "both") and not pool.g: form = "named"
            same = [r for r in reuse if form != "flat" and r[1] == "nonflat"]
            if same and R.random() < .5: child = R.choice(same)[0]
            else:
                child = f"G{fresh()}"
                gen(child, "group", depth + 1, pool if form == "flat" else Pool(), allow_subs and form in ("flat", "named"))
                reuse.append((child, "flat" if form == "flat" else "nonflat"))
            fn = field_name(w); vis = R.choice(VIS); hp = help_()
            letter = pool.gletter() if form in ("letter", "both") else None
            nm = w if form in ("named", "both") else ""
            al = []
            if form in ("named", "both") and vis != "Delete":
                for _ in range(R.choice([0, 0, 1])): al.append((pool.word(), R.choice([None, "Hidden", "Invisible", "Delete"])))
            fields.append(f"{child} {fn};")
            t = []
            if nm: t.append(f".name = {q(nm)}")
            if letter: t.append(f".letter = {rl(letter)}")
            if vis != "Public": t.append(f".vis = cli::{vis}")
            if hp: t.append(f".help = {q(hp)}")
            als = "".join(f", cli::alias{{{q(a)}{', cli::' + v if v else ''}}}" for a, v in al)
            refl.append(f".with(&{name}::{fn}, cli::group{{{', '.join(t)}}}{als})")
            model.append(f'n->groups.push_back({{"{fn}", {q(nm)}, {rl(letter)}, V{vis}, {{{", ".join("{%s, V%s}" % (q(a), v or vis) for a, v in al)}}}, {q(hp)}, node_{child}()}});')
        else:
            child = f"S{fresh()}"
            gen(child, "sub", depth + 1, Pool(), depth < 1)
            named = R.random() < .5 or not w.replace("-", "_").replace("_", "a").isascii()
            fn = field_name(w) if named else w.replace("-", "_")
            vis = R.choice(VIS); hp = help_(); ab = R.choice(["", f"about {fresh()}\nmore"])
            al = []
            if vis != "Delete":
                for _ in range(R.choice([0, 0, 1])): al.append((pool.word(), R.choice([None, "Hidden", "Invisible", "Delete"])))
            fields.append(f"{child} {fn};")
            t = []
            if named: t.append(f".name = {q(w)}")
            if vis != "Public": t.append(f".vis = cli::{vis}")
            if hp: t.append(f".help = {q(hp)}")
            if ab: t.append(f".about = {q(ab)}")
            als = "".join(f", cli::alias{{{q(a)}{', cli::' + v if v else ''}}}" for a, v in al)
            refl.append(f".with(&{name}::{fn}, cli::subcommand{{{', '.join(t)}}}{als})")
            model.append(f'n->subs.push_back({{"{fn}", {q(w)}, V{vis}, {{{", ".join("{%s, V%s}" % (q(a), v or vis) for a, v in al)}}}, {q(hp)}, {q(ab)}, node_{child}()}});')
    if role != "group":
        req = not has_sub
        for i in range(R.randint(0, 3)):
            kind = R.choice([k for k in KINDS if not k.startswith("vec")]); fn = field_name("pos"); nm = R.choice(["", f"POS{fresh()}"]); hp = help_()
            count = R.choice([None, "Optional"] + (["Required"] * 2 if req else []))
            if count != "Required": req = False
            fields.append(f"{CPP[kind]} {fn}{INIT.get(kind, '')};")
            if nm or count or hp and R.random() < .9:
                t = ([f".name = {q(nm)}"] if nm else []) + ([f".count = cli::{count}"] if count else []) + ([f".help = {q(hp)}"] if hp else [])
                refl.append(f".with(&{name}::{fn}, cli::positional{{{', '.join(t)}}})")
            else: hp = ""
            model.append(f'n->poss.push_back({{"{fn}", K_{kind}, {q(nm)}, {COUNT[count]}, {q(hp)}}});')
        if R.random() < .5:
            kind = R.choice([k for k in KINDS if k.startswith("vec")]); fn = field_name("rest"); nm = R.choice(["", f"POS{fresh()}"])
            fields.append(f"{CPP[kind]} {fn};")
            if nm: refl.append(f".with(&{name}::{fn}, cli::positional{{.name = {q(nm)}}})")
            model.append(f'n->poss.push_back({{"{fn}", K_{kind}, {q(nm)}, -1, ""}});')
    app = ""
    if role == "root" and R.random() < .7:
        n = fresh(); t = []; m = {"name": "", "authors": "", "about": "", "version": "", "url": "", "license": ""}
        for k, v in [("name", f"app{n}"), ("authors", f"people {n}"), ("about", f"about app {n}\nin lines"), ("version", f"1.{n}"), ("url", f"https://u{n}"), ("copyright_year", 2000 + n), ("license", f"LIC-{n}")]:
            if R.random() < .7:
                if k == "copyright_year": t.append(f".copyright_year = {v}"); model.append(f"n->year = {v};")
                else: t.append(f".{k} = {q(v)}"); m[k] = v
        app = f".with(cli::app{{{', '.join(t)}}})"
        model.append("n->has_app = true; " + " ".join(f"n->{k} = {q(v)};" for k, v in m.items() if v))
    def dumpline(f):
        fn = f.split(" ")[1].rstrip(";"); ty = f.split(" ")[0]
        return f'put(m, p + "{fn}", v.{fn});' if ty[0] not in "GS" or ty in ("Celsius",) else f'dump(m, p + "{fn}.", v.{fn});'
    out.append(f"struct {name} {{\n  " + " ".join(fields) + f"\n  constexpr friend auto BestReflect(auto& m, {name}*) {{ return m.infer(){app}\n    " + "\n    ".join(refl) + ";\n  }\n};")
    out.append(f"inline void dump(Map& m, const std::string& p, const {name}& v) {{ " + " ".join(dumpline(f) for f in fields) + " }")
    out.append(f"inline Node* node_{name}() {{ auto n = new Node; " + "\n  ".join(model) + "\n  return n; }")
ROOTS = int(sys.argv[1]) if len(sys.argv) > 1 else 12
PER = 2
for i in range(ROOTS):
    if i % PER == 0: out.append(("#endif\n" if i else "") + f"#ifdef PART_{'ABCDEFGHIJKL'[i // PER]}")
    gen(f"R{i}", "root", 0, Pool())
    out.append(f"DEFINITION(R{i})")
out.append("#endif")
print("// Generated by tools/gen_cli.py %s.\n" % " ".join(sys.argv[1:]) + "\n".join(out))
