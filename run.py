#!/usr/bin/env python3
"""Driver of the runtime monitors: builds a property's harness against /repo's working tree with sanitizers, runs its
workloads in shards, aggregates what the monitors observed and writes evidence/<id>.json.

usage: run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--workload W] [--scale F] [--keep]
       run.py --replay FILE
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build or harness error)."""
import array, concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, time, glob, re, tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "/usr/bin/clang++-18"
JOBS = 8
BASE = ["-std=c++20", "-stdlib=libc++", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-w", "-fconstexpr-steps=200000000",
        "-fbracket-depth=1024", "-ftemplate-depth=2048", "-iquote", REPO, "-iquote", os.path.join(ROOT, "harness")]
FLAVORS = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    "opt": ["-O2", "-DNDEBUG"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-DVH_TSAN"],
    "dbg0": ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
}
LIBS = ["memory/allocator.cc", "log/internal/crash.cc", "iter/bounds.cc", "text/format.cc", "io/ioerr.cc",
        "cli/parser.cc", "cli/cli.cc"]

sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".cc", ".inc")):
                    p = os.path.join(r, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    rejected = None


# Diagnostics that say that the harness and the tree do not fit together (a renamed or moved declaration, a missing file, a
# compiler or machine problem), which is no answer. Any other rejection of a harness source means that a use of the
# documented interface, which the property is about, no longer compiles or no longer has the value that the compiler must
# give it.
MISFIT = re.compile(r"file not found|no member named|no type named|no template named|undeclared identifier|unknown type name|undeclared|does not refer to|is a private member|is a protected member|unable to|cannot open|PLEASE submit|maximum step limit|out of memory|bracket nesting|redefinition|instantiation exceeded|too many errors emitted|unknown argument|no space", re.I)


def rejection(out, rc):
    """The first diagnostic, if the compiler ran normally and rejected what the source says; None otherwise."""
    errs = [l for l in out.splitlines() if re.search(r": (fatal )?error: ", l) or l.startswith("error:")]
    if rc != 1 or not errs or any(MISFIT.search(l) for l in errs):
        return None
    return errs[0]


def build(prop, spec, flavor, outdir):
    """Compiles the harness TUs and the needed library TUs; returns the binary's path."""
    os.makedirs(outdir, exist_ok=True)
    extra = spec.get("flags", []) + spec.get("flags_" + flavor, [])
    flags = FLAVORS[flavor]
    jobs = []
    tus = [(os.path.join(ROOT, "harness", s), True) for s in spec["src"]] + [(os.path.join(ROOT, "harness/vh.cc"), False)]  # "x.cc:PART" compiles with -DPART
    tus += [(os.path.join(REPO, "best", l), False) for l in spec.get("libs", ["memory/allocator.cc", "log/internal/crash.cc", "iter/bounds.cc", "text/format.cc"])]
    if spec.get("libs_first"):  # the library is initialized before the harness
        tus.sort(key=lambda t: t[1])
    for t in spec.get("gen", []):
        out = os.path.join(outdir, t[0])
        r = sh([sys.executable, os.path.join(ROOT, "tools", t[1])] + list(t[2:]) + [out])
        if r.returncode:
            raise BuildError("generator %s failed\n%s" % (t[1], r.stdout))
        if out.endswith(".cc"):
            tus.append((out, True))
    objs = []
    for src, own in tus:
        obj = os.path.join(outdir, re.sub(r"\W", "_", os.path.relpath(src, "/")) + ".o")
        objs.append(obj)
        src, _, part = src.partition(":")
        jobs.append((own, [CXX] + BASE + flags + (extra if own else spec.get("flags_lib", [])) + (["-D" + part] if part else []) + ["-iquote", outdir, "-c", src, "-o", obj]))
    if not (os.path.exists(os.path.join(outdir, "ok"))):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            done = list(zip(jobs, ex.map(lambda j: sh(j[1]), jobs)))
        failed = [(own, cmd, r) for (own, cmd), r in done if r.returncode]
        if failed:
            own, cmd, r = failed[0]
            e = BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
            why = [rejection(r.stdout, r.returncode) if own else None for own, cmd, r in failed]
            if all(why):
                e.rejected = why[0]
            raise e
        binp = os.path.join(outdir, "bin")
        r = sh([CXX, "-stdlib=libc++", "-fuse-ld=lld"] + [f for f in flags if f.startswith(("-fsan", "-fno-san"))] + ["-rdynamic"] + objs + ["-lpthread", "-o", binp])
        if r.returncode:
            r = sh([CXX, "-stdlib=libc++"] + [f for f in flags if f.startswith(("-fsan", "-fno-san"))] + ["-rdynamic"] + objs + ["-lpthread", "-o", binp])
        if r.returncode:
            raise BuildError("link failed\n" + r.stdout[-4000:])
        open(os.path.join(outdir, "ok"), "w").close()
        for o in objs:
            os.unlink(o)
    return os.path.join(outdir, "bin")


def load_known(prop):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def summarize_abort(err, rc):
    m = re.search(r"SUMMARY: (\S+): (.*)", err)
    if m:
        return re.sub(r"\s+", " ", m.group(2))[:160]
    m = re.search(r"(.*runtime error.*)", err)
    if m:
        return m.group(1)[:200]
    m = re.search(r"libbest: thread.*?\n.*?libbest: ([^\n\x1b]*)", err, re.S)
    if m:
        return "library crash: " + m.group(1)[:120]
    return "exit %s" % rc


def run_shard(args):
    binp, wl, a, b, seed, thorough, work, timeout = args
    base = os.path.join(work, "%s-%d" % (wl, a))
    cmd = [binp, "--workload", wl, "--from", str(a), "--to", str(b), "--seed", str(seed), "--status", base + ".stat", "--out", base + ".json"]
    if thorough:
        cmd.append("--thorough")
    t0 = time.time()
    env = dict(os.environ)
    env["VERIF_REPO"] = REPO
    env["ASAN_SYMBOLIZER_PATH"] = "/usr/lib/llvm-18/bin/llvm-symbolizer"
    errf = open(base + ".err", "wb")
    timed_out = False
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, env=env, cwd=work)
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait(); rc = None; timed_out = True
    errf.close()
    err = open(base + ".err", errors="replace").read()[-20000:]
    res = {"wl": wl, "from": a, "to": b, "rc": rc, "err": err, "timed_out": timed_out, "wall": time.time() - t0}
    try:
        st = open(base + ".stat", "rb").read()
        res["cur"] = int.from_bytes(st[:8], "little")
    except OSError:
        res["cur"] = a
    if os.path.exists(base + ".json"):
        res["json"] = json.load(open(base + ".json"))
        res["states"] = open(base + ".json.st", "rb").read()
    for f in glob.glob(base + ".*"):
        os.unlink(f)
    return res


def main():
    argv = sys.argv[1:]
    opt = {"tier": os.environ.get("VERIF_TIER", "quick"), "seed": os.environ.get("VERIF_SEED", "1")}
    prop = None
    i = 0
    while i < len(argv):
        if argv[i] == "--keep":
            opt["keep"] = True
        elif argv[i].startswith("--"):
            opt[argv[i][2:]] = argv[i + 1]; i += 1
        else:
            prop = argv[i]
        i += 1
    replay = None
    if "replay" in opt:
        replay = json.load(open(opt["replay"]))
        prop = replay["property"]
        opt["seed"] = replay["seed"]; opt["tier"] = replay["tier"]
    seed, tier = int(opt["seed"]), opt["tier"]
    thorough = tier == "thorough"
    scale = float(opt.get("scale", 1))
    spec = CHECKS[prop]
    t0 = time.time()
    deadline = t0 + (800 if not thorough else 6 * 3600)
    flavors = spec.get("flavors_thorough" if thorough else "flavors", ["asan"])
    if replay:
        flavors = [replay["flavor"]]
    if "flavor" in opt:
        flavors = [opt["flavor"]]
    key = tree_hash([os.path.join(REPO, "best"), os.path.join(ROOT, "harness"), os.path.join(ROOT, "tools")])
    if "compile_cases" in spec:  # evaluated by the compiler: the seed and the number of cases are compiled in
        n = spec["compile_cases"][1 if thorough else 0]
        spec = dict(spec, flags=spec.get("flags", []) + ["-DVH_CSEED=%d" % seed, "-DVH_CASES=%d" % n])
        key += "s%dn%d" % (seed, n)
    bdir = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(ROOT, "_build")), prop)
    work = os.path.join(bdir, "work-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    for d in glob.glob(os.path.join(bdir, "*-*")):
        if os.path.isdir(d) and not d.endswith(key) and "work-" not in os.path.basename(d):
            shutil.rmtree(d, ignore_errors=True)
    known = load_known(prop)
    viol, findings = [], {}
    cov = {"cases": 0, "evaluations": 0}
    events, samples, states = {}, [], set()
    nstates_dropped = 0
    inconclusive = []
    wl_cases = {}
    build_s = 0
    try:
        for fl in flavors:
            tb = time.time()
            try:
                binp = build(prop, spec, fl, os.path.join(bdir, "%s-%s" % (fl, key)))
            except BuildError as e:
                if e.rejected:
                    viol.append({"key": "rejected", "detail": "the compiler rejects a use of the documented interface: " + e.rejected, "workload": "", "case": 0, "flavor": fl, "err": str(e)[-4000:]})
                    break
                print("NO-ANSWER property=%s build failed (%s)\n%s" % (prop, fl, e))
                sys.exit(2)
            build_s += time.time() - tb
            r = sh([binp, "--list"])
            if r.returncode:
                print("NO-ANSWER property=%s cannot list workloads: %s" % (prop, r.stdout[-2000:]))
                # A harness that dies before main (static initialisers of the library) is an observation too.
                if "runtime error" in r.stdout or "Sanitizer" in r.stdout or "libbest:" in r.stdout:
                    viol.append({"key": "startup", "detail": summarize_abort(r.stdout, r.returncode), "workload": "", "case": 0, "flavor": fl, "err": r.stdout[-4000:]})
                    continue
                sys.exit(2)
            shards = []
            for line in r.stdout.split("\n"):
                if not line.strip():
                    continue
                n, q, t = line.split()
                if replay and n != replay["workload"]:
                    continue
                if "workload" in opt and opt["workload"] != n:
                    continue
                total = int(t) if thorough else int(q)
                total = max(1, int(total * scale)) if total else 0
                if replay:
                    shards.append((n, replay["case"], replay["case"] + 1)); continue
                if total == 0:
                    continue
                k = max(1, min(total, 8 if total >= 16 else (total if total <= 8 else 8)))
                step = (total + k - 1) // k
                for a in range(0, total, step):
                    shards.append((n, a, min(total, a + step)))
            # interleave so that long workloads start early
            shards.sort(key=lambda s: -(s[2] - s[1]))
            with cf.ThreadPoolExecutor(JOBS) as ex:
                res = list(ex.map(run_shard, [(binp, n, a, b, seed, thorough, work, max(5, deadline - time.time())) for n, a, b in shards]))
            for x in res:
                j = x.get("json")
                if j is None:
                    if x["timed_out"]:
                        inconclusive.append("workload %s stopped at the time limit in case %d" % (x["wl"], x["cur"]))
                    elif x["rc"] in (96, 97) or x["rc"] in (-9, -15):
                        inconclusive.append("harness error in %s (rc %s): %s" % (x["wl"], x["rc"], x["err"][-600:]))
                    else:
                        d = summarize_abort(x["err"], x["rc"])
                        kk = "hang:" + x["wl"] if x["rc"] == 98 else "abort:%s:%s" % (x["wl"], re.sub(r"[^\w.:+-]+", "_", re.sub(r"/\S*/", "", d))[:80])
                        viol.append({"key": kk, "detail": d, "workload": x["wl"], "case": x["cur"], "flavor": fl, "err": x["err"][-6000:]})
                        # partial results of the shard are lost; its cases still ran
                        cov["cases"] += max(0, x["cur"] - x["from"])
                    continue
                cov["cases"] += j["cases"]; cov["evaluations"] += j["evals"]
                wl_cases[x["wl"]] = wl_cases.get(x["wl"], 0) + j["cases"]
                nstates_dropped += j["state_drop"]
                states.update(array.array("Q", x["states"]))
                for k, v in j["events"].items():
                    events[k] = events.get(k, 0) + v
                for s in j["samples"]:
                    if len([1 for t in samples if t.split(":")[0] == s.split(":")[0]]) < 2:
                        samples.append(s)
                for f in j["fails"]:
                    f = dict(f); f["flavor"] = fl
                    viol.append(f)
                if x["rc"] not in (0, 1):
                    viol.append({"key": "abort-at-exit:" + x["wl"], "detail": summarize_abort(x["err"], x["rc"]), "workload": x["wl"], "case": x["cur"], "flavor": fl, "err": x["err"][-6000:]})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    real, seen = [], set()
    for v in viol:
        if v["key"] in known:
            findings[v["key"]] = known[v["key"]]
        elif v["key"] not in seen:
            seen.add(v["key"]); real.append(v)
    full = not replay and "workload" not in opt and scale >= 1 and "flavor" not in opt
    missing = [e for e in spec.get("expect_events", []) if events.get(e, 0) == 0]
    if full and not real and missing:
        inconclusive.append("monitors saw no event of kind: " + ", ".join(missing))
    evdir = os.path.join(ROOT, "evidence")
    if full:
        os.makedirs(evdir, exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
              "coverage": {"evaluations": cov["evaluations"], "distinct_nontrivial": len(states), "rule": spec["rule"],
                           "samples": samples[:12] or ["(none)"], "cases": cov["cases"], "events": events,
                           "cases_by_workload": wl_cases, "flavors": flavors, "sanitizer_reports": len([v for v in viol if v["key"].startswith("abort")])},
              "assumptions": spec.get("assumptions", []) + ["clang++-18 with libc++ 17 compiles the library as the pinned toolchain does", "deterministic workloads from VERIF_SEED"],
              "wall_s": round(time.time() - t0, 2), "violations": len(real)}
        tmp = os.path.join(evdir, prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(evdir, prop + ".json"))
    for k, d in sorted(findings.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, d, k))
    if real:
        rd = os.path.join(evdir, "replay"); os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(real[:12]):
            path = os.path.join(rd, "%s-%d.json" % (prop, n))
            json.dump({"property": prop, "seed": seed, "tier": tier, "flavor": v["flavor"], "workload": v["workload"], "case": v["case"], "key": v["key"], "detail": v["detail"], "err": v.get("err", "")}, open(path, "w"), indent=1)
            print("  key=%s workload=%s case=%s flavor=%s: %s" % (v["key"], v["workload"], v["case"], v["flavor"], v["detail"][:700]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if inconclusive:
        print("NO-ANSWER property=%s %s" % (prop, "; ".join(inconclusive[:4])))
        sys.exit(2)
    print("OK property=%s cases=%d evaluations=%d distinct=%d build=%.0fs wall=%.0fs" % (prop, cov["cases"], cov["evaluations"], len(states), build_s, time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
