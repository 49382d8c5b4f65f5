# Writes DESIGN.md from design_head.md, design_props.py, design_tail.md, the registered checks, the seeded bugs and mutants.txt.
import json, os, re, sys, collections
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS
from design_props import D
T = os.path.join(ROOT, "tools")
props = {p["id"]: p for p in map(json.loads, open(os.path.join(ROOT, "properties.jsonl")))}
cost = dict(l.split(None, 1) for l in open(os.path.join(T, "cost.txt"))) if os.path.exists(os.path.join(T, "cost.txt")) else {}
out = [open(os.path.join(T, "design_head.md")).read().rstrip(), "", "## 2. The properties, one by one", "",
       "*Monitored* is what the check runs and observes (the same text as the evidence file's `rule`); *oracle* what decides; *bounds*",
       "what is not explored or not claimed; *beyond tests* why execution under these monitors reaches what the tests cannot. *Cost* is",
       "the quick check on 8 cores, build included.", ""]
for i in sorted(props):
    o, b, w = D[i]; c = CHECKS[i]
    out += ["### %s %s" % (i, props[i]["title"]), "", props[i]["statement"], "",
            "* Monitored: " + c["rule"], "* Flavors: %s; thorough: %s." % (", ".join(c.get("flavors", ["asan", "opt"])), ", ".join(c.get("flavors_thorough", c.get("flavors", ["asan", "opt"])))),
            "* Oracle: " + o, "* Bounds: " + b, "* Beyond tests: " + w] + (["* Cost: " + cost[i].strip()] if i in cost else []) + [""]
out += [open(os.path.join(T, "design_tail.md")).read().rstrip(), ""]
out += ["## 6. Defects repaired", "", "Each is one `fix:` commit in /repo, found by the check named (details in `known_findings.txt`).", ""]
fx = collections.defaultdict(list)
for l in open(os.path.join(ROOT, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx[m[1]].append("%s (%s)" % (re.sub(r"^fix: ", "", m[3]), m[2][:8]))
for i in sorted(fx): out += ["* **%s** (%d): %s." % (i, len(fx[i]), "; ".join(fx[i]))]
kn = [re.match(r"finding: property=(\S+) key=(\S+) (.*)", l) for l in open(os.path.join(ROOT, "known_findings.txt"))]
out += ["", "Recorded, not repaired (reported as `KNOWN-FINDING` while it lasts; any other violation of the property is still an alarm):", ""] + ["* **%s** `%s`: %s." % m.groups() for m in kn if m]
out += ["", "## 7. Planted bugs", "", "Kept in `seeded/` (each with a demonstration; changed, built, passing the 156 tests):", "", "| bug | property | caught by | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    p = os.path.join(ROOT, "seeded", d, "meta.json")
    if os.path.exists(p):
        m = json.load(open(p)); out.append("| %s | %s | %s | %s |" % (d, m["property"], m.get("caught_by", m["property"]), m["needs"].replace("|", "\\|")))
M = os.path.join(T, "mutants.txt")
if os.path.exists(M): out += ["", open(M).read().rstrip()]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
