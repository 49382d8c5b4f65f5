#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the list of properties."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c.get("technique", "runtime monitoring: reference-model oracle over seeded workloads under ASan+UBSan"),
                       "level": c.get("level", "exploration"),
                       "level_note": c.get("note", "No violation on any execution explored; says nothing about inputs not run. Trusts the harness's independent reference model, clang 18 and its sanitizers.")})
    else:
        na.append({"property": i, "reason": "The check is not built yet."})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: every monitor observes the public API. See DESIGN.md."}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
