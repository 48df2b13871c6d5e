#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
NA = []
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = NA + [(p, "check not built yet") for p in props if p not in PLAN and p not in dict(NA)]
m = {"version": 1, "setup_cmd": "python3 /verif/build.py",
     "checks": [{"property": p, "quick_cmd": "python3 /verif/check.py %s quick" % p,
                 "thorough_cmd": "python3 /verif/check.py %s thorough" % p,
                 "technique": "deterministic simulation with fault injection, seeded search",
                 "level": "exploration",
                 "level_note": "%d seeded runs of the real code over %d build variants in the quick tier, %d times that in the thorough one; not exhaustive" % (
                     sum(PLAN[p]["variants"].values()), len(PLAN[p]["variants"]), PLAN[p].get("thorough", 40)),
                 "evidence_file": "evidence/%s.json" % p} for p in sorted(PLAN)],
     "not_applicable": [{"property": p, "reason": r} for p, r in na]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
