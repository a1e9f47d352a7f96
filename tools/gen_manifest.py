#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.registry import CHECKS, TECH
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
p = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(p): NA = json.load(open(p))
checks, na = [], []
for q in props:
    i = q["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
            evidence_file="evidence/%s.json" % i,
            technique=TECH.get(i, "property-based testing: structured random generation with shrinking against an independent oracle"),
            level="exploration",
            level_note="Random exploration with a fixed number of generated cases per sub-check (counts, non-trivial rule and samples in the evidence file); "
            "trusts the independent oracle in /verif/checks and /verif/gen, Eigen, the compiler and floating-point tolerances of a few hundred ulp. "
            "It does not prove the property."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check registered yet.")))
M = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="Every check compiles the needed sources of /repo's working tree into /verif/_build/<id> and runs a generated-input search (engine/, gen/, checks/). No hooks in /repo.")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
