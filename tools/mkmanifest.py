#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from check import CHECKS, META
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = META[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="its check is not finished yet"))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; drivers in harness/ replay and record behaviours of the code in /repo. "
               "No hooks in /repo are needed: the drivers use its public and protected interfaces and interpose clocks, mutexes and sockets at link time.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
