#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
sys.path.insert(0, os.path.join(root, "lib"))
from plan import PLAN
TECH = "TLA+ specification; TLC validates traces recorded from the library against it"
NOTE = ("TLC accepts every recorded call of every explored program as a step of the specification; "
        "programs are generated from the seed and by TLC from the specification, and run on the library built from "
        "/repo's working tree. Bounded exploration of the inputs, exact oracle on each. Trusts TLC, the driver's "
        "projection of Go values to exponent/coefficient lists, and gonum's mat package.")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in PLAN:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": PLAN[i].get("technique", TECH),
        "level": "model_checking",
        "level_note": PLAN[i].get("note", NOTE),
    })
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
