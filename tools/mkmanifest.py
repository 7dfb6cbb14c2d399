#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS, NOTES
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "technique": CHECKS[i].get("technique", "TLA+ specification explored by TLC; every transition and random behaviours replayed into the real code"),
                            "level": "model_checking", "level_note": NOTES.get(i, NOTES["*"])})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
m["notes"] = "Specifications in specs/*.tla (TLA+, TLC); driver in harness/drive (Go, public API only, rebuilt from /repo each run); check.py runs TLC, replays, writes evidence. known_findings.txt lists repaired and recorded defects."
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
