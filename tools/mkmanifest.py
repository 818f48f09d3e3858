#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vlib.registry import GROUPS, NOTES
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in GROUPS:
        tech, note = NOTES[GROUPS[i]]
        checks.append({"property": i, "quick_cmd": f"./run {i} quick", "thorough_cmd": f"./run {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking",
                       "level_note": note})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Specification language TLA+, checker TLC; see DESIGN.md. Without hooks: only the public "
                    "functions of the package are called."}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
