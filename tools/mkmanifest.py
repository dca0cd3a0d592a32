#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per property that has checks/cNN.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for i in ids:
    p = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, p)) and i in T:
        checks.append({"property": i, "quick_cmd": "python3 " + p, "thorough_cmd": "VERIF_TIER=thorough python3 " + p,
                       "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": T.get(i, ["", "the specification does not cover it yet"])[1]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC; no hooks in /repo, the assembler is driven as its users drive it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
