#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and what has been built."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + "/tools/techniques.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    t = T.get(i)
    if t and t.get("technique"):
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough", "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": (t or {}).get("reason", "monitor not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every property is stated on the public API (or, for the dimension traits, on the public module crates/cglinalg_core/src/constraint.rs compiled directly)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
