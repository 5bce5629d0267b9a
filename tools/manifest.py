#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks as C
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "python3 tools/check.py --replay FILE replays a violation; see DESIGN.md"}
for p in props:
    i = p["id"]
    if i in C.CHECKS:
        c = C.CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 tools/check.py " + i,
            "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
            "technique": c["technique"], "level": "exploration",
            "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": C.NOT_CLAIMED.get(
            i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
