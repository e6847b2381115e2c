#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the reasons below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS, LEVEL_NOTES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded random search over schedules and faults of the "
                         "real code, decided by " + PROPS[i].get("oracle", "a serializability/opacity check of the recorded history "
                         "against a small executable reference model"),
            "level": "exploration", "level_note": LEVEL_NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "the simulation of this part is not built yet")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
