#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tool/props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H); sys.dont_write_bytecode = True
from props import P, NA, LEVEL
with open(V + "/properties.jsonl", "w") as f:
    for p in P + NA:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = {"version": 1, "setup_cmd": "python3 sa/facts.py --build",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": p["technique"], "level": p.get("level", LEVEL), "level_note": p["note"]} for p in P],
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
