#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/config.py and properties.jsonl."""
import sys, os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(ROOT, "sim"))
from config import CONFIG
NA = "A pure function of its arguments: no schedule, clock, fault, allocation or object history enters the statement, so a simulator has nothing to decide; it would only be input generation in simulator vocabulary."
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 sim/build.py sim asan gomp", "checks": [], "not_applicable": []}
for p in props:
    if p in CONFIG:
        c = CONFIG[p]; m["checks"].append({"property": p, "quick_cmd": "python3 sim/check.py %s" % p, "thorough_cmd": "python3 sim/check.py %s --tier thorough" % p, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else: m["not_applicable"].append({"property": p, "reason": NA if p >= "C30" else "The check is not registered yet (work in progress)."})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
