#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]; c = os.path.join(V, "checks", i, "check.json")
    if os.path.exists(c):
        cfg = json.load(open(c))
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": "property-based testing: " + cfg["technique"], "level": "exploration",
                       "level_note": cfg.get("level_note", "Generated-input search against an explicit oracle, with shrinking; no claim beyond the explored cases.")})
    else: na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "All harness sources are in /verif/checks and /verif/lib; run.py builds them against /repo's working tree on every run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
