#!/usr/bin/env python3
"""write MANIFEST.json from properties.jsonl, rules/ and the tables below"""
import json, os, importlib, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/engine", H + "/rules"]
sys.dont_write_bytecode = True
TECH = json.load(open(H + "/tools/techniques.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(H + "/rules/%s.py" % i) and i in TECH:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                       "technique": TECH[i][0], "level": "other", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": TECH.get("NA", {}).get(i, "No sound static rule has been built for it yet; it is not claimed.")})
m = {"version": 1, "setup_cmd": "python3 engine/driver.py", "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of the resolved program (clang libTooling facts from every library translation unit); see DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
