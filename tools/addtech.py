#!/usr/bin/env python3
"""addtech.py ID 'technique' 'level note' - register a check; addtech.py NA ID 'reason'"""
import json, sys, os, subprocess
H = os.path.dirname(os.path.abspath(__file__))
p = H + "/techniques.json"; t = json.load(open(p))
if sys.argv[1] == "NA":
    t.setdefault("NA", {})[sys.argv[2]] = sys.argv[3]; t.pop(sys.argv[2], None)
else:
    t[sys.argv[1]] = [sys.argv[2], sys.argv[3]]; t.get("NA", {}).pop(sys.argv[1], None)
json.dump(t, open(p, "w"), indent=1)
subprocess.check_call([sys.executable, H + "/mkprops.py"]); subprocess.check_call([sys.executable, H + "/mkmanifest.py"])
subprocess.check_call([sys.executable, H + "/mkdesign.py"])
