#!/usr/bin/env python3
"""Regenerate MANIFEST.json from lib/suites.py and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "lib"))
from suites import SUITES
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SUITES:
        s = SUITES[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           technique=s["technique"], level=s["level"], level_note=s["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Every check enumerates executions of the real code of /repo's working tree (compiled through a build overlay) within stated bounds; no hooks in /repo.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(file=open(os.path.join(root, "MANIFEST.json"), "a"))
