#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
TECH = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc", "checks", i.lower() + ".py")):
        t = TECH.get(i, ["explicit-state exploration of the real code against a reference model", "bounded: see BOUNDS in mc/checks/%s.py" % i.lower()])
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
                           technique=t[0], level="model_checking", level_note=t[1]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo. Every check imports /repo's working tree directly (pure Python, nothing to build)."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
