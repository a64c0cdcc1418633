#!/usr/bin/env python3
"""Writes MANIFEST.json from the props modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = json.load(open(os.path.join(HERE, "techniques.json")))
checks = []
missing = []
for i in range(1, 21):
    pid = "C%02d" % i
    if os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")) and pid in TECH:
        checks.append({"property": pid, "quick_cmd": "./check.py %s --tier quick" % pid,
                       "thorough_cmd": "./check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": TECH[pid]["technique"], "level": "exploration",
                       "level_note": TECH[pid]["note"]})
    else:
        missing.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -c 'print(\"nothing to build: the checks import the code from /repo/src\")'",
     "checks": checks, "not_applicable": missing}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
