#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py (claimed = a checks/<id>.py exists)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import NA, PROPS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        d = {k: v for k, v in p.items() if k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(d) + "\n")
checks, na = [], [{"property": p["id"], "reason": p["reason"]} for p in NA]
for p in PROPS:
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "No check built yet."})
        continue
    mod = importlib.import_module("checks." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": "python3-vt check.py %s --tier quick" % pid,
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % pid,
        "technique": "static analysis: " + mod.TECHNIQUE,
        "level": "other",
        "level_note": p["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3-vt -c 'import ast, sys; sys.exit(0)'",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks parse /repo's current source on every run; nothing of OpenSfM is imported or executed.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks,", len(na), "not applicable")
