#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "drivers"))
import check
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTES = check.NOTES
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        cmd = "python3 drivers/check.py %s" % i
        checks.append({"property": i, "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough",
                       "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 drivers/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public library interface and the built tools. "
              "Known findings and repaired defects: known-findings.txt. The thorough tier is the same pipeline with larger bounds."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
