#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
TECHNIQUE = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "harness", "checks", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": "./check.sh %s --tier quick" % pid,
                       "thorough_cmd": "./check.sh %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": TECHNIQUE[pid],
                       "level": "exploration", "level_note": NOTES[pid]})
    else:
        missing.append({"property": pid, "reason": "check not built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./check.sh --selftest", "checks": checks, "not_applicable": missing}, f, indent=1)
    f.write("\n")
