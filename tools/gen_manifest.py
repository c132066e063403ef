#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i} --tier quick",
            "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
            "technique": s.get("technique", "model checking: exhaustive enumeration of operation "
                               "histories on the real code, compared with a reference model"),
            "level": "model_checking",
            "level_note": s.get("note", "") or (
                "Complete within the stated bounds; trusts the reference model in the harness, the "
                "compiler, and the stand-ins for LLNL-Units and TBB in env/. Bounds: "
                + (s["bounds"]["quick"] if isinstance(s["bounds"], dict) else s["bounds"])),
        })
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses compile /repo's sources as they are, against stand-in "
              "headers for TBB and LLNL-Units in env/."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
