#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    cmd = f"python3 check.py {i}"
    checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": f"evidence/{i}.json",
                   "technique": "TLA+ specification checked with TLC; conformance by TLC trace validation of recorded calls and replay of TLC-generated cases",
                   "level": "model_checking", "level_note": NOTES.get(i, NOTES["*"])})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is reached through the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
