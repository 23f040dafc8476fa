#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf.registry import CHECKS, NOTES, TECHNIQUE   # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl")) if x.strip()]
checks = []
missing = []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        missing.append({"property": i, "reason": "No check has been built for it yet."})
        continue
    checks.append({"property": i,
                   "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": TECHNIQUE[i],
                   "level": "model_checking",
                   "level_note": NOTES[i]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": missing,
     "notes": "TLA+ specification in spec/, judged by TLC; drivers of the library in drv/; DESIGN.md explains."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
