#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, NOT_APPLICABLE, TECHNIQUE, NOTE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": PLAN[i].get("technique", TECHNIQUE),
            "level": "model_checking",
            "level_note": PLAN[i].get("note", NOTE),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not covered yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Specification in TLA+ (spec/), checked with TLC; see DESIGN.md. No hooks in /repo are needed."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
