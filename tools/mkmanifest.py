#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plans import PLANS
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLANS:
        na.append({"property": i, "reason": "the specification does not cover this part yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": PLANS[i]["technique"],
        "level": "model_checking",
        "level_note": PLANS[i]["note"],
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specification in spec/, checked with TLC; the library is bound to it by replaying "
                    "specification-generated scenarios and by judging recorded calls with TLC. No hooks in /repo."},
          open(f"{HERE}/MANIFEST.json", "w"), indent=1)
