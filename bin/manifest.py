#!/usr/bin/env python3
"""Source of MANIFEST.json: every property with an entry in specs.py is claimed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from specs import SPECS
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    s = SPECS.get(i)
    if not s:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": s.get("technique", "stateless model checking of the real code: exhaustive enumeration against a reference model"),
                   "level": s["level"],
                   "level_note": s.get("note") or ("Bounds: " + s["bounds"]["quick"] + ".")})
json.dump({"version": 1, "setup_cmd": "python3 bin/check.py --build", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
