#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i, "technique": PLAN[i].get("technique", "property-based testing: seeded structured generators, independent oracle, shrinking"),
                       "level": PLAN[i].get("level", "exploration"), "level_note": NOTES.get(i, NOTES[""])})
    else: na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Every check builds the library from /repo's working tree with clang (ASan+UBSan, or coverage counters) in /verif/.build. VERIF_TIER=thorough runs the same search with roughly ten times the cases and larger inputs. See DESIGN.md; known_findings.txt lists the defects repaired by the fix: commits."},
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
