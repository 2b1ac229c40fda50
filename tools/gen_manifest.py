#!/usr/bin/env python3
"""Write MANIFEST.json from dst/meta.py and the profiles."""
import json
import os
import re
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from dst.meta import META, NOT_APPLICABLE  # noqa: E402

claimed = re.findall(r'^    "(C\d\d)": \[', open(os.path.join(root, "dst", "registry.py")).read(), re.M)
checks = []
for p in sorted(claimed):
    meta = META[p]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
                   "technique": meta["technique"], "level": "exploration",
                   "level_note": f"Seeded search, not exhaustive: {meta['note']}. Assumes: " + "; ".join(meta["assumptions"]) + "."})
na = dict(NOT_APPLICABLE)
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in claimed and p not in na:
        na[p] = "Not claimed yet: its check is still being built."
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
       "not_applicable": [{"property": p, "reason": r} for p, r in sorted(na.items())],
       "notes": "No hooks in /repo: every seam is at the process boundary (dst/seams.py). Replay a violation with ./replay.sh FILE. "
                "Findings: KNOWN_FINDINGS.txt."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
