#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py (run by hand when either changes)."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
with open("properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": [], "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks in /repo: harnesses use the public C++ classes and the R packages. Genuine defects: known_findings.json."}
for p in PROPS:
    if p["id"] not in CHECKS:
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
