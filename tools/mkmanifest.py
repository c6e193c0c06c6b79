#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "technique": c.get("technique", "model-based property testing with shrinking under ASan/UBSan"
                               + (", plus coverage-guided fuzzing in the thorough tier" if c.get("fuzz") else "")),
            "level": "exploration",
            "level_note": c.get("note", "Generated-input search against an explicit oracle; no claim beyond the explored cases."),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -c \"import checks\"", "checks": checks, "not_applicable": na,
     "notes": "Every check builds its harness from /repo's working tree; see DESIGN.md. Fixed and open findings: known-findings.json."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
