#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS, NOT_APPLICABLE, HOOKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c.get("technique", "property-based testing against a reference model"),
                       "level": "exploration",
                       "level_note": c.get("note", "Random search over generated cases; nothing is shown about cases that were not generated.")
                       + ((" Assumes: " + "; ".join(c["assumptions"]) + ".") if c.get("assumptions") else "")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check is built for it yet.")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
