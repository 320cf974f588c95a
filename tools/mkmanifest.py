#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CLAIMED = json.load(open(os.path.join(V, "tools", "claims.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    c = CLAIMED["checks"].get(i)
    if c:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"],
                       "level": "model_checking", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": CLAIMED["not_applicable"].get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": CLAIMED["notes"]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
