#!/usr/bin/env python3
"""Single source of MANIFEST.json.  CLAIMED: id -> (level, technique, note)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
ns = {}
exec(open(f"{ROOT}/tools/claimed.py").read(), ns)
CL, NA = ns["CLAIMED"], ns["NA"]
m = {"version": 1, "setup_cmd": "/verif/check.sh build", "checks": [], "not_applicable": []}
for i in ids:
    if i in CL:
        lvl, tech, note = CL[i]
        m["checks"].append({"property": i, "quick_cmd": f"/verif/check.sh {i} quick",
            "thorough_cmd": f"/verif/check.sh {i} thorough", "evidence_file": f"/verif/evidence/{i}.json",
            "technique": tech, "level": lvl, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
m["notes"] = "All checks explore the real library code built from /repo's working tree; see DESIGN.md."
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
