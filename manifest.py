#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os
from spec import SPEC, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in SPEC:
        s = SPEC[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": s.get("technique", "property-based testing (generated cases against a reference model)"),
            "level": s.get("level", "exploration"),
            "level_note": s["note"],
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "its check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks drive hound's exported API, its binaries and its HTTP handlers. Every check rebuilds from /repo's working tree; VERIF_SEED selects the generated cases."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not")
