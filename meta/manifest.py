#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 meta/manifest.py)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
PBT = "property-based testing (hypothesis, stateful histories against a reference model, with shrinking)"
# property: (technique, level, note)
N = {}
exec(open(os.path.join(here, "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in N and os.path.exists(os.path.join(root, "checks", i.lower() + ".py")):
        t, lv, note = N[i]
        checks.append({"property": i, "quick_cmd": "python3-vt checks/%s.py" % i.lower(), "thorough_cmd": "VERIF_TIER=thorough python3-vt checks/%s.py" % i.lower(),
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lv, "level_note": note})
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash lib/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "not claimed")
