#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of claimed checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
claims = json.load(open(os.path.join(here, "claims.json")))
checks, na = [], []
for p in props:
    c = claims.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "no check registered yet"})
    elif "reason" in c:
        na.append({"property": p["id"], "reason": c["reason"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "ov", "enable": "no hook is committed to /repo: checks build with `go build -overlay` (overlay/gen.py instruments copies of Go's standard library files; tag ov is the harness's own)", "source_commits": []},
     "notes": "Every check is one run of check.sh, which rebuilds the harness against /repo's working tree."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
