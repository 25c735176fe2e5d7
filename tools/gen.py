#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one file per area)."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(here + "/tools/props/*.json")):
    props += json.load(open(f))
ids = [p["id"] for p in props]
assert len(ids) == len(set(ids)), "duplicate ids"
checks, na = [], []
with open(here + "/properties.jsonl", "w") as o:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        o.write(json.dumps(q, ensure_ascii=False) + "\n")
        if "na" in p:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": "./run.sh " + p["id"],
                           "thorough_cmd": "./run.sh " + p["id"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "All checks run one analyzer (analyzer/, Go, built from the vendored-in-cache x/tools SSA) over /repo's working tree; nothing of /repo is executed. See DESIGN.md."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
