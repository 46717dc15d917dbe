#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        assert len(re.findall(r"[.](?= [A-Z]|$)", q["statement"])) <= 3, (q["id"], "at most three sentences")
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE or p.get("todo"):
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    })
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]
       + [{"property": p["id"], "reason": "the check is not built yet"} for p in PROPS if p.get("todo")]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
