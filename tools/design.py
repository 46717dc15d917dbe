#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property, tools/design_tail.md,
and the table of planted bugs (results recorded in tools/planted.json)."""
import os, sys, json
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
r = open(os.path.join(here, "design_head.md")).read()
for p in PROPS:
    r += f"\n### {p['id']}: {p['title']}\n\n{p['design'].strip()}\n"
if NOT_APPLICABLE:
    r += "\n### Not applicable\n\n" + "".join(f"- {k}: {v}\n" for k, v in NOT_APPLICABLE.items())
r += "\n" + open(os.path.join(here, "design_tail.md")).read()
planted = json.load(open(os.path.join(here, "planted.json")))
r += "| property | planted bug | needs | caught |\n|---|---|---|---|\n"
for p in sorted(planted, key=lambda p: (p["property"], p["id"])):
    r += f"| {p['property']} | {p['id']} | {p['needs']} | {p['result']} |\n"
open(os.path.join(os.path.dirname(here), "DESIGN.md"), "w").write(r)
