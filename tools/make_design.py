#!/usr/bin/env python3
"""DESIGN.md = design_head.md + table of the planted bugs."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(HERE, "tools", "plant_results.json")))
txt = open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip() + "\n\n## Planted bugs\n\n"
txt += "Evaluated with `tools/plant.py` (quick tier, seed 1). `needs` is what the bug needs in order to manifest.\n\n"
txt += "| bug | property | what it breaks | needs | quick check |\n| --- | --- | --- | --- | --- |\n"
for bid in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", bid, "meta.json")))
    cell = [bid, meta["property"], meta["what_it_breaks"], meta["needs"], res.get(bid, "not run")]
    txt += "| " + " | ".join(c.replace("|", "\\|").replace("\n", " ") for c in cell) + " |\n"
open(os.path.join(HERE, "DESIGN.md"), "w").write(txt)
