#!/usr/bin/env python3
"""Adds the sizes in evidence/*.json to sizes.json (for DESIGN.md)."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = R + "/tools/sizes.json"
t = json.load(open(f)) if os.path.exists(f) else {}
for e in glob.glob(R + "/evidence/*.json"):
    d = json.load(open(e)); c = d["coverage"]
    if d.get("violations"): continue
    t[d["property"] + " " + d["tier"]] = [d["property"], d["level"], d["tier"], c.get("evaluations", ""), c.get("distinct_nontrivial", ""), c.get("states", ""), c.get("transitions", ""), round(d["wall_s"], 1)]
json.dump(t, open(f, "w"), indent=0, sort_keys=True)
