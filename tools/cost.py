#!/usr/bin/env python3
"""Collects the cost of the last quick runs from evidence/."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "tools", "cost.json")
d = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(os.path.join(R, "evidence", "???.json")):
    e = json.load(open(f))
    if e["tier"] == "quick" and not e["violations"]:
        c = e["coverage"]
        d[e["property"]] = dict(paths=c["paths_explored"], queries=c["solver_queries"], assertions=c["assertions_checked"], wall=e["wall_s"])
json.dump(d, open(p, "w"), indent=1, sort_keys=True)
