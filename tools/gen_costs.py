"""costs.json from the evidence files of the last runs"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = {}
for i in range(1, 99):
    f = f"{R}/evidence/C{i:02}.json"
    if not os.path.exists(f): continue
    d = json.load(open(f)); c = d["coverage"]
    o[d["property"]] = f"measured, {d['tier']} tier: {round(d['wall_s'])} s, {c['obligations']} obligations, {c['solver_queries']} solver queries, {round(c['solver_s'])} s in the solver."
json.dump(o, open(R + "/tools/costs.json", "w"), indent=1)
