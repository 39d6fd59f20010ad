"""Writes MANIFEST.json.  A property is claimed when checks/<id>.py exists and CLAIM has its note."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIM:
        tech, note = CLAIM[i]
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {i}",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not claimed: its check is not built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks: the checks execute /repo's source symbolically without changing it."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
