#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the checks' own bounds, design_seeds (measured) and design_tail.md"""
import ast, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def strs(c):
    s = open(f"{R}/checks/{c.lower()}.py").read()
    for n in ast.walk(ast.parse(s)):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Check":
            d = {}
            for k in n.keywords:
                try: d[k.arg] = ast.literal_eval(k.value)
                except ValueError: d[k.arg] = strs("C07")[k.arg]
            return d
sys.path.insert(0, R + "/tools")
import claims
CAUGHT = json.load(open(R + '/tools/caught.json')) if os.path.exists(R + '/tools/caught.json') else {}
out = [open(R + "/tools/design_head.md").read(), "## Properties\n"]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); c = p["id"]; d = strs(c); t, n = claims.CLAIM[c]
    out.append(f"### {c} {p['title']}\n\n{p['statement']}\n\n*Decided by:* {t}. {d['explanation'][0].upper() + d['explanation'][1:]}.\n\n*Bounds:* {d['bounds_text']}.\n\n*Outside:* {d['outside']}.\n")
    f = f"{R}/tools/costs.json"
    if os.path.exists(f):
        k = json.load(open(f)).get(c)
        if k: out.append(f"*Cost:* {k}\n")
out.append("## Planted changes\n\nEach directory of `seeded/` and `seeded_more/` holds a change that breaks a property, keeps the stable tests passing, and its demonstration\n(those in `seeded_more/` were written in the same way and set aside to keep a full `vcheck` within its time).\nVerdicts are from runs of the checks (quick tier) on a tree with the change applied.\n\n| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" +
    "".join(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {CAUGHT.get(s, 'verdict not recorded here')} |\n" for D in ("seeded", "seeded_more") for s in sorted(os.listdir(f"{R}/{D}")) for m in [json.load(open(f"{R}/{D}/{s}/meta.json"))]))
f = R + "/tools/design_seeds.md"
if os.path.exists(f): out.append(open(f).read())
out.append(open(R + "/tools/design_tail.md").read())
open(R + "/DESIGN.md", "w").write("\n".join(out))
