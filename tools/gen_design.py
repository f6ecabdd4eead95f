"""puts DESIGN.md together: head, one section per property (prose below, bounds from the checks), findings, planted bugs"""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROSE = {}
exec(open(os.path.join(V, "tools", "design_prose.py")).read())
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip() + "\n"]
na = {d["property"]: d["reason"] for d in json.load(open(os.path.join(V, "MANIFEST.json")))["not_applicable"]}


def lit(n):
    try:
        return ast.literal_eval(n)
    except ValueError:
        return None


for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in na:
        out.append(f"Not applicable: {na[i]}.\n")
        continue
    out.append(PROSE[i].strip() + "\n")
    c, hs = {}, []
    for s in ast.parse(open(os.path.join(V, "checks", i + ".py")).read()).body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            c[s.targets[0].id] = lit(s.value)
        if isinstance(s, ast.FunctionDef):
            for d in s.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                    hs.append((s.name, next((lit(k.value) for k in d.keywords if k.arg == "bounds"), "")))
    out.append("Bounds:\n" + "".join(f"- `{n}`: {b}\n" for n, b in hs))
    if c.get("ASSUMPTIONS"):
        out.append("Assumed: " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
    out.append(f"Outside: {c.get('OUTSIDE', '')}.\n")
    e = os.path.join(V, "tools", "costs.json")
    if os.path.exists(e):
        k = json.load(open(e)).get(i)
        if k:
            out.append("Cost: " + "; ".join(f"{t}: {v}" for t, v in k.items()) + ".\n")

out.append(open(os.path.join(V, "tools", "design_tail.md")).read().rstrip() + "\n")
rows = []
mx = {}
m = os.path.join(V, "tools", "matrix.json")
if os.path.exists(m):
    mx = json.load(open(m))
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(d))
    j = json.load(open(d))
    rows.append(f"| {n} | {j['property']} | {j['needs']} | {', '.join(mx.get(n, [])) or 'not caught'} |\n")
out.append("| planted change | breaks | needs | caught by (quick) |\n|---|---|---|---|\n" + "".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
