#!/usr/bin/env python3
"""writes DESIGN.md from the hand text, the properties, the checks' BOUNDS / ASSUMPTIONS and the findings"""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = os.path.join
TECH = json.load(open(J(ROOT, "tools", "techniques.json")))
NOTES = json.load(open(J(ROOT, "tools", "design_notes.json")))
COST = json.load(open(J(ROOT, "tools", "costs.json")))
out = [open(J(ROOT, "tools", "design_head.md")).read(), "## 3. Property by property\n"]
for line in open(J(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    t = ast.parse(open(J(ROOT, "mc", "checks", i.lower() + ".py")).read())
    v = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body
         if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS")}
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Method.* {TECH[i][0]}. ({TECH[i][1]}.)\n")
    out.append(f"*Enumerated.* {v['BOUNDS']}.\n")
    if v.get("ASSUMPTIONS"):
        out.append("*Assumptions.* " + "; ".join(v["ASSUMPTIONS"]) + ".\n")
    if i in NOTES:
        out.append("*Why beyond tests / notes.* " + NOTES[i] + "\n")
    c = COST.get(i, {})
    out.append("*Cost.* " + ", ".join(f"{k} about {c[k]} s" for k in ("quick", "thorough") if k in c) + " on 8 cores.\n")
F = json.load(open(J(ROOT, "known_findings.json")))["findings"]
out.append("## 4. Findings\n\n### Genuine defects recorded, not repaired\n")
for f in F:
    if f["status"] == "known":
        out.append(f"* **{f['id']}** ({f['property']}): {f['what']}.")
out.append("\n" + NOTES["known"] + "\n\n### Genuine defects repaired (`fix:` commits in /repo)\n")
seen = {}
for f in F:
    if f["status"] == "fixed":
        w = f["what"].split(f["commit"], 1)[1].strip()
        seen.setdefault((f["commit"], w), []).append(f["property"])
for (c, w), ps in seen.items():
    out.append(f"* {c} ({', '.join(ps)}): {w}")
out.append("\n" + open(J(ROOT, "tools", "design_tail.md")).read())
R = json.load(open(J(ROOT, "tools", "seed_results.json")))
out.append("\n## 7. Planted bugs\n\n" + NOTES["seeds"] + "\n\n| planted bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(J(ROOT, "seeded", "*"))):
    m = json.load(open(J(d, "meta.json")))
    n = os.path.basename(d)
    out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {R.get(n, 'not yet run')} |")
out.append("")
open(J(ROOT, "DESIGN.md"), "w").write("\n".join(out))
print(len("\n".join(out)), "characters")
