"""Writes the part of DESIGN.md on each property, from the checks' descriptions, their latest evidence, and the planted bugs."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(f"{HERE}/DESIGN.md").read()
head = text[: text.index("## Properties\n")]
seeds: dict = {}
for id in sorted(os.listdir(f"{HERE}/seeded")):
    meta = json.load(open(f"{HERE}/seeded/{id}/meta.json"))
    seeds.setdefault(meta["property"], []).append((id, meta["needs"]))
out = ["## Properties\n"]
for line in open(f"{HERE}/properties.jsonl"):
    p = json.loads(line)
    out.append(f"### {p['id']}: {p['title']}\n")
    doc = ast.get_docstring(ast.parse(open(f"{HERE}/mc/checks/{p['id'].lower()}.py").read())) or ""
    doc = doc.split("\n\n", 1)[1].replace("\n", " ")
    doc, _, assumed = doc.partition("Assumed:")
    out.append(doc.strip() + "\n")
    if assumed:
        out.append(f"Assumed: {assumed.strip()}\n")
    try:
        evidence = json.load(open(f"{HERE}/evidence/{p['id']}.json"))
        spaces = evidence["coverage"]["spaces"]
        out.append("Spaces of the quick check (states): " + "; ".join(f"{s['space']} ({s['states']})" + (f": {s['bounds']}" if s.get("bounds") and s["bounds"] != s["space"] else "") for s in spaces) + ".\n")
    except (OSError, KeyError):
        pass
    for a in evidence.get("assumptions", []) if not assumed else []:
        out.append(f"Assumed: {a}\n")
    if seeds.get(p["id"]):
        out.append("Planted bugs it catches: " + "; ".join(f"`{id}` ({needs})" for id, needs in seeds[p["id"]]) + ".\n")
open(f"{HERE}/DESIGN.md", "w").write(head + "\n".join(out))
