#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(root + "/DESIGN.md").read()
ns = {}
exec(open(root + "/tools/props.py").read(), ns)
src = "".join(open(f"{root}/checker/{f}").read() for f in sorted(os.listdir(root + "/checker")) if f.startswith("rules"))
ex = {}
for m in re.finditer(r'register\("(\w+)",\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"', src):
    ex[m[1]] = m[3]
out = []
na = {n["property"]: n["reason"] for n in ns.get("NA", [])}
for p in sorted(ns["P"], key=lambda p: p["id"]):
    out.append(f"**{p['id']} {p['title']}.** {p['technique'][0].upper() + p['technique'][1:]}. {ex.get(p['id'], na.get(p['id'], ''))} Tests cannot settle it: {p['why']}.\n")
d = re.sub(r"<!-- table -->.*<!-- /table -->", lambda m: "<!-- table -->\n" + "\n".join(out) + "<!-- /table -->", d, flags=re.S)
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
res = {}
try:
    res = json.load(open(root + "/tools/seedresults.json"))
except FileNotFoundError:
    pass
for s in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {res.get(s, '')} |")
d = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", d, flags=re.S)
open(root + "/DESIGN.md", "w").write(d)
