#!/usr/bin/env python3
"""fills the tables of DESIGN.md from props.py, known_findings.txt and seeded/; run with the template DESIGN.tmpl.md"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NOT_APPLICABLE
t = open(V + "/tools/DESIGN.tmpl.md").read()
rows = [f'| {i} | {c["level"]} | {c["note"]} Assumes: {"; ".join(c["assumptions"])}. | {c.get("bounded", "")} |' for i, c in sorted(PROPS.items())]
t = t.replace("@@TABLE@@", "\n".join(rows))
t = t.replace("@@NA@@", "\n".join(f"* **{i}** {r}" for i, r in sorted(NOT_APPLICABLE.items())))
fx = []
for l in open(V + "/known_findings.txt"):
    if l.startswith("fixed:"):
        _, p, c, d = l.strip().split(" ", 3)
        fx.append(f'* {p.split("=")[1]} `{c}` – {d}')
t = t.replace("@@FIXED@@", "\n".join(fx))
caught = json.load(open(V + "/seeds_src/caught.json")) if os.path.exists(V + "/seeds_src/caught.json") else {}
sd = ["| seed | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    sd.append(f'| {n} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} | {caught.get(n, "not run yet")} |')
t = t.replace("@@SEEDS@@", "\n".join(sd))
open(V + "/DESIGN.md", "w").write(t)
