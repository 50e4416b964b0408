#!/usr/bin/env python3
"""Development tool: writes DESIGN.md from design.in.md, contracts/props.json, design_props.json and seed_results.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(V + "/contracts/props.json"))["props"]
txt = json.load(open(V + "/tools/design_props.json"))
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
out = []
for i in sorted(props):
    p = props[i]
    out.append(f"### {i} {p['title']} — level `{p['level']}`\n")
    if p["fns"]: out.append("*Functions under contract*: " + ", ".join("`%s`" % f for f in p["fns"]) + (". *Theorems over the contracts*: " + ", ".join("`%s`" % f for f in p["theorems"]) if p["theorems"] else "") + ".\n")
    for k, n in (("spec", "Proved"), ("bounded", "Bounded (harness, never counted as proved)"), ("reach", "Why this reaches what tests cannot"), ("gap", "Not covered by proof")):
        if txt.get(i, {}).get(k): out.append(f"*{n}*: {txt[i][k]}\n")
tab = ["| bug | property | needs | check's answer |", "|---|---|---|---|"]
for sid in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{sid}/meta.json"))
    tab.append(f"| {sid} | {m['property']} | {m['needs']} | {res.get(sid, 'not run')} |")
t = open(V + "/tools/design.in.md").read().replace("%TABLE%", "\n".join(out)).replace("%SEEDS%", "\n".join(tab))
open(V + "/DESIGN.md", "w").write(t)
