#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(f"{V}/contracts/props.json"))
ch = []
for pid, p in c["props"].items():
    e = {"property": pid, "quick_cmd": f"python3 tools/check.py {pid}", "thorough_cmd": f"python3 tools/check.py {pid} --thorough",
         "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]}
    if p["level"] == "proof" and p.get("theorems"):
        e["theorems"] = p["theorems"]
    ch.append(e)
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "hooks": {"guard": "none", "enable": "no hooks: the checks extract the sources of /repo and use its public API", "source_commits": []},
     "checks": ch, "not_applicable": c.get("not_applicable", []),
     "notes": "Contracts (contracts/*.sc) are spliced into the real sources by extract/ on every run and discharged by Verus; harness/ is the bounded stand-in and replay engine. See DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
