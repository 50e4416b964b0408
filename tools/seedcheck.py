#!/usr/bin/env python3
"""Development tool: runs each planted bug's own check against /repo with the bug applied, and undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
assert not sh("git -C /repo status --porcelain").stdout
for sid in sorted(os.listdir(V + "/seeded")):
    if len(sys.argv) > 1 and not any(sid.startswith(a) for a in sys.argv[1:]): continue
    pid = json.load(open(f"{V}/seeded/{sid}/meta.json"))["property"]
    try:
        a = sh(f"git -C /repo apply {V}/seeded/{sid}/patch.diff"); assert a.returncode == 0, a.stderr
        t = time.time()
        r = sh(f"cd {V}; VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py {pid}")
    finally:
        sh("git -C /repo checkout -- .")
    f = V + "/tools/seed_results.json"; d = json.load(open(f)) if os.path.exists(f) else {}
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    print(f"{'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {sid} {pid} rc={r.returncode} {time.time()-t:.0f}s {v}", flush=True)
    d[sid] = ("caught" + (" (proof only, no failing input)" if "no-failing-input" in v[0] else " (failing input)")) if r.returncode == 1 and v else "missed"
    json.dump(d, open(f, "w"), indent=1, sort_keys=True)
    if not v: print(r.stdout[-600:], r.stderr[-300:])
