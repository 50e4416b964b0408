#!/usr/bin/env python3
"""Development tool: plants the bugs of seeds.py (validates each in a scratch copy) into /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# run in the repository: builds the program beside this file against it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
w=$(mktemp -d) || exit 2
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
bm = { path = "$repo" }
%LE%
sha2 = "0.8"
generic-array = "0.12"
typenum = "1.10"
digest = "0.8"
primitive-types = "0.4"
EOF
cd "$w" || exit 2
cargo build --offline --target-dir "$w/target" > "$w/log" 2>&1 || { cat "$w/log"; exit 3; }
timeout 60 "$w/target/debug/demo"
'''
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def plant(s):
    sid = s["id"]
    d = f"{V}/seeded/{sid}"
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    sh(f"cp -a /repo {W}/repo")
    r = f"{W}/repo"
    for f, a, b in s["edits"]:
        p = f"{r}/{f}"; t = open(p).read()
        assert t.count(a) == 1, (sid, f, t.count(a))
        open(p, "w").write(t.replace(a, b))
    diff = sh("git diff -- . ':!Cargo.lock'", r).stdout
    assert diff
    os.makedirs(d, exist_ok=True)
    le = 'bm-le = { path = "$repo/le" }' if s.get("le") else ""
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO.replace("%LE%", le))
    open(f"{d}/main.rs", "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    b = sh(f". /opt/vp/env.sh; cd {r}; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1", r)
    failed = [l for l in b.stdout.split("\n") if "FAILED" in l or "panicked" in l or l.startswith("error")]
    ok = sum(int(l.split("ok. ")[1].split()[0]) for l in b.stdout.split("\n") if l.startswith("test result: ok."))
    c = sh(f"bash {d}/demo.sh", "/repo")
    e = sh(f"bash {d}/demo.sh", r)
    good = not failed and ok >= 22 and c.returncode == 0 and e.returncode not in (0, 2, 3)
    print(("GOOD " if good else "BAD  ") + sid, s["property"], "tests", ok, failed[:3], "clean", c.returncode, "bug", e.returncode, (e.stderr.strip() or e.stdout.strip())[-250:].replace("\n", " | "))
    if not good:
        if c.returncode: print(c.stdout[-1500:], c.stderr[-1500:])
        if e.returncode in (2, 3): print(e.stdout[-1500:])
        shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)
if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import seeds
    for s in seeds.SEEDS:
        if len(sys.argv) == 1 or any(s["id"].startswith(a) for a in sys.argv[1:]):
            plant(s)
