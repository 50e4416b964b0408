#!/usr/bin/env python3
"""check.py ID | --setup | --baseline

Decides one property on /repo's current tree:
 1. extracts the real source of the modules the property depends on, splices the
    contracts of /verif/contracts/*.sc into it and has Verus discharge every
    obligation (and, as a vacuity guard, fail an `assert(false)` behind every
    contract);
 2. runs the concrete harness (bounded stand-in and replay engine) against /repo.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: no answer.
"""
import fnmatch, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BM_REPO", "/repo")
BUILD = f"{V}/build"
HARNESS = f"{V}/harness"
EXTRACT = f"{V}/extract"
SHAPES = f"{V}/shapes"
CON = f"{V}/contracts"
EVID = f"{V}/evidence"

ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
ENV.setdefault("HOME", "/root")
for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)

CFG = json.load(open(f"{CON}/props.json"))
MODS = CFG["modules"]


def run(cmd, timeout, cwd=None, env=None, mem=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")


def tree_hash():
    h = hashlib.sha256()
    for pat in ("Cargo.toml", "src/**/*", "le/**/*"):
        for f in sorted(glob.glob(f"{REPO}/{pat}", recursive=True)):
            if os.path.isfile(f) and "/target/" not in f:
                h.update(f[len(REPO):].encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


# ------------------------------------------------------------------ building

def build_tool(d, name, dep_hash=None):
    """cargo build; returns (binary or None, log)."""
    binp = f"{d}/target/release/{name}"
    stamp = f"{d}/target/stamp.{name}"
    if dep_hash and os.path.exists(binp):
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != dep_hash:
            run(["cargo", "clean", "--release", "--offline", "-p", "bm", "-p", "bm-le", "-p", "bm-le-derive", "-p", name], 120, cwd=d)
    rc, o, e = run(["cargo", "build", "--release", "--offline"], 700, cwd=d)
    if rc != 0 or not os.path.exists(binp):
        return None, o + e
    if dep_hash:
        with open(stamp, "w") as f:
            f.write(dep_hash)
    return binp, ""


# ------------------------------------------------------------------- harness

def harness(pid, seed, tier, budget, timeout):
    """Returns dict: json (or None), hang/crash message, build log."""
    binp, log = build_tool(HARNESS, "bm-verif-harness", tree_hash())
    if not binp:
        return {"ok": False, "why": "the harness does not build against this tree", "log": log[-6000:]}
    cmd = [binp, pid, str(seed), tier, str(budget)]
    rc, o, e = run(cmd, timeout, mem=16 << 30)
    for line in o.splitlines():
        if line.startswith("{"):
            return {"ok": True, "json": json.loads(line), "cmd": " ".join(cmd)}
    if rc is None and "HANG" not in o:
        return {"ok": False, "why": f"the harness did not finish in {timeout} s", "log": e[-2000:]}
    if rc == 2:
        return {"ok": False, "why": "the harness failed", "log": e[-2000:]}
    # a case hangs, exhausts the stack or memory: find out which
    tr = f"{BUILD}/{pid}.case"
    os.makedirs(BUILD, exist_ok=True)
    env = dict(ENV); env["BM_TRACE"] = tr
    rc2, o2, e2 = run(cmd, timeout, env=env, mem=16 << 30)
    if rc2 in (0, 1, 2):
        return {"ok": False, "why": f"the harness ended with {rc} once and {rc2} the second time", "log": e[-2000:]}
    what = "does not return within 60 s" if "HANG" in o2 or rc2 is None else f"ends the process (status {rc2}: {e2.strip()[-300:]})"
    case = open(tr, errors="replace").read()[:4000] if os.path.exists(tr) else "?"
    return {"ok": True, "cmd": " ".join(cmd), "json": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "known": [],
            "violation": {"case": case, "message": what}, "wall_s": 0}}


# ------------------------------------------------------- derived code

_expand_lock = threading.Lock()


def expanded(name):
    """What the derive macros of this tree generate for module `name` of the
    shapes crate; returns (file or None, log)."""
    with _expand_lock:
        out = f"{SHAPES}/target/expanded.rs"
        stamp = f"{SHAPES}/target/stamp"
        h = tree_hash() + hashlib.sha256(b"".join(open(f, "rb").read() for f in sorted(glob.glob(f"{SHAPES}/src/*.rs")))).hexdigest()
        if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h):
            if os.path.exists(out):
                os.remove(out)
            if os.path.exists(stamp):
                run(["cargo", "clean", "--offline", "-p", "bm", "-p", "bm-le", "-p", "bm-le-derive", "-p", "bm-verif-shapes"], 120, cwd=SHAPES)
            env = dict(ENV)
            env["RUSTC_BOOTSTRAP"] = "1"
            rc, o, e = run(["cargo", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], 600, cwd=SHAPES, env=env)
            os.makedirs(os.path.dirname(stamp), exist_ok=True)
            with open(stamp, "w") as f:
                f.write(h)
            if rc != 0:
                return None, "the derived shapes do not compile: " + e[-2000:]
            with open(out, "w") as f:
                f.write(o)
            for m in re.finditer(r"^pub mod (\w+) \{\n(.*?)^\}", o, re.S | re.M):
                with open(f"{SHAPES}/target/{m.group(1)}.rs", "w") as f:
                    # the helper attribute has done its work
                    f.write(re.sub(r"#\[bm\(compact\)\]", "", m.group(2)))
        p = f"{SHAPES}/target/{name}.rs"
        if not os.path.exists(out) or not os.path.exists(p):
            return None, "the derived shapes do not expand"
        return p, ""


# --------------------------------------------------------------------- verus

def closure(mods):
    out = set()
    def add(m):
        if m not in out:
            out.add(m)
            for d in MODS[m].get("deps", []):
                add(d)
    for m in mods:
        add(m)
    return [m for m in MODS if m in out]


def extract(mods, d, vacuity=False):
    binp, log = build_tool(EXTRACT, "extract")
    if not binp:
        return None, "the extractor does not build: " + log[-2000:]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    lib = ["#![feature(allocator_api, sized_hierarchy)]", "#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_camel_case_types, non_snake_case)]", "extern crate alloc;", "extern crate self as bm;"]
    use = []
    reports = {}
    env = dict(ENV)
    env.pop("VACUITY", None)
    if vacuity:
        env["VACUITY"] = "1"
    for m in mods:
        c = MODS[m]
        if "src" in c:
            src = f"{REPO}/{c['src']}"
            if "expand" in c:
                src, why = expanded(c["expand"])
                if src is None:
                    return None, why
            rc, o, e = run([binp, src, f"{CON}/{m}.sc", f"{d}/{m}.rs", f"{d}/{m}.json"], 60, env=env)
            if rc != 0:
                return None, f"extraction of {c['src']} failed: {(o + e)[-1500:]}"
            reports[m] = json.load(open(f"{d}/{m}.json"))
        else:
            shutil.copy(f"{CON}/{m}.rs", f"{d}/{m}.rs")
        lib.append(f"pub mod {m};")
        if c.get("reexport"):
            use.append(c["reexport"])
    with open(f"{d}/lib.rs", "w") as f:
        f.write("\n".join(lib + use) + "\n")
    return reports, ""


def verus_cmd(extra=(), threads=8):
    return ["verus", "--crate-type", "lib", "--cfg", 'feature="std"', "lib.rs", "--output-json", "--time-expanded", "--num-threads", str(threads), "--error-format=json"] + CFG.get("verus_flags", []) + list(extra)


def verus(d, timeout=600, extra=(), threads=8):
    t = time.time()
    rc, o, e = run(verus_cmd(extra, threads), timeout, cwd=d)
    res = {"rc": rc, "wall": time.time() - t, "errors": [], "compile": None, "fns": {}, "verified": 0}
    if rc is None:
        res["compile"] = f"verus did not finish in {timeout} s"
        return res
    i = o.find("{")
    try:
        js = json.loads(o[i:]) if i >= 0 else {}
    except ValueError:
        js = {}
    vr = js.get("verification-results", {})
    if vr.get("is-verifying-entire-crate") is False:
        vr["success"] = rc == 0 and vr.get("errors", 0) == 0
    diags = []
    for line in e.splitlines():
        if line.startswith("{"):
            try:
                x = json.loads(line)
            except ValueError:
                continue
            if x.get("level") == "error":
                diags.append(x)
    if not vr or vr.get("encountered-vir-error") or "verified" not in vr or (not vr.get("success") and vr.get("errors", 0) == 0):
        res["compile"] = "\n".join(x.get("rendered") or x.get("message", "") for x in diags)[:6000] or e[-3000:] or "no result"
        return res
    res["verified"] = vr["verified"]
    res["n_errors"] = vr["errors"]
    for x in diags:
        spans = [(s["file_name"], s["line_start"], bool(s.get("is_primary"))) for s in x.get("spans", [])]
        if not spans:
            continue
        res["errors"].append({"message": x["message"], "spans": spans, "rendered": x.get("rendered") or ""})
    smt = js.get("times-ms", {}).get("smt", {})
    res["smt_ms"] = smt.get("smt-run", 0)
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            k = f["function"]
            r = res["fns"].setdefault(k, {"mode": f.get("mode:"), "ms": 0, "rlimit": 0, "success": True, "n": 0})
            r["ms"] += f["time"]; r["rlimit"] += f["rlimit"]; r["n"] += 1
            r["success"] = r["success"] and f["success"]
    if not diags and not vr.get("success"):
        res["compile"] = "verus reports failure without a diagnostic: " + e[-1500:]
    return res


def in_fn(reports, d, span):
    """The extracted function (module:key) or lemma a line belongs to."""
    f, line = os.path.basename(span[0]), span[1]
    m = f[:-3]
    if m in reports:
        best = None
        for x in reports[m]["fns"]:
            if x["out_start"] <= line <= x["out_end"]:
                if best is None or x["out_end"] - x["out_start"] < best["out_end"] - best["out_start"]:
                    best = x
        if best:
            return f"{m}:{best['fn']}", "exec"
    # a lemma: nearest preceding proof fn
    p = f"{d}/{f}"
    if os.path.exists(p):
        L = open(p).read().split("\n")
        for i in range(min(line, len(L)) - 1, -1, -1):
            g = re.match(r"\s*(?:pub )?(?:broadcast )?(?:open |closed )?(proof|spec|axiom|exec)?\s*fn (\w+)", L[i])
            if g and g.group(1) in ("proof", "spec"):
                return f"{m}:{g.group(2)}", "proof"
    return f"{m}:?", "?"


def errors_by_fn(reports, d, res):
    out = {}
    for x in res["errors"]:
        # the function whose obligation fails: prefer the span that is not a callee's contract
        sp = [s for s in x["spans"] if s[2]] + [s for s in x["spans"] if not s[2]]
        best = None
        if "precondition" in x["message"]:
            sp = [s for s in x["spans"] if s[2]] or sp
        for s in sp:
            if not os.path.exists(os.path.join(d, os.path.basename(s[0]))):
                continue
            k, kind = in_fn(reports, d, s)
            best = best or (k, s)
        if x["message"].startswith("postcondition"):
            # primary = the clause (maybe in a trait); the function is at the other span
            ks = [in_fn(reports, d, s)[0] for s in x["spans"]]
            own = [k for k in ks if not is_sig_only(reports, k)]
            if own:
                best = (own[0], x["spans"][0])
        k = best[0] if best else "?:?"
        out.setdefault(k, []).append(x)
    return out


def is_sig_only(reports, k):
    m, key = k.split(":", 1)
    return any(f["fn"] == key and f["sig_only"] for f in reports.get(m, {}).get("fns", []))


ASSUME = re.compile(r"\baxiom fn (\w+)|\bassume\s*\(|external_body|assume_specification\b[^\[]*\[\s*([^\]]*)\]|verifier::external\b|\buninterp spec fn (\w+)|\badmit\s*\(|global size_of")


def scan_assumptions(d, mods):
    out = []
    for m in mods:
        p = f"{d}/{m}.rs"
        L = open(p).read().split("\n")
        for i, l in enumerate(L):
            if l.strip().startswith("//"):
                continue
            if ASSUME.search(l):
                nxt = ""
                if "external" in l and not re.search(r"\b(fn|struct|impl|enum|trait)\b", l):
                    for j in range(i + 1, min(i + 6, len(L))):
                        if re.search(r"\b(fn|struct|impl|enum|trait|type|mod|use|const)\b", L[j]):
                            nxt = " " + L[j].strip()
                            break
                out.append(f"{m}.rs: {l.strip()[:160]}{nxt[:140]}")
    return out


def select(reports, pats):
    """fn keys (module:key) matching the patterns."""
    keys = [f"{m}:{f['fn']}" for m in reports for f in reports[m]["fns"] if not f["sig_only"]]
    out = []
    for p in pats:
        neg = p.startswith("!")
        g = p[1:] if neg else p
        hit = [k for k in keys if fnmatch.fnmatchcase(k, g)]
        if neg:
            out = [k for k in out if k not in hit]
        else:
            out += [k for k in hit if k not in out]
    return out


def shape(f):
    return [f["loops"], f["closures"]]


def second_attempt(d, d2, reports, again, fnres):
    """Verifies the failing functions alone, without loop isolation; returns
    those of which every obligation is then discharged."""
    shutil.rmtree(d2, ignore_errors=True)
    shutil.copytree(d, d2)
    with open(f"{d}/lib.rs") as f:
        lib = f.read()
    with open(f"{d2}/lib.rs", "w") as f:
        f.write("#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]\n" + lib)
    names = {}
    for k in again:
        m, key = k.split(":", 1)
        last = key.split("::")[-1]
        names[k] = [n for n, r in fnres.items() if not r["success"] and n.startswith(f"lib::{m}::") and n.split("::")[-1] == last]
    if not all(names.values()) or sum(len(v) for v in names.values()) > 6:
        return []
    todo = sorted({n for v in names.values() for n in v})
    good = {}
    def one(n):
        m, f = n.split("::", 2)[1:]
        for g in (f, "*" + f.split("::")[-1]):
            r = verus(d2, 240, ["--rlimit", "40", "--verify-only-module", m, "--verify-function", g], threads=2)
            if r["rc"] is None or not r["compile"]:
                break
        x = r["fns"].get(n, {})
        good[n] = not r["compile"] and x.get("success") is True and x["rlimit"] > 0
    ts = [threading.Thread(target=one, args=(n,)) for n in todo]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [k for k in again if all(good[n] for n in names[k])]


def prove(pid):
    """Runs the deductive part.  status: proved | failed | undecided | none"""
    P = CFG["props"][pid]
    if not P.get("modules"):
        return {"status": "none"}
    mods = closure(P["modules"])
    d = f"{BUILD}/{pid}/v"
    reports, why = extract(mods, d)
    out = {"modules": mods, "dir": d, "status": "undecided", "why": why, "failed": {}, "discharged": 0, "obligations": 0, "functions": []}
    if reports is None:
        return out
    dv = f"{BUILD}/{pid}/vac"
    vac = {}
    def vacuity():
        r, w = extract(mods, dv, vacuity=True)
        if r is None:
            vac["err"] = w
        else:
            vac["r"] = r
            vac["res"] = verus(dv)
    th = threading.Thread(target=vacuity)
    th.start()
    res = verus(d)
    th.join()
    base = json.load(open(f"{CON}/baseline.json")) if os.path.exists(f"{CON}/baseline.json") else {}
    need = [k for k in base.get(pid, {}).get("functions", [])]
    have = {f"{m}:{f['fn']}": f for m in reports for f in reports[m]["fns"]}
    out["rewrites"] = [f"{m}: {x}" for m in reports for x in reports[m]["rewrites"]]
    out["dropped"] = [f"{m}: {x}" for m in reports for x in reports[m]["dropped"]]
    out["missing_anchors"] = [f"{m}: {x}" for m in reports for x in reports[m]["missing_anchors"]]
    out["assumed_fns"] = [k for k, f in have.items() if f["assumed"]]
    out["assumptions"] = scan_assumptions(d, mods)
    out["wall"] = res["wall"]
    if res["compile"]:
        out["why"] = "the contracts no longer fit this source (or it uses what the verifier does not support): " + res["compile"][:3000]
        return out
    sel = [k for k in select(reports, P["fns"]) if not have[k]["assumed"]]
    lem = P.get("theorems", [])
    byfn = errors_by_fn(reports, d, res)
    fnres = res["fns"]
    out["functions"] = sel
    out["theorems"] = lem
    ex = set(sel)
    lemmas = [k for k, r in fnres.items() if r["mode"] == "proof"]
    out["n_lemmas"] = len(lemmas)
    # obligations: every verification query of the modules the property rests on
    out["obligations"] = sum(r["n"] for r in fnres.values())
    out["discharged"] = sum(r["n"] for r in fnres.values() if r["success"])
    out["smt_ms"] = res.get("smt_ms", 0)
    out["slowest"] = [[k.replace("lib::", ""), r["ms"]] for k, r in sorted(fnres.items(), key=lambda kv: -kv[1]["ms"])[:5]]
    missing = [k for k in need if k not in have or have[k]["assumed"]]
    lnames = {k.split("::", 1)[1] for k in fnres}
    missing += [t for t in lem if t not in lnames]
    if missing:
        out["why"] = "functions or theorems no longer found: " + ", ".join(missing[:10])
        return out
    if not sel or out["obligations"] == 0:
        out["why"] = "no obligations were generated"
        return out
    # vacuity guard: assert(false) behind each contract must fail
    if "res" in vac and not vac["res"]["compile"]:
        dead = []
        hit = set()
        for x in vac["res"]["errors"]:
            for s in x["spans"]:
                k, _ = in_fn(vac["r"], dv, s)
                p = os.path.join(dv, os.path.basename(s[0]))
                if os.path.exists(p):
                    L = open(p).read().split("\n")
                    if 0 < s[1] <= len(L) and "// vacuity probe" in L[s[1] - 1]:
                        hit.add(k)
        probed = [f"{m}:{f['fn']}" for m in vac["r"] for f in vac["r"][m]["fns"] if f["annotated"] and not f["sig_only"] and not f["assumed"]]
        dead = [k for k in probed if k in ex and k not in hit]
        out["vacuity_probed"] = len([k for k in probed if k in ex])
        out["vacuity_dead"] = dead
        if dead:
            out["why"] = "contradictory preconditions (assert(false) was accepted) in " + ", ".join(dead)
            return out
    else:
        out["vacuity_probed"] = 0
        out["vacuity_note"] = vac.get("err") or vac["res"]["compile"][:500]
    # failures that concern this property
    other = {}
    hard, soft = {}, {}
    for k, xs in byfn.items():
        m = k.split(":")[0]
        concerns = k in ex or m not in reports or k.endswith(":?")
        if not concerns:
            other[k] = xs
            continue
        reason = None
        for x in xs:
            if "rlimit" in x["message"] or "Resource limit" in x["message"] or "timeout" in x["message"].lower():
                reason = "resource limit"
        bfn = base.get("_shape", {}).get(k)
        if m in reports and k in have and bfn is not None and bfn != shape(have[k]):
            reason = reason or "its loops or closures changed, so the invariants do not apply"
        if m in reports:
            new = [f["fn"] for f in reports[m]["fns"] if f"{m}:{f['fn']}" not in base.get("_shape", {})]
            if new:
                reason = reason or f"it may call functions without a contract: {', '.join(new[:3])}"
            if any(a for a in out["missing_anchors"] if a.startswith(m + ": ") and have.get(k, {}).get("fn", "#") in a):
                reason = reason or "a proof anchor is lost"
        if m not in reports:
            reason = reason or "a lemma failed (independent of the source)"
        (soft if reason else hard)[k] = (reason, xs)
    # Second attempt at what failed: the same obligations of the same functions,
    # with each loop verified in the context of the code before it (Verus:
    # loop_isolation(false)), so that what the code before a loop establishes about
    # a local that the invariants do not know is not lost.
    again = {k: v for part in (hard, soft) for k, v in part.items() if k in have}
    if again and not [k for k in hard if k not in have]:
        w0 = time.time()
        settled = second_attempt(d, f"{BUILD}/{pid}/v2", reports, again, fnres)
        for k in settled:
            hard.pop(k, None)
            soft.pop(k, None)
        out["second_attempt"] = {"tried": list(again), "discharged": settled, "wall_s": round(time.time() - w0, 1)}
        if not soft and not hard and not other:
            out["discharged"] = out["obligations"]
    # "possibly missing functions" elsewhere do not concern this property
    out["other_failures"] = list(other)
    if hard:
        out["status"] = "failed"
        out["failed"] = {k: [x["rendered"] or x["message"] for x in xs] for k, (_, xs) in hard.items()}
        return out
    if soft:
        out["why"] = "; ".join(f"{k}: {r}" for k, (r, _) in soft.items())
        out["undischarged"] = {k: [x["message"] for x in xs] for k, (_, xs) in soft.items()}
        return out
    out["status"] = "proved"
    return out


def known_findings(pid):
    out = {}
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            g = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if g and g.group(1) == pid:
                out[g.group(2)] = g.group(3)
    return out


def main(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
    P = CFG["props"][pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    for f in (f"{EVID}/{pid}.replay.txt",):
        if os.path.exists(f):
            os.remove(f)
    hres = {}
    def do_h():
        hres.update(harness(pid, seed, tier, 90 if tier == "quick" else 1200, 240 if tier == "quick" else 3000))
    th = threading.Thread(target=do_h)
    th.start()
    pr = prove(pid)
    th.join()
    kani = None
    if pr["status"] == "failed" and hres.get("ok") and not hres["json"]["violation"] and tier == "quick":
        # an obligation fails: look harder for the input that shows it
        for s in (seed + 1000, seed + 2000):
            h2 = harness(pid, s, "thorough", 100, 200)
            if h2.get("ok") and h2["json"]["violation"]:
                hres = h2
                break
    vio = None
    lines = []
    h = hres.get("json") if hres.get("ok") else None
    known = known_findings(pid)
    if h:
        for k in h.get("known", []):
            if k["reproduced"]:
                if k["key"] in known:
                    lines.append(f"KNOWN-FINDING: property={pid} {k['key']}: {known[k['key']]}")
                else:
                    vio = {"case": k["key"], "message": k["message"]}
        if h["violation"]:
            vio = h["violation"]
    replay = f"{EVID}/{pid}.replay.txt"
    head = f"property {pid}: {P.get('title', '')}\ntree {tree_hash()}\n\n"
    ver = ""
    if pr["status"] == "failed":
        ver = "Failed obligations (Verus), by function of the real source:\n" + "".join(f"\n== {k}\n" + "\n".join(xs) for k, xs in pr["failed"].items())
    elif pr["status"] == "undecided":
        ver = "The deductive part gives no answer on this tree: " + pr["why"] + "\n" + json.dumps(pr.get("undischarged", {}), indent=1)
    code = 0
    if vio:
        with open(replay, "w") as f:
            f.write(head + f"Failing input, on the real code (built from {REPO}):\n  replay: cd {HARNESS} && cargo build --release --offline && {hres['cmd']}\n  case: {vio['case']}\n  what happens: {vio['message']}\n\n" + ver)
        lines.append(f"VIOLATION property={pid} replay={os.path.relpath(replay, V)}")
        code = 1
    elif pr["status"] == "failed":
        with open(replay, "w") as f:
            f.write(head + "No failing input was found by the bounded search; " + ver)
        lines.append(f"failed obligations in: {', '.join(pr['failed'])}")
        lines.append(f"VIOLATION property={pid} replay={os.path.relpath(replay, V)} no-failing-input-found")
        code = 1
    elif not h:
        lines.append(f"NO ANSWER for {pid}: {hres.get('why')}; deductive part: {pr['status']}")
        lines.append(hres.get("log", "")[-3000:])
        code = 0 if pr["status"] == "proved" and not P.get("bounded") else 2
    if pr["status"] == "undecided":
        lines.append(f"UNDECIDED {pid}: the proof could not be redone ({pr['why'][:1500]}); this run rests on the bounded stand-in alone")
    # evidence
    level = P["level"]
    if level == "proof" and pr["status"] not in ("proved", "failed"):
        level = "exploration"
    cov = {}
    if h:
        cov.update(evaluations=h["evaluations"], distinct_nontrivial=h["distinct_nontrivial"], rule=h["rule"], samples=[s[:1500] for s in h["samples"]],
                   harness_wall_s=h["wall_s"], harness_cmd=hres.get("cmd", ""))
    if pr["status"] != "none":
        cov.update(
            verdict_of_proof=pr["status"],
            obligations=pr["obligations"], discharged=pr["discharged"],
            checker_cmd=f"{EXTRACT}/target/release/extract on {', '.join(MODS[m]['src'] for m in pr['modules'] if 'src' in MODS[m])}; then, in {BUILD}/{pid}/v: " + " ".join(verus_cmd()),
            trusted_base=CFG["trusted_base"] + pr.get("assumptions", []),
            back_end="Verus 0.2026.09.13 / Z3",
            functions_under_contract=pr.get("functions", []), theorems=pr.get("theorems", []), lemmas=pr.get("n_lemmas", 0),
            functions_assumed=pr.get("assumed_fns", []),
            solver_time_s=round(pr.get("smt_ms", 0) / 1000, 2), verifier_wall_s=round(pr.get("wall", 0), 2), slowest_ms=pr.get("slowest", []),
            vacuity_probes=pr.get("vacuity_probed", 0),
            extraction_rewrites=pr.get("rewrites", []), extraction_dropped=pr.get("dropped", []), lost_anchors=pr.get("missing_anchors", []),
            other_failing_functions=pr.get("other_failures", []),
            **({"second_attempt_without_loop_isolation": pr["second_attempt"]} if pr.get("second_attempt") else {}),
        )
        if pr["status"] != "proved":
            cov["undecided_or_failed"] = pr.get("why") or list(pr["failed"])
    if P.get("bounded"):
        cov["bounded_only"] = P["bounded"]
    if not cov:
        cov["explanation"] = "no part of the check ran"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": CFG["assumptions"] + P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if code == 1 else 0}
    with open(f"{EVID}/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(f"{BUILD}/{pid}", ignore_errors=True) if code == 0 and not os.environ.get("KEEP") else None
    lines.insert(0, f"{pid}: proof {pr['status']} ({pr.get('discharged', 0)}/{pr.get('obligations', 0)} obligations, {len(pr.get('functions', []))} functions), harness {'-' if not h else str(h['evaluations']) + ' cases'}, {time.time() - t0:.1f} s")
    print("\n".join(x for x in lines if x))
    return code


def setup():
    t = time.time()
    b, log = build_tool(EXTRACT, "extract")
    if not b:
        print(log); return 1
    b, log = build_tool(HARNESS, "bm-verif-harness", tree_hash())
    if not b:
        print(log); return 1
    src, log = expanded("values")
    if src is None:
        print(log)
    print(f"setup done in {time.time() - t:.0f} s")
    return 0


def baseline():
    out = {"_shape": {}}
    for pid, P in CFG["props"].items():
        if not P.get("modules"):
            continue
        mods = closure(P["modules"])
        d = f"{BUILD}/base/{pid}"
        reports, why = extract(mods, d)
        assert reports is not None, why
        for m in reports:
            for f in reports[m]["fns"]:
                out["_shape"][f"{m}:{f['fn']}"] = shape(f)
        assumed = {f"{m}:{f['fn']}" for m in reports for f in reports[m]["fns"] if f["assumed"]}
        out[pid] = {"functions": [k for k in select(reports, P["fns"]) if k not in assumed]}
        print(pid, len(out[pid]["functions"]), [f"{m}: {x}" for m in reports for x in reports[m]["missing_anchors"]])
    json.dump(out, open(f"{CON}/baseline.json", "w"), indent=0, sort_keys=True)
    shutil.rmtree(f"{BUILD}/base", ignore_errors=True)
    return 0


if __name__ == "__main__":
    a = sys.argv[1]
    sys.exit(setup() if a == "--setup" else baseline() if a == "--baseline" else main(a))
