#!/usr/bin/env python3
"""Decides one property of frozen-collections by symbolic execution of the real code.

  check.py <property> [--tier quick|thorough] [--only <harness pattern>] [--keep-going]

Builds (a) the symbolic executor, (b) the LLVM IR of the harnesses + /repo's crates + std as rustc
produces it from /repo's current working tree, (c) the same harnesses natively; explores every path
of every harness of the property; replays each counterexample natively before reporting it.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no verdict (tool limit).
"""
import argparse, concurrent.futures, json, os, re, shutil, subprocess, sys, time
from pathlib import Path

V = Path(__file__).resolve().parent
B = V / "build"
EV = V / "evidence"
TOOL = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
PROPS = json.loads((V / "checks.json").read_text())

t_start = time.time()


def log(*a):
    print(f"[{time.time()-t_start:6.1f}s]", *a, file=sys.stderr, flush=True)


class NoVerdict(Exception):
    pass


class BuildFailed(NoVerdict):
    pass


def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
            e.pop(k)
    e.update(RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true", CONST_RANDOM_SEED="frozen-collections")
    e.update(extra or {})
    return e


def run(cmd, cwd, e, what, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode != 0:
        x = (BuildFailed if cmd[:2] == ["cargo", "build"] else NoVerdict)(f"{what} failed (exit {p.returncode}):\n" + p.stderr[-4000:])
        x.log = p.stderr
        for l in p.stdout.splitlines():  # rendered compiler messages
            if l.startswith("{"):
                m = json.loads(l)
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                    x.log += "\n" + (m["message"].get("rendered") or "")
        raise x
    return p.stdout


def seed_lock(crate):
    lock, base = V / crate / "Cargo.lock", V / crate / "Cargo.lock.base"
    if not lock.exists() and base.exists():
        shutil.copy(base, lock)


def build_engine():
    run(["cargo", "build", "--release", "--target-dir", str(B / "engine")], V / "engine", env(), "building the executor")
    return B / "engine/release/symex"


def build_ir(features, cfg):
    flags = "--emit=llvm-ir,link -Cno-vectorize-loops -Cno-vectorize-slp -Zmir-opt-level=2"
    x = {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": flags}
    if cfg == "release":
        x["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = "false"
        x["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = "false"
    td = B / f"ir-{cfg}"
    out = run(["cargo", "build", "--release", "-Zbuild-std=core,alloc,std,panic_abort", "--target", TRIPLE, "--features", ",".join(features), "--target-dir", str(td), "--message-format=json"],
              V / "harness", env(x), "building the LLVM IR")
    deps = td / TRIPLE / "release/deps"
    lls = []
    for line in out.splitlines():
        m = json.loads(line)
        if m.get("reason") != "compiler-artifact":
            continue
        if m["target"]["name"] == "fzh":
            c = sorted(deps.glob("fzh-*.ll"), key=lambda p: p.stat().st_mtime)
            if m.get("fresh") and len(c) > 1:
                # several feature sets were built here: pick the one belonging to the current rlib
                ino = os.stat(m["filenames"][0]).st_ino
                for r in deps.glob("libfzh-*.rlib"):
                    if os.stat(r).st_ino == ino:
                        c = [deps / (r.name[3:-5] + ".ll")]
            lls.append(c[-1])
            continue
        for f in m["filenames"]:
            f = Path(f)
            if f.suffix == ".rlib" and f.parent == deps:
                ll = deps / (f.name[3:-5] + ".ll")
                if ll.exists():
                    lls.append(ll)
    if not any(l.name.startswith("fzh-") for l in lls):
        raise NoVerdict("no IR for the harness crate")
    return sorted(set(lls))


def build_native(features):
    run(["cargo", "build", "--features", ",".join("fzh/" + f for f in features), "--target-dir", str(B / "native")], V / "replay", env(), "building the native replay")
    return B / "native/debug/fzreplay"


def build_native_release(features):
    run(["cargo", "build", "--release", "--features", ",".join("fzh/" + f for f in features), "--target-dir", str(B / "native")], V / "replay", env(), "building the native replay (release)")
    return B / "native/release/fzreplay"


def native(exe, harness, vals):
    try:
        p = subprocess.run([str(exe), "run", harness] + [str(v) for v in vals], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return {"result": "timeout", "obs": None}
    obs, res = None, None
    for l in p.stdout.splitlines():
        if l.startswith("OBS"):
            obs = [int(x) for x in l.split()[1:]]
        if l.startswith("RESULT "):
            res = l[7:]
    if res is None or p.returncode < 0:
        res = f"{res or 'crash'} signal {-p.returncode} {p.stderr.strip()[-300:]}"
    return {"result": res, "obs": obs}


def is_bad(res):
    return not (res.startswith("ok") or res.startswith("dropped") or res.startswith("expected_panic"))


def src_line(file, n):
    try:
        return (V / "harness" / file).read_text().splitlines()[n - 1].strip()
    except Exception:
        return ""


def demangle(names):
    pats = set()
    for n in names:
        segs, i = [], 2
        while i < len(n):
            m = re.match(r"([1-9][0-9]*)_?", n[i:])
            if m and len(segs) < 9:
                L = int(m.group(1))
                st = i + len(m.group(0))
                seg = n[st:st + L]
                if L > 1 and re.fullmatch(r"\w+", seg or ""):
                    segs.append(seg)
                i = st + L
            else:
                i += 1
        if "frozen_collections_core" in segs:
            segs = segs[segs.index("frozen_collections_core"):]
        pats.add("::".join(segs[:6]))
    return sorted(pats)


def rejected(pid, tier, seed, P, x):
    """The programs written with the macros and the emitter are part of the property: when /repo and every other
    harness compile and only they do not, they no longer mean what they say."""
    mark = ("c05_gen.rs", "gen/src/lib.rs", "harness/src/c05.rs") if pid == "C05" else (f"harness/src/{pid.lower()}.rs",)
    if not any(m in x.log for m in mark):
        raise x
    build_native(["c04"])  # /repo's crates and the harness infrastructure do compile
    rd = EV / "replays"
    rd.mkdir(parents=True, exist_ok=True)
    f = rd / f"{pid}-compile.json"
    f.write_text(json.dumps({"property": pid, "kind": "compile", "what": "a program written with the macros or emitted by the emitter is rejected", "log": x.log[-8000:],
                             "how": f"cd /verif/replay && cargo build --features {','.join('fzh/' + q for q in P['features'])}"}, indent=1))
    (EV / f"{pid}.json").write_text(json.dumps({
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": False, "bounds": P["bounds"],
                     "rejected_programs": x.log[-2000:]},
        "assumptions": [], "wall_s": round(time.time() - t_start, 1), "violations": 1}, indent=1))
    print(f"VIOLATION property={pid} replay={f}")
    print(x.log[-3000:])
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only")
    a = ap.parse_args()
    pid = a.prop
    P = PROPS[pid]
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    EV.mkdir(exist_ok=True)
    B.mkdir(exist_ok=True)
    feats = P["features"]
    for c in ("harness", "replay"):
        seed_lock(c)
    known = [k for k in json.loads((V / "known_findings.json").read_text())["findings"] if k["property"] == pid]

    cfgs = ["checked"] + (["release"] if tier == "thorough" else [])
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        fe = ex.submit(build_engine)
        fn = ex.submit(build_native, feats)
        fi = ex.submit(build_ir, feats, "checked")
        try:
            sx, nat, lls = fe.result(), fn.result(), {"checked": fi.result()}
        except BuildFailed as x:
            if not P.get("programs"):
                raise
            return rejected(pid, tier, seed, P, x)
    nat_rel = None
    if tier == "thorough":
        lls["release"] = build_ir(feats, "release")
        nat_rel = build_native_release(feats)
    log("built")

    table = {}
    for l in run([str(nat), "list"], V, env(), "listing harnesses").splitlines():
        n, f, d = l.split("\t")
        table[n] = (f, d)
    low = pid.lower()
    pats = [f"h_{low}_q_*"] + ([f"h_{low}_t_*"] if tier == "thorough" else [])
    if a.only:
        pats = [a.only]

    def match(n):
        return any(n == p or (p.endswith("*") and n.startswith(p[:-1])) for p in pats)

    want = [n for n in table if match(n)]
    if not want:
        raise NoVerdict("no harness selected")

    results, nover, viols = [], [], []
    for cfg in cfgs:
        out = B / f"out-{pid}-{cfg}.json"
        dump = B / f"dump-{pid}-{cfg}"
        shutil.rmtree(dump, ignore_errors=True)
        cmd = [str(sx)]
        for l in lls[cfg]:
            cmd += ["--ll", str(l)]
        cmd += ["--harness", ",".join(want), "--out", str(out), "--jobs", "8", "--keep", "16" if tier == "quick" else "40"]
        cmd += ["--max-secs", str(P.get("max_secs", 420) if tier == "quick" else P.get("max_secs_thorough", 3600))]
        if tier == "thorough":
            cmd += ["--dump", str(dump), "--max-steps", "20000000000", "--max-paths", "50000000"]
        log(f"exploring {len(want)} harnesses ({cfg})")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        sys.stderr.write(p.stderr)
        if p.returncode != 0:
            raise NoVerdict(f"executor failed (exit {p.returncode}): {p.stderr[-2000:]}")
        rs = json.loads(out.read_text())
        for r in rs:
            r["cfg"] = cfg
        results += rs

    # ---- verdicts --------------------------------------------------------------------------------
    exe_for = {"checked": nat, "release": nat_rel}
    validated, mism = 0, []
    samples = []
    for r in results:
        h, cfg = r["harness"], r["cfg"]
        f, d = table[h]
        for s in r["samples"]:
            vals = [v for _, v in s["inputs"]]
            n = native(exe_for[cfg], h, vals)
            good = n["result"].startswith("ok") if s["done"] else n["result"].startswith(("expected_panic", "ok"))
            if good and n["obs"] == s["obs"]:
                validated += 1
            else:
                mism.append((h, cfg, vals, s["obs"], n))
        if r["samples"] and len(samples) < 6:
            s = r["samples"][-1]
            samples.append({"harness": h, "bounds": d, "inputs": [v for _, v in s["inputs"]], "observed": s["obs"][:16]})
        for v in r["violations"]:
            vals = [x for _, x in v["inputs"]]
            reps = {"dev": native(nat, h, vals)}
            if nat_rel is None and not is_bad(reps["dev"]["result"]):
                nat_rel = build_native_release(feats)
                exe_for["release"] = nat_rel
            if nat_rel is not None:
                reps["release"] = native(nat_rel, h, vals)
            bad = [k for k, x in reps.items() if is_bad(x["result"])]
            what = v["what"]
            if v["kind"] == "assert":
                m = re.search(r"\d+", what)
                if m:
                    what += " : " + src_line(f, int(m.group(0)))
            rec = {"property": pid, "harness": h, "config": cfg, "kind": v["kind"], "what": what, "stack": v["stack"], "inputs": vals, "native": reps, "bounds": d}
            if bad:
                viols.append(rec)
            else:
                nover.append(f"{h}[{cfg}]: counterexample {vals} ({v['kind']}: {what}) does not reproduce natively")
        if r["violations"]:
            continue
        if not r["exhausted"] or r["errors"]:
            nover.append(f"{h}[{cfg}]: " + "; ".join(r["errors"][:3] or ["not exhausted"]))
        elif r["complete"] + r["expected_panics"] == 0 or r["asserts"] == 0 and r["expected_panics"] == 0:
            nover.append(f"{h}[{cfg}]: vacuous (no path reaches an assertion)")
        elif not all(r["covers"].values()):
            nover.append(f"{h}[{cfg}]: reachability witness not reached: lines {[k for k, x in r['covers'].items() if not x]}")
    for m in mism[:5]:
        bad = is_bad(m[4]["result"])
        if bad:
            viols.append({"property": pid, "harness": m[0], "config": m[1], "kind": "native", "what": "native run of an explored path fails: " + m[4]["result"], "stack": [], "inputs": m[2], "native": {"dev": m[4]}, "bounds": table[m[0]][1]})
        else:
            nover.append(f"{m[0]}[{m[1]}]: native run disagrees with the symbolic one on {m[2]}: symbolic obs {m[3]}, native {m[4]}")

    # ---- cross-check a sample of the solver's answers with two other solvers (thorough) -------------
    cross = {"queries": 0, "agree": 0}
    if tier == "thorough":
        qs = []
        for cfg in cfgs:
            fs = sorted((B / f"dump-{pid}-{cfg}").glob("*/*.smt2"))
            qs += fs[:: max(1, len(fs) // 150)]

        def redo(q):
            exp = q.name.split(".")[1]
            got = []
            for s in (["z3-new", "-T:20", str(q)], ["cvc5", "--tlimit=20000", str(q)]):
                try:
                    o = subprocess.run(s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40).stdout.strip()
                except subprocess.TimeoutExpired:
                    o = "timeout"
                got.append(o.split("\n")[0] if "(error" not in o else "error")
            return q, exp, got

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for q, exp, got in ex.map(redo, qs):
                cross["queries"] += 1
                if any(g in ("sat", "unsat") and g != exp for g in got):
                    nover.append(f"solvers disagree on {q}: z3 {exp}, others {got}")
                elif all(g == exp for g in got):
                    cross["agree"] += 1
        for cfg in cfgs:
            shutil.rmtree(B / f"dump-{pid}-{cfg}", ignore_errors=True)

    # ---- known findings ----------------------------------------------------------------------------
    fresh, seen = [], set()
    for v in viols:
        k = next((k for k in known if k.get("status") == "known" and re.fullmatch(k["harness"], v["harness"]) and re.search(k["match"], v["kind"] + " " + v["what"])), None)
        if k:
            seen.add(k["what"])
        else:
            fresh.append(v)
    for w in sorted(seen):
        print(f"KNOWN-FINDING: property={pid} {w}")

    tot = lambda k: sum(r[k] for r in results)
    fns = demangle({x for r in results for x in r["functions"] if "frozen_collections" in x})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": not nover and not fresh,
            "harnesses": [{"name": r["harness"], "build": r["cfg"], "bounds": table[r["harness"]][1], "exhausted": r["exhausted"], "paths": r["paths"], "ended_in_specified_panic": r["expected_panics"],
                           "assertions_checked": r["asserts"], "assertions_needing_solver": r["asserts_by_solver"], "queries": r["queries"], "unsat": r["unsat"], "solver_s": r["solver_secs"], "seconds": r["secs"]} for r in results],
            "assertions_checked": tot("asserts"),
            "assertions_discharged_by_solver": tot("asserts_by_solver"),
            "solver_queries": tot("queries"), "solver_unsat": tot("unsat"), "query_cache_hits": tot("cache_hits"),
            "solver_seconds": round(tot("solver_secs"), 2),
            "symbolic_branches": tot("sym_branches"), "address_or_size_splits": tot("concretizations"),
            "paths_ending_in_specified_panic": tot("expected_panics"),
            "functions_encoded": fns, "functions_encoded_count": len(fns),
            "cross_solver": cross,
            "bounds": P["bounds"],
        },
        "assumptions": P.get("assumptions", []) + [
            "rustc's LLVM IR (x86_64, opt-level 1) means what the native code does; each explored path's model is re-run natively on a sample",
            "heap allocations up to 256 MiB succeed; address arithmetic is exact; one thread; panics end the path (panic=abort)",
        ],
        "wall_s": round(time.time() - t_start, 1),
        "violations": len(fresh),
    }
    if nover:
        ev["coverage"]["inconclusive"] = nover[:20]
    if not a.only:
        (EV / f"{pid}.json").write_text(json.dumps(ev, indent=1))

    if fresh:
        rd = EV / "replays"
        rd.mkdir(exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            f = rd / f"{pid}-{v['harness']}-{i}.json"
            v["how"] = f"cd /verif/replay && cargo run --features {','.join('fzh/' + x for x in feats)} -- run {v['harness']} {' '.join(map(str, v['inputs']))}"
            f.write_text(json.dumps(v, indent=1))
            if i == 0:
                print(f"VIOLATION property={pid} replay={f}")
            print(f"  {v['harness']}: {v['kind']}: {v['what']}\n    inputs {v['inputs']} native {json.dumps({k: x['result'] for k, x in v['native'].items()})}\n    at {' < '.join(v['stack'][:6])}")
        return 1
    if nover:
        for n in nover:
            print("NO VERDICT:", n)
        return 2
    print(f"OK property={pid} tier={tier}: {tot('paths')} paths, {tot('asserts')} assertions, {tot('queries')} queries, {round(time.time()-t_start)} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT:", e)
        sys.exit(2)
