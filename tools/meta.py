#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from one description (run by hand after editing it)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
C = "frozen-collections-core/src/"
TECH = "bounded symbolic execution of rustc's LLVM IR with Z3; counterexamples replayed natively"

P = []


def prop(id, title, statement, over, text, why, files, mech, bounds, features=None, note="", assumptions=(), claimed=True, reason="", **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[f if "/" in f and f.startswith("frozen") else C + f for f in files],
                  mech=mech, bounds=bounds, features=features or [id.lower()], note=note, assumptions=list(assumptions), claimed=claimed, reason=reason, kw=kw))


exec((V / "tools/props.py").read_text())

with open(V / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w if w.startswith("frozen") else C + w} for n, w in p["mech"]],
                        "observe_at": ["public API"], "hook_needed": None},
        }) + "\n")

(V / "checks.json").write_text(json.dumps({p["id"]: {"features": p["features"], "bounds": p["bounds"], "assumptions": p["assumptions"], **{k: v for k, v in p["kw"].items() if k != "how"}} for p in P if p["claimed"]}, indent=1) + "\n")

(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none: no hook in /repo is needed (harnesses use the public API, including the doc-hidden modules)",
              "enable": "nothing to enable; harness crates have path dependencies on /repo", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": TECH,
        "level": "model_checking",
        "level_note": "Every path of the real code (repository, std, hashing libraries) within the bounds is explored and every assertion, panic, "
                      "memory access and overflow on it decided by the solver for all values of the symbolic inputs. Bounds: " + p["bounds"] +
                      " Trusts rustc's IR, the executor (each path sample is re-run natively and must agree) and Z3 (thorough: cross-checked with cvc5 and a second Z3)." + (" " + p["note"] if p["note"] else ""),
    } for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
    "notes": "check.py exits 2 (no verdict) when a bound, tool limit or build failure prevents a decision. See DESIGN.md.",
}, indent=1) + "\n")

# ---- DESIGN.md ------------------------------------------------------------------------------------------
t = (V / "tools/design.in.md").read_text()
out = []
for p in P:
    out.append(f"### {p['id']} {p['title']}" + ("" if p["claimed"] else " (not applicable)"))
    if not p["claimed"]:
        out.append(p["reason"] + "\n")
        continue
    out.append(f"*Decided*: {p['kw'].get('how', 'the public entry points anchored below are executed on the symbolic inputs and compared with the list of entries.')}")
    out.append(f"*Bounds*: {p['bounds']}")
    out.append(f"*Beyond the tests*: {p['why']}")
    out.append("*Anchors*: " + "; ".join(f"{n} (`{w}`)" for n, w in p["mech"]) + (f"\n{p['note']}" if p["note"] else "") + "\n")
kf = json.loads((V / "known_findings.json").read_text())["findings"]
fixes = "\n".join(f"* `{k['commit']}` ({k['property']}): {k['what'].split(k['commit'], 1)[1].strip()}" for k in kf if k["status"] == "fixed")
knowns = "\n".join(f"* known, not repaired ({k['property']}): {k['what']}" for k in kf if k["status"] == "known")
sd = json.loads((V / "tools/seeds.json").read_text())
rows = ["| id | property | breaks | caught by |", "|---|---|---|---|"]
for s, c in sd.items():
    m = json.loads((V / "seeded" / s / "meta.json").read_text())
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) | {c} |")
na = "\n".join(f"* {p['id']} {p['title']}: {p['reason']}" for p in P if not p["claimed"]) or "Nothing is listed there at present."
(V / "DESIGN.md").write_text(t.replace("@PROPS@", "\n".join(out)).replace("@FIXES@", fixes + ("\n" + knowns if knowns else "")).replace("@SEEDS@", "\n".join(rows)).replace("@NA@", na))
