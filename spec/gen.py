#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the property files in this folder."""
import json, glob, os, runpy
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = []
COMMON = [
    "the Go compiler, x/tools go/ssa and z3 are correct; the interpreter of the SSA form is validated on every run by replaying sampled paths natively against the compiled code",
]
def prop(**k): props.append(k)
for f in sorted(glob.glob(os.path.join(here, "p_*.py"))):
    runpy.run_path(f, init_globals={"prop": prop})
NA = []
naf = os.path.join(here, "not_applicable.json")
if os.path.exists(naf): NA = json.load(open(naf))
order = {p["id"]: i for i, p in enumerate(props)}
lines, checks, man = [], [], []
for p in props:
    assert len(p["title"]) <= 80, p["id"]
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
    if p.get("state"): a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    if p.get("observe"): a["observe_at"] = p["observe"]
    a["hook_needed"] = None
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}))
    if p["id"] in [n["property"] for n in NA]: continue
    hs = []
    for h in p["harnesses"]:
        q = h.get("quick", {})
        t = h.get("thorough", {})
        hs.append({"fn": h["fn"], "reach": h.get("reach", []), "what": h["what"], "outside": h.get("outside", ""),
            "quick": {"budget": q.get("budget", 40), "params": q.get("params", {}), "skip": q.get("skip", False)},
            "thorough": {"budget": t.get("budget", 600), "params": t.get("params", q.get("params", {})), "skip": False}})
    checks.append({"property": p["id"], "assumptions": COMMON + p.get("assume", []), "harnesses": hs})
    man.append({"property": p["id"], "quick_cmd": f"bash bin/symgo.sh check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash bin/symgo.sh check {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "symbolic execution of the Go SSA of the real code, branches and assertions decided by z3 for all values within bounds, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": p.get("level_note", "Bounded: " + p["quant"] + " Every feasible path within the bounds stated in the evidence is explored and every assertion on it is decided for all values; candidates are replayed against the compiled code before they are reported.")})
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump(checks, open(os.path.join(root, "checks.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash bin/symgo.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the harnesses and the environment models are added to the build as an overlay, from /repo's current source", "source_commits": []},
     "checks": man, "not_applicable": NA,
     "notes": "checks.json lists the harnesses and bounds of each check; known_findings.json lists the genuine defects found (fixed ones and known ones); DESIGN.md explains the method."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
fnd = runpy.run_path(os.path.join(here, "findings.py"))
out = [{"property": a, "status": "fixed", "harness": "", "msg": "", "what": c, "commit": b, "entry": f"fixed: property={a} {b} {c}"} for a, b, c in fnd["FIXED"]]
out += [{"property": a, "status": "known", "harness": b, "msg": c, "what": d, "entry": f"known: property={a} {d}"} for a, b, c, d in fnd["KNOWN"]]
json.dump(out, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
# DESIGN.md
notes = runpy.run_path(os.path.join(here, "notes.py"))["NOTES"]
seeded = {}
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    b = json.load(open(f)); b["id"] = os.path.basename(os.path.dirname(f))
    seeded.setdefault(b["property"], []).append(b)
def params(t): return ", ".join(f"{k}={v}" for k, v in t.get("params", {}).items()) or "-"
sec = []
for p in props:
    sec.append(f"**{p['id']} – {p['title']}.** {notes[p['id']]}  \n*Bounds:* {p['quant']}  ")
    if p.get("assume"): sec.append("*Assumptions:* " + "; ".join(p["assume"]) + ".  ")
    sec.append("*Harnesses (quick → thorough):* " + "; ".join(f"`{h['fn']}` {h['what']} ({'skipped' if h.get('quick', {}).get('skip') else params(h.get('quick', {}))} → {params(h.get('thorough', h.get('quick', {})))})" for h in p["harnesses"]) + "\n")
ftab = ["| property | commit | what failed |", "|---|---|---|"] + [f"| {a} | {b} | {c} |" for a, b, c in fnd["FIXED"]]
btab = ["| property | bug | what it breaks | what it needs |", "|---|---|---|---|"]
for p in props:
    for b in seeded.get(p["id"], []): btab.append(f"| {p['id']} | `{b['id']}` | {b['what_it_breaks']} | {b['needs']} |")
d = open(os.path.join(here, "design.in.md")).read()
d = d.replace("@PROPERTIES@", "\n".join(sec).rstrip()).replace("@FINDINGS@", "\n".join(ftab)).replace("@BUGS@", "\n".join(btab))
open(os.path.join(root, "DESIGN.md"), "w").write(d)
print(len(props), "properties,", len(checks), "checks")
