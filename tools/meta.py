#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; both outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded symbolic execution of the Go SSA of /repo with Z3 deciding every branch and assertion; counterexamples replayed on the real build"
NOTE = ("Every path of the harness within the stated bounds is executed symbolically and each assertion is discharged by the solver for all values of the symbolic inputs; "
        "trusts the engine's Go semantics and its models of the standard library (cross-checked by replaying sampled paths natively); paths the engine cannot encode are listed as bound reductions in the evidence.")
P = []
NA = []
def prop(id, title, statement, over, qtext, why, files, mech, check=True, note="", reason="", state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = state
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
    if check and os.path.exists(os.path.join(V, "harness")) and any(f.startswith(id.lower()+"_") for f in os.listdir(os.path.join(V, "harness"))):
        CH.append({"property": id, "quick_cmd": "./check.sh " + id, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + id,
                   "technique": TECH, "level": "model_checking", "level_note": NOTE + (" " + note if note else "")})
    else:
        NA.append({"property": id, "reason": reason or "no check built for it yet"})
CH = []
exec(open(os.path.join(V, "tools", "table.py")).read())
for d in P:
    assert len(d["title"]) <= 80, d["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": CH, "not_applicable": NA,
     "notes": "No hooks are needed: harnesses are compiled into the package through an overlay, /repo carries only fix: commits."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(P), "properties", len(CH), "checks", len(NA), "not applicable")
