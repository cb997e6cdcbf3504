#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the records below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the instrumented LLVM IR of the real code, obligations decided by z3 (LRA/NRA), counterexamples replayed natively"
NOTE = "Bounded: every listed obligation is decided for all values of the symbolic inputs on each explored path of the listed configurations; real-number semantics (rounding is outside), no OpenMP/BLAS/SIMD; evidence lists what stayed inconclusive. "
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note="", observe=None):
    a = dict(files=files, mechanism=mech)
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a), note))


NA = []
exec(open(os.path.join(V, "tools", "records.py")).read())
P.sort(key=lambda p: p[0]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
na = {n["property"] for n in NA}
m = dict(version=1, setup_cmd="python3-vt check.py --setup",
         checks=[dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                      technique=TECH, level="other", level_note=NOTE + n) for p, n in P if p["id"] not in na],
         not_applicable=NA, notes="No hooks: the checks compile /repo's sources unmodified.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
