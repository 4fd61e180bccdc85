#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (keeps the two in step with props.py)."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
H = "include/maec/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}), observe_at=observe or [], hook_needed=None), _note=note))
exec(open(V + "/tools/properties.py").read())
NA = {}
exec(open(V + "/tools/notapplicable.py").read())
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert re.match(r"^[A-Z][0-9]{2,3}$", p["id"])
    if p["id"] not in PROPS: assert p["id"] in NA, "unclaimed %s" % p["id"]
for k in PROPS: assert k in ids, "no text for " + k
base = "Every path of the compiled real code within the stated bounds is executed symbolically and every assertion is decided by z3; trusts the executor's IR semantics (cross-validated against the g++ build on every run) and the bounds listed in evidence. "
M = dict(version=1, setup_cmd="make -C engine", hooks=dict(guard="MAEC_VERIF", enable="no hooks were needed: the checks compile /repo's sources unchanged", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="./run.py %s --tier quick" % p["id"], thorough_cmd="./run.py %s --tier thorough" % p["id"],
        technique="symbolic execution of the real code's LLVM IR, assertions decided by an SMT solver (z3), counterexamples replayed on the real build",
        level="model_checking", level_note=base + (p["_note"] or "")) for p in P if p["id"] in PROPS],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items() if k not in PROPS])
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
except ImportError: pass
print(len(P), "properties,", len(M["checks"]), "claimed")
