"""Writes MANIFEST.json from the property modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
}
BASE = ("Contracts on the real functions, extracted on every run with jax.make_jaxpr from /repo's working tree and turned into verification conditions "
        "(weakest-precondition style symbolic evaluation; loops by constant unrolling or by inductive invariant), discharged by a ring normaliser, z3 and exact rational arithmetic. "
        "Reals for floats, concrete small shapes, third-party libraries by contract; every run also executes the contract on the real code (labelled bounded).")
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json"))) if os.path.exists(os.path.join(V, "tools", "level_notes.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="contract-based deductive verification of the traced code (VC generation + ring/z3/cvc5)",
                           level="proof", level_note=(NOTES.get(i, "") + " " + BASE).strip()))
    else:
        na.append(dict(property=i, reason="not yet built"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
