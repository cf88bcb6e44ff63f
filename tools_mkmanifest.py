"""writes MANIFEST.json from the registered obligations and properties.jsonl"""
import json, os
from fvv import core, run
run.load()
props = [json.loads(l) for l in open("properties.jsonl")]
have = {o.prop for o in core.OBS}
proof = {o.prop for o in core.OBS if o.kind == "proof"}
NOTE = json.load(open("level_notes.json")) if os.path.exists("level_notes.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in proof:
        na.append(dict(property=i, reason="contracts for this property are still being written"))
        continue
    checks.append(dict(property=i, quick_cmd="cd /verif && /opt/venv/bin/python -m fvv.run %s --tier quick" % i,
        thorough_cmd="cd /verif && /opt/venv/bin/python -m fvv.run %s --tier thorough" % i,
        technique="contract-based deductive verification: contracts discharged by symbolic execution of the real fvhoe functions (weakest-precondition style, all sizes and values symbolic) with term normalisation, z3 and cvc5; bounded conformance runs on the real solver where stated",
        level="proof", level_note=NOTE.get(i, "obligations discharged for all inputs over exact reals; see DESIGN.md for what is bounded"),
        evidence_file="evidence/%s.json" % i))
json.dump(dict(version=1, setup_cmd="cd /verif && /opt/venv/bin/python -c 'from fvv import run; run.load()'", checks=checks, not_applicable=na,
    notes="known_findings.json lists repaired defects; no instrumentation hooks are used: the checks run the unmodified code of /repo."), open("MANIFEST.json", "w"), indent=1)
print(len(checks), [n["property"] for n in na])
