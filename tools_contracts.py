"""writes CONTRACTS.md: every contract of the registry, per property"""
import json
from collections import OrderedDict
from fvv import core, run
run.load()
out = ["# Contracts, per property", "", "Generated by tools_contracts.py from the registry in fvv/obl_*.py and fvv/runs.py. `q+t` gives the number of",
       "case instances (dimension sets, degrees, solver names, ...) in the quick tier and the additional ones of the thorough tier;",
       "within each instance mesh sizes, cell values, times, ... are symbolic. `run` rows are bounded.", ""]
for l in open("properties.jsonl"):
    p = json.loads(l)
    rows = OrderedDict()
    for o in core.OBS:
        if o.prop == p["id"]:
            r = rows.setdefault(o.name.split(" #")[0], dict(q=0, t=0, kind=o.kind, funcs=o.funcs, assumes=o.assumes))
            r["q" if o.tier == "quick" else "t"] += 1
    out += ["## %s %s" % (p["id"], p["title"]), "", "| contract | kind | q+t | functions executed | assumes |", "|---|---|---|---|---|"]
    for n, r in rows.items():
        out.append("| %s | %s | %d+%d | %s | %s |" % (n, r["kind"], r["q"], r["t"], ", ".join(r["funcs"]), "; ".join(r["assumes"])))
    out.append("")
open("CONTRACTS.md", "w").write("\n".join(out))
