"""Check one property (or several): decide every obligation generated from the current
source, cross-check on the real code, write the evidence, report violations."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["obl_hydro", "obl_stencil", "obl_limit", "obl_bc", "obl_mesh", "obl_state", "obl_ode", "obl_solver", "obl_sym", "obl_viz", "obl_ic", "obl_init", "obl_pass", "obl_steps", "obl_hist", "runs"]


def load():
    for m in MODULES:
        try:
            importlib.import_module("fvv." + m)
        except ModuleNotFoundError as e:
            if "fvv." + m not in str(e):
                raise
    # the whole package under contract is loaded once so that patches reach every module
    for m in ("hydro", "stencils", "fv", "riemann_solvers", "slope_limiting", "smooth_extrema_detection",
              "boundary_conditions", "initial_conditions", "array_management", "timer", "ode", "solver", "visualization"):
        try:
            importlib.import_module("fvhoe." + m)
        except Exception as e:  # reported by the obligations that need it
            print("note: fvhoe.%s not importable: %s" % (m, e))


_TASKS = None
_TIER = "quick"


def _work(i):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    err = os.dup(2)
    try:
        os.dup2(devnull.fileno(), 2)
        r = core.decide(_TASKS[i], _TIER)
    finally:
        os.dup2(err, 2)
        os.close(err)
    return i, r


def run_tasks(tasks, tier, deadline_s, jobs):
    global _TASKS, _TIER
    _TASKS, _TIER = tasks, tier
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].cost)
    out = {}
    t0 = time.time()
    ctx = mp.get_context("fork")
    if jobs == 1:
        for i in order:
            out[i] = _work(i)[1]
            sys.stdout = sys.__stdout__
        return [out.get(i) for i in range(len(tasks))]
    with ctx.Pool(jobs, maxtasksperchild=8) as pool:
        it = pool.imap_unordered(_work, order)
        while len(out) < len(tasks):
            left = deadline_s - (time.time() - t0)
            if left <= 0:
                break
            try:
                i, r = it.next(timeout=max(0.1, left))
                out[i] = r
            except mp.TimeoutError:
                break
            except StopIteration:
                break
        pool.terminate()
    return [out.get(i) for i in range(len(tasks))]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def check(prop, tier, jobs, deadline, only=None, verbose=False):
    t0 = time.time()
    tasks = [o for o in core.OBS if o.prop == prop and (tier == "thorough" or o.tier == "quick")]
    if only:
        tasks = [o for o in tasks if (o.kind == only[5:] if only.startswith("kind=") else only in o.id)]
    if not tasks:
        print("no obligations for", prop)
        return 2
    res = run_tasks(tasks, tier, deadline, jobs)
    missing = [o for o, r in zip(tasks, res) if r is None]
    res = [r for r in res if r is not None]
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    kf = [k for k in known_findings() if k.get("property") == prop]
    violations, undecided, bounded, known = [], [], [], []
    for r in res:
        bad = None
        if r["failure"]:
            bad = dict(kind="failing-input", **r["failure"])
        elif r["refuted"]:
            bad = dict(kind="failed-obligation", obligation=r["refuted"][0][0], verifier_output=r["refuted"])
        if bad:
            hit = next((k for k in kf if k.get("obligation") and k["obligation"] in r["id"]), None)
            if hit:
                known.append((hit, r))
                continue
            fn = "%s-%s.json" % (prop, hashlib.sha1(r["id"].encode()).hexdigest()[:10])
            path = os.path.join(rdir, fn)
            json.dump(dict(property=prop, contract=r["id"], functions=r["funcs"], refuted=r["refuted"],
                           replay_cmd="cd /verif && /opt/venv/bin/python -m fvv.run --replay %s" % path,
                           seed=core.SEED, **bad), open(path, "w"), indent=1)
            violations.append((r, bad, path))
        if r["undecided"]:
            undecided += [(r["id"],) + tuple(u) for u in r["undecided"]]
    nproof = sum(r["proved"] for r in res)
    nobl = nproof + sum(len(r["refuted"]) + len(r["undecided"]) for r in res) + len(missing)
    bystat = {}
    for r in res:
        for _, by in r["results"]:
            bystat[by] = bystat.get(by, 0) + 1
    funcs = sorted({f for r in res if r["kind"] == "proof" for f in r["funcs"]})
    assumes = sorted({a for r in res for a in r["assumes"]})
    base_assumes = [
        "machine arithmetic is treated as exact real arithmetic (float constants as the simplest rational they round from); NaN/inf/overflow are outside the proofs",
        "the numpy functions used by the code behave as modelled in fvv/symnp.py (cross-checked against numpy by fvv/selftest.py and by the concrete conformance samples)",
        "z3 4.x / cvc5 answers unsat only for unsatisfiable formulas; CPython executes the code it is given",
        "cupy paths are not exercised (cupy is not installed)",
    ]
    ev = dict(
        property=prop, tier=tier, seed=core.SEED, level="proof",
        coverage=dict(
            obligations=nobl, discharged=nproof,
            checker_cmd="/opt/venv/bin/python -m fvv.run %s --tier %s" % (prop, tier),
            trusted_base=["fvv symbolic numpy semantics", "fvv term normaliser", "z3", "cvc5", "CPython 3.12"],
            functions_under_contract=funcs,
            contracts=len([r for r in res if r["kind"] == "proof"]),
            discharged_by=bystat,
            solver_time_s=round(sum(r["stats"].get("z3_s", 0) for r in res), 2),
            solver_calls=int(sum(r["stats"].get("z3_calls", 0) for r in res)),
            bounded_checks=[dict(id=r["id"], samples=r["conc"], evaluations=r["evals"]) for r in res if r["kind"] == "run"],
            conformance_samples=int(sum(r["conc"] for r in res if r["kind"] == "proof")),
            conformance_evaluations=int(sum(r["evals"] for r in res)),
            undecided=[list(map(str, u))[:5] for u in undecided][:60] + [[o.id, "time budget"] for o in missing][:40],
        ),
        assumptions=base_assumes + assumes,
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    if os.environ.get("FVV_NOEVIDENCE") != "1":
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, r in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what")))
    print("%s: %d contracts, %d/%d obligations discharged (%s), %d undecided, %d bounded runs, %d samples, %.1fs" % (
        prop, len(res), nproof, nobl, ", ".join("%s %d" % kv for kv in sorted(bystat.items())),
        len(undecided) + len(missing), len(ev["coverage"]["bounded_checks"]), sum(r["conc"] for r in res), time.time() - t0))
    if verbose:
        for r in sorted(res, key=lambda r: -(r["t_proof"] + r["t_conc"])):
            print("   %-70s proved %d refuted %d undecided %d  proof %.1fs conc %d/%.1fs" % (
                r["id"], r["proved"], len(r["refuted"]), len(r["undecided"]), r["t_proof"], r["conc"], r["t_conc"]))
        for u in undecided:
            print("   UNDECIDED", *[str(x)[:700] for x in u])
        for o in missing:
            print("   TIMED OUT", o.id)
    # failing inputs first
    violations.sort(key=lambda v: v[1]["kind"] != "failing-input")
    for r, bad, path in violations[:10]:
        if bad["kind"] == "failing-input":
            print("  contract %s fails: %s" % (r["id"], bad["obligation"]))
        else:
            print("  contract %s: obligation not discharged: %s (%s)" % (r["id"], bad["obligation"], str(bad["verifier_output"][0][1:])[:300]))
    if violations:
        r, bad, path = violations[0]
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if bad["kind"] == "failing-input" else " no-failing-input-found"))
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    load()
    core.SEED = d["seed"]
    o = next((o for o in core.OBS if o.id == d["contract"]), None)
    if o is None:
        print("contract not found", d["contract"])
        return 2
    from . import harness

    if d["kind"] == "failing-input" and "sample" in d:
        r = harness.run_concrete(lambda h: (setattr(h, "prop", o.prop), o.fn(h, **o.case))[1], lambda k: core.rng_for(o.id, k), 1, only=d["sample"], budget_s=600)
        print("replayed on the real code:", r[2][0] if r[2] else "property holds")
        return 1 if r[2] else 0
    r = core.decide(o, "quick")
    print(json.dumps(dict(refuted=r["refuted"], failure=r["failure"]), indent=1, default=str)[:4000])
    return 1 if (r["refuted"] or r["failure"]) else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("FVV_JOBS", "8")))
    ap.add_argument("--deadline", type=float, default=None)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    load()
    props = a.props
    if props == ["all"]:
        props = sorted({o.prop for o in core.OBS})
    rc = 0
    for p in props:
        rc = max(rc, check(p, a.tier, a.jobs, a.deadline or (720 if a.tier == "quick" else 7000), a.only, a.v))
    sys.exit(rc)


if __name__ == "__main__":
    main()
