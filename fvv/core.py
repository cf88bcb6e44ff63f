"""Registry of contracts (obligations) and conformance checks, and how one is decided."""
import importlib
import os
import sys
import time
import traceback
import zlib

os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
REPO = os.environ.get("FVV_REPO", "/repo")
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)

import numpy as np

from . import harness, prover, symnp as sn

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Ob:
    """one contract obligation (a family member): fn(h, **case)"""

    def __init__(self, prop, name, funcs, fn, case, tier, samples, timeout, paths, budget, kind, cost, assumes, abstract):
        self.prop, self.name, self.funcs, self.fn, self.case = prop, name, funcs, fn, case
        self.tier, self.samples, self.timeout, self.paths, self.budget = tier, samples, timeout, paths, budget
        self.kind, self.cost, self.assumes, self.abstract = kind, cost, assumes, abstract

    @property
    def id(self):
        c = ",".join("%s=%s" % kv for kv in self.case.items())
        return "%s/%s%s" % (self.prop, self.name, "[%s]" % c if c else "")


OBS = []


def ob(prop, name, funcs=(), cases=({},), thorough=(), samples=4, timeout=20, paths=200, budget=150, kind="proof",
       cost=1, assumes=(), abstract=False, parts=None):
    """register fn(h, **case) as obligations of a property.

    kind "proof"     : symbolic run on the real code decides it; concrete samples cross-check
    kind "run"       : concrete conformance check fn(h) on the real code (bounded, never counted as proved)
    """
    props = prop if isinstance(prop, (list, tuple)) else [prop]
    funcs = [funcs] if isinstance(funcs, str) else list(funcs)

    def deco(fn):
        for p in props:
            for tier, cs in (("quick", cases), ("thorough", thorough)):
                for c in cs:
                    # conformance checks are split into independently seeded parts
                    for part in range(parts or (6 if kind == "run" else 1)):
                        OBS.append(Ob(p, name + (" #%d" % part if part else ""), funcs, fn, dict(c), tier, samples, timeout, paths,
                                      budget, kind, cost, list(assumes), abstract))
        return fn

    return deco


def fvhoe(mod, *names):
    """attributes of a fvhoe module; a missing one makes the obligation undecided, not violated"""
    try:
        m = importlib.import_module("fvhoe." + mod)
    except ImportError as e:
        raise sn.Unsupported("cannot import fvhoe.%s: %s" % (mod, e))
    out = []
    for n in names:
        if not hasattr(m, n):
            raise sn.Unsupported("fvhoe.%s has no %s" % (mod, n))
        out.append(getattr(m, n))
    if not names:
        return m
    return out[0] if len(out) == 1 else out


def fvhoe_modules():
    return [m for k, m in list(sys.modules.items()) if (k == "fvhoe" or k.startswith("fvhoe.")) and m is not None]


def clear_caches():
    for m in fvhoe_modules():
        for v in list(vars(m).values()):
            if hasattr(v, "cache_clear"):
                v.cache_clear()
            if isinstance(v, type) and v.__module__.startswith("fvhoe"):
                for a in list(vars(v).values()):
                    if hasattr(a, "cache_clear"):
                        a.cache_clear()


def rng_for(ident, k, seed=None):
    return np.random.default_rng([SEED if seed is None else seed, zlib.crc32(ident.encode()), k])


def decide(o, tier, confirm_s=40):
    """run one obligation; -> plain dict"""
    t0 = time.time()
    prover.STATS.update(z3_s=0.0, z3_calls=0, by={})
    def fn(h):
        h.prop = o.prop
        return o.fn(h, **o.case)

    res = dict(id=o.id, prop=o.prop, kind=o.kind, funcs=o.funcs, assumes=o.assumes, results=[], conc=0, evals=0,
               failure=None, abstract=o.abstract, proved=0, refuted=[], undecided=[])
    models = []
    if o.kind == "proof":
        try:
            out = harness.explore(fn, timeout_s=o.timeout, max_paths=o.paths, budget_s=o.budget)
        except Exception as e:  # engine failure: undecided
            out = [("<engine>", "unsupported", "engine", "%s: %s | %s" % (type(e).__name__, e, traceback.format_exc()[-600:]), None, None)]
        finally:
            sn.uninstall()
            clear_caches()
        # a failed obligation over callee contracts is re-examined with the callee bodies inlined
        if any(r[1] == "refuted" for r in out) and any(r[5] is not None and r[5].stubbed for r in out):
            res["abstract_refuted"] = [(r[0], str(r[2]), str(r[3])[:300]) for r in out if r[1] == "refuted"][:5]
            try:
                out2 = harness.explore(fn, timeout_s=o.timeout, max_paths=o.paths, budget_s=o.budget, use_stubs=False)
            except Exception as e:
                out2 = [("<engine>", "unsupported", "engine", repr(e), None, None)]
            finally:
                sn.uninstall()
                clear_caches()
            names = {r[0] for r in out if r[1] == "refuted"}
            out = [r for r in out if r[1] != "refuted"] + [r for r in out2 if r[1] != "proved"]
            if not any(r[1] == "refuted" for r in out):
                for n in sorted(names):
                    out.append((n, "unknown", "not discharged from callee contracts", "", None, None))
        # a loop invariant that no longer fits decides nothing about the property
        if any(r[1] == "refuted" and r[0].startswith("invariant: ") for r in out):
            out = [r if r[1] != "refuted" else (r[0], "unknown", "loop invariant does not fit", "", None, None) for r in out]
        if not out:
            out = [("<vacuity>", "unsupported", "no obligation generated", "", None, None)]
        for name, status, by, note, model, h in out:
            if status == "proved":
                res["proved"] += 1
                res["results"].append((name, by))
            elif status == "refuted":
                res["refuted"].append((name, str(by), str(note)[:1500]))
                if model is not None:
                    models.append(model)
            else:
                res["undecided"].append((name, status, str(by), str(note)[:600]))
    res["t_proof"] = time.time() - t0
    # concrete: replay models, then seeded samples
    t1 = time.time()
    for m in models[:3]:
        try:
            d, e, f = harness.run_concrete(fn, lambda k: rng_for(o.id, k), 1, model=m)
        except Exception as ex:
            continue
        res["conc"] += d
        res["evals"] += e
        if f:
            res["failure"] = dict(obligation=f[0], inputs=jsonable(f[1]), source="solver model")
            break
    if res["failure"] is None:
        n = o.samples * (1 if tier == "quick" else 8)
        budget = 10 if tier == "quick" else 60
        if res["refuted"] or any(u[2] == "instances" for u in res["undecided"]):
            n, budget = max(n, 300), confirm_s
        elif res["undecided"]:
            n, budget = max(n, 40), 20
        if o.kind == "run":
            budget = o.budget
        if n:
            try:
                d, e, f = harness.run_concrete(fn, lambda k: rng_for(o.id, k), n, budget_s=budget)
                res["conc"] += d
                res["evals"] += e
                if f:
                    res["failure"] = dict(obligation=f[0], inputs=jsonable(f[1]), source="seeded sample", sample=f[2])
            except Exception as ex:
                res["undecided"].append(("<concrete>", "unsupported", "harness", "%s: %s %s" % (type(ex).__name__, ex, traceback.format_exc()[-500:])))
    # an exception of the array model that the real code does not show on any input decides nothing
    if res["failure"] is None and res["conc"] and res["refuted"] and all(r[0] == "no exception" and r[1] == "model" for r in res["refuted"]):
        res["undecided"] += [(r[0], "unknown", r[1], r[2]) for r in res["refuted"]]
        res["refuted"] = []
    res["t_conc"] = time.time() - t1
    res["stats"] = dict(prover.STATS, by=dict(prover.STATS["by"]))
    return res


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    if isinstance(x, np.ndarray):
        if x.size <= 400:
            return {"shape": list(x.shape), "data": [float(v) for v in x.ravel()]}
        return {"shape": list(x.shape), "head": [float(v) for v in x.ravel()[:50]]}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]
