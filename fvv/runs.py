"""Concrete conformance checks of whole-solver properties (bounded; never counted as proved).

Each draws random problems, runs the real solver and compares with the independent reference in
sim.py or with a transformed run.  They find failing inputs for what the deductive part reports and
stand in, labelled bounded, where composition over whole runs is not proved."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile

import numpy as np

from .core import ob, fvhoe
from .harness import Reject
from . import sim, symnp as sn

ALL = ["fvhoe.solver.EulerSolver"]


def draw(h, style=None, **kw):
    cfg = sim.random_cfg(h.rng, **kw)
    u = sim.random_state(h.rng, cfg, style)
    if not sim.ok_state(u, cfg["gamma"]):
        raise Reject()
    cfg["unit"] = 1.0
    if cfg["lim"] is None and not any(c == "dirichlet" for b in cfg["bc"] for c in b) and h.rng.uniform() < 0.35:
        # thin or dense gas: the equations are homogeneous in density, momentum and energy
        cfg["unit"] = float(10.0 ** h.rng.integers(-6, 4))
        u[:5] *= cfg["unit"]
    h.record.update(cfg=sim.summary(cfg), unit=cfg["unit"])
    return cfg, u


def arr(s, name):
    try:
        return s.am(name)
    except KeyError:
        raise sn.Unsupported("solver keeps no array %r" % name)


def stored_fluxes(s, cfg):
    return [arr(s, q).copy() if a else None for q, a in zip("FGH", sim.active(cfg))]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
        return fn(*a, **k)


@contextlib.contextmanager
def contained(root):
    """deletions, renames and new directories outside root are refused instead of carried out"""
    root = os.path.realpath(root)

    def guard(fn):
        def g(path, *a, **k):
            for q in (path,) + tuple(x for x in a if isinstance(x, (str, os.PathLike))):
                if not isinstance(q, int) and os.path.commonpath([os.path.realpath(os.fspath(q)), root]) != root:
                    raise PermissionError("outside the scratch directory: %s" % q)
            return fn(path, *a, **k)
        return g

    names = [(shutil, "rmtree"), (shutil, "move"), (os, "remove"), (os, "unlink"), (os, "rmdir"), (os, "rename"), (os, "replace"), (os, "makedirs"), (os, "mkdir")]
    old = [getattr(m, q) for m, q in names]
    cwd = os.getcwd()
    os.chdir(root)
    try:
        # rmtree uses the functions of os itself (relative to directory handles), so it keeps the originals
        setattr(shutil, "rmtree", guard_tree(root, names, old))
        for (m, q), f in list(zip(names, old))[1:]:
            setattr(m, q, guard(f))
        yield
    finally:
        for (m, q), f in zip(names, old):
            setattr(m, q, f)
        os.chdir(cwd)


def guard_tree(root, names, old):
    def rmtree(path, *a, **k):
        if os.path.commonpath([os.path.realpath(os.fspath(path)), root]) != root:
            raise PermissionError("outside the scratch directory: %s" % path)
        now = [getattr(m, q) for m, q in names]
        for (m, q), f in zip(names, old):
            setattr(m, q, f)
        try:
            return old[0](path, *a, **k)
        finally:
            for (m, q), f in zip(names, now):
                setattr(m, q, f)
    return rmtree


def advance(s, method, nsteps):
    """exactly nsteps of a method"""
    quiet(getattr(s, method), n=nsteps)


def settled(cfg, u, t=0.0, margin=1e-8):
    """reference right-hand side, rejecting states whose limiter decisions hang on round-off"""
    with np.errstate(all="ignore"):
        r = sim.rhs(cfg, u, t)
    if not np.all(np.isfinite(r["dudt"])) or r["margin"] < margin or not r["pos"] > 1e-2 * cfg.get("unit", 1.0):
        raise Reject()
    return r


def ref_run(cfg, u, method, nsteps, t=0.0, margin=1e-8, last=None):
    """reference trajectory: list of (t, u, stages of the step leading there)"""
    out = [(t, u, None)]
    for k in range(nsteps):
        with np.errstate(all="ignore"):
            target = None if last is None or k < nsteps - 1 else t + last * sim.timestep(cfg, u, t)
            dt, u, st = sim.rk_step(cfg, u, t, method, target)
        if any(q["margin"] < margin or not q["pos"] > 1e-2 * cfg.get("unit", 1.0) for q in st) or not sim.ok_state(u, cfg["gamma"], cfg.get("unit", 1.0)):
            raise Reject()
        t = t + dt
        out.append((t, u, st))
    return out


def close(h, name, a, b, tol=1e-9, unit=1.0):
    s = min(1.0, unit) + float(np.max(np.abs(b))) if np.size(b) else 1.0
    h.forall_eq(name, np.asarray(a) / s, np.asarray(b) / s, tol=tol)


# ------------------------------------------------------------------ C01
@ob("C01", "runs conserve every sum", ALL, kind="run", samples=60, budget=70, cost=8)
def conserve(h):
    k = h.sample
    nd = (1, 2, 1, 2, 3, 2)[k % 6]
    cfg, u = draw(h, style=(0, 1, 3)[k % 3], ndim=nd, lim=k % 4 != 0)
    if k % 5 == 0:
        cfg["explicit_bc"] = True
    if k % 3 == 0 and cfg["lim"]:  # provoke trouble at the domain edges
        cfg["lim"].update(PAD={"rho": (0.75, 1.25), "P": (0.7, 1.3)}, force_trouble=False)
    method = sim.METHODS[int(h.rng.integers(4))]
    if k % 4 == 1:  # thin or dense gas: the equations are homogeneous in the first five rows
        u[:5] *= float(10.0 ** h.rng.integers(-5, 5))
    else:
        ref_run(cfg, u, method, 1, margin=-1)
    s = sim.make(cfg, u.copy())
    tot0 = u.sum((1, 2, 3))
    big = np.abs(u).sum((1, 2, 3)) + 1e-3 * min(1.0, float(u[4].mean()))
    h.record.update(method=method)
    quiet(getattr(s, method), n=0)
    for m in range(3):
        if m < 2:
            quiet(s.take_step)
        else:  # a run with shortened steps
            dt = s.timestamps[-1] - s.timestamps[-2]
            quiet(getattr(s, method), T=s.t + 0.7 * dt, downbeats=[s.t + 0.2 * dt])
        v = arr(s, "u")
        if not np.all(np.isfinite(v)):
            raise Reject()
        h.rec("sums after step %d: relative change %s" % (m + 1, np.abs(v.sum((1, 2, 3)) - tot0) / big),
              bool(np.all(np.abs(v.sum((1, 2, 3)) - tot0) <= 1e-10 * big)))
        if not sim.ok_state(v, cfg["gamma"]):
            return


@ob("C01", "first and last face carry the same flux", ALL, kind="run", samples=40, budget=40, cost=4)
def same_face(h):
    cfg, u = draw(h, lim=h.sample % 3 != 0)
    s = sim.make(cfg, u.copy())
    settled(cfg, u, margin=-1)
    quiet(s.f, 0.0, u)
    for d, F in enumerate(stored_fluxes(s, cfg)):
        if F is not None:
            close(h, "direction " + "xyz"[d], np.take(F, 0, d + 1), np.take(F, -1, d + 1), 1e-11)


# ------------------------------------------------------------------ C02
@ob("C02", "rate of change is the flux difference", ALL, kind="run", samples=60, budget=40, cost=3)
def flux_form(h):
    cfg, u = draw(h, bc="any" if h.sample % 2 else "periodic")
    s = sim.make(cfg, u.copy())
    v = u.copy()
    for q in "FGH":
        arr(s, q)[...] = h.rng.normal(size=arr(s, q).shape)  # stale contents must not matter
    settled(cfg, u, margin=-1)
    dt, du = quiet(s.f, 0.3, v)
    h.rec("state left as given", np.array_equal(u, v))
    du = np.array(du)
    F = stored_fluxes(s, cfg)
    close(h, "flux form", du, sim.divergence(cfg, F), 1e-11)
    dt2, du2 = quiet(s.f, 0.3, v)
    h.rec("evaluating twice gives the same answer", dt2 == dt and np.array_equal(du, du2))


def used(h, what):
    """a solver with a history answers like a fresh one, however its state array was filled; results handed out stay"""
    k = h.sample
    r = h.rng
    cfg, u = draw(h, bc=("any", "periodic", ["dirichlet", "free"])[k % 3] if k % 3 != 2 else ("dirichlet", "free"), pmax=3, lim=k % 2 == 0)
    s = sim.make(cfg, u.copy())
    v = u.copy()
    kept = []
    t = 0.0
    for m in range(4):
        if m:
            w = sim.random_state(r, cfg, None)
            if not sim.ok_state(w, cfg["gamma"]):
                raise Reject()
            if int(r.integers(3)):
                v[...] = w  # the same array with a new content
            else:
                v = w.copy()
            if int(r.integers(2)):
                t = float(r.uniform(0, 2))
        if m and int(r.integers(3)) == 0:
            quiet(s.snapshot)
        state = v.copy()
        dt, du = quiet(s.f, t, v)
        fresh = sim.make(cfg, u.copy())
        dt2, du2 = quiet(fresh.f, t, state.copy())
        if not np.all(np.isfinite(du2)):
            raise Reject()
        if what in ("dt", "both"):
            h.rec("evaluation %d: step %r, of a fresh solver %r" % (m, dt, dt2), abs(dt - dt2) <= 1e-12 * abs(dt2))
        if what in ("rate", "both"):
            close(h, "evaluation %d: rate of a fresh solver" % m, du, du2, 1e-12)
            h.rec("state as given", np.array_equal(v, state))
            kept.append((du, np.array(du)))
            for a, b in kept:
                h.rec("rates handed out earlier stay", np.array_equal(a, b))


@ob("C02", "a used solver answers like a fresh one", ALL, kind="run", samples=40, budget=40, cost=3)
def used_rate(h):
    used(h, "rate")


@ob("C12", "a used solver answers like a fresh one", ALL, kind="run", samples=30, budget=40, cost=3)
def used_both(h):
    used(h, "both")


@ob("C13", "a used solver chooses the step of a fresh one", ALL, kind="run", samples=30, budget=40, cost=3)
def used_dt(h):
    used(h, "dt")


# ------------------------------------------------------------------ C03
@ob("C03", "uniform flow stays uniform", ALL, kind="run", samples=60, budget=60, cost=5)
def freestream(h):
    r = h.rng
    nd = (1, 2, 3)[h.sample % 3]
    cfg = sim.random_cfg(r, ndim=nd, lim=bool(r.uniform() < 0.6))
    k = len(cfg["passives"])
    w = np.concatenate([np.exp(r.normal(size=1)), r.normal(size=3) * r.choice([0, 1, 3]), np.exp(r.normal(size=1)), r.normal(size=k)])
    if h.sample % 4 == 1:  # thin or dense gas
        w[[0, 4]] *= float(10.0 ** r.integers(-5, 5))
    U = sim.cons(w, cfg["gamma"])
    B, V = [], []
    for d in range(3):
        q = ["periodic", "free", "outflow", "dirichlet", "fn"][r.integers(5)]
        if q == "periodic":
            B.append((q, q))
            V.append((None, None))
            continue
        o = [q, ["free", "outflow", "dirichlet", "fn"][r.integers(4)]]
        V.append(tuple(U.copy() if c == "dirichlet" else (lambda x, y, z, t: U.reshape(-1, 1, 1, 1) * np.ones((1,) + x.shape)) if c == "fn" else None for c in o))
        B.append(tuple("dirichlet" if c == "fn" else c for c in o))
    cfg["bc"], cfg["bcval"] = B, V
    u = U.reshape(-1, 1, 1, 1) * np.ones((1,) + cfg["n"])
    h.record.update(cfg=sim.summary(cfg), w=w)
    s = sim.make(cfg, u.copy())
    dt, du = quiet(s.f, 0.2, u.copy())
    F = max(float(w[0]), float(w[4]), float(np.max(np.abs(sim.euler_flux(w, cfg["gamma"], 0))))) * (1 + np.abs(w[1:4]).max()) + 1e-6
    scale = F * sum(1 / q for q in sim.widths(cfg)) * 1e-10
    h.rec("rate of change is zero (largest %.3e)" % np.max(np.abs(du)), bool(np.max(np.abs(du)) <= scale))
    quiet(s.run, n=3)
    for v in range(len(U)):
        close(h, "state after three steps", arr(s, "u")[v] / max(abs(U[v]), 1e-3 * U[0], 1e-12), u[v] / max(abs(U[v]), 1e-3 * U[0], 1e-12), 1e-8)
    dt = s.timestamps[-1] - s.timestamps[-2]
    quiet(s.run, T=s.t + 0.7 * dt, downbeats=[s.t + 0.2 * dt])
    for v in range(len(U)):
        close(h, "state after shortened steps", arr(s, "u")[v] / max(abs(U[v]), 1e-3 * U[0], 1e-12), u[v] / max(abs(U[v]), 1e-3 * U[0], 1e-12), 1e-8)


# ------------------------------------------------------------------ C05
@ob("C05", "face fluxes agree with an independent evaluation", ALL + ["fvhoe.solver.EulerSolver.hydrofluxes", "fvhoe.solver.EulerSolver.interpolate_primitives_from_conservatives"],
    kind="run", samples=150, budget=70, cost=8)
def flux_values(h):
    k = h.sample
    cfg, u = draw(h, bc="any" if k % 2 else "periodic", ndim=(1, 2, 3, 2, 3)[k % 5], lim=False)
    s = sim.make(cfg, u.copy())
    t = float(h.rng.uniform(0, 1))
    ref = settled(cfg, u, t)
    if not all(np.all(np.isfinite(q)) for q in ref["high"] if q is not None):
        raise Reject()
    quiet(s.f, t, u)
    for d, (a, b) in enumerate(zip(stored_fluxes(s, cfg), ref["high"])):
        if b is not None:
            close(h, "high-order flux along " + "xyz"[d], a, b)


@ob("C05", "slope-limited face fluxes agree with an independent evaluation", ALL + ["fvhoe.solver.EulerSolver.hydrofluxes"], kind="run", samples=80, budget=50, cost=5)
def low_flux_values(h):
    k = h.sample
    cfg, u = draw(h, bc="any" if k % 2 else "periodic", ndim=(1, 2, 3, 2, 3)[k % 5], lim=True)
    cfg["lim"].update(force_trouble=True, convex=False)
    s = sim.make(cfg, u.copy())
    t = float(h.rng.uniform(0, 1))
    ref = settled(cfg, u, t, margin=-1)
    quiet(s.f, t, u)
    for d, (a, b) in enumerate(zip(stored_fluxes(s, cfg), ref["low"])):
        if b is not None:
            close(h, "low-order flux along " + "xyz"[d], a, b)


# ------------------------------------------------------------------ transformations
NAMES = {"vx": 0, "vy": 1, "vz": 2}


def permuted(cfg, u, perm):
    """new axis d is old axis perm[d]"""
    c = dict(cfg)
    for k in ("n", "p"):
        c[k] = tuple(cfg[k][perm[d]] for d in range(3))
    for k in ("dom", "bc"):
        c[k] = [cfg[k][perm[d]] for d in range(3)]
    inv = [perm.index(d) for d in range(3)]

    def pf(val):
        if val is None:
            return None
        if isinstance(val, np.ndarray):
            return rows(val)

        def g(x, y, z, t):
            new = (x, y, z)
            old = {"xyz"[e]: np.transpose(new[inv[e]], inv) for e in range(3)}
            return rows(np.transpose(val(t=t, **old), (0,) + tuple(1 + perm[d] for d in range(3))))

        return g

    def rows(a):
        b = a.copy()
        for d in range(3):
            b[1 + d] = a[1 + perm[d]]
        return b

    c["bcval"] = [tuple(pf(v) for v in cfg["bcval"][perm[d]]) for d in range(3)]
    if cfg["lim"]:
        L = dict(cfg["lim"])
        ren = lambda q: "v" + "xyz"[inv[NAMES[q]]] if q in NAMES else q
        if L["NAD_vars"] is not None:
            L["NAD_vars"] = tuple(ren(q) for q in L["NAD_vars"])
        if L["PAD"] is not None:
            L["PAD"] = {ren(q): v for q, v in L["PAD"].items()}
        c["lim"] = L
    tr = lambda a: rows(np.transpose(a, (0,) + tuple(1 + perm[d] for d in range(3))))
    return c, tr, tr(u)


def mirrored(cfg, u, d):
    c = dict(cfg)
    sgn = np.ones(u.shape[0])
    sgn[1 + d] = -1
    S4 = sgn.reshape(-1, 1, 1, 1)
    a, b = cfg["dom"][d]
    mirror = lambda f: np.flip(f, d + 1) * S4

    def mf(val):
        if val is None:
            return None
        if isinstance(val, np.ndarray):
            return val * sgn

        def g(x, y, z, t):
            co = dict(x=x, y=y, z=z)
            co["xyz"[d]] = a + b - co["xyz"[d]]
            return val(t=t, **co) * S4

        return g

    c["bc"] = list(cfg["bc"])
    c["bc"][d] = cfg["bc"][d][::-1]
    c["bcval"] = [tuple(v) for v in cfg["bcval"]]
    c["bcval"] = [tuple(mf(q) for q in (v[::-1] if e == d else v)) if True else v for e, v in enumerate(cfg["bcval"])]
    for e in range(3):
        if e != d:
            c["bcval"][e] = tuple(mf(q) for q in cfg["bcval"][e])
    if cfg["lim"]:
        L = dict(cfg["lim"])
        q = "v" + "xyz"[d]
        if L["PAD"] and q in L["PAD"]:
            L["PAD"] = {k: ((-v[1], -v[0]) if k == q else v) for k, v in L["PAD"].items()}
        c["lim"] = L
    return c, mirror, mirror(u)


def compare_runs(h, cfg, u, c2, u2, tr, trc, method, nsteps, fluxmap=None):
    """the transformed problem gives the transformed rate of change, step and states"""
    r = settled(cfg, u)
    s1, s2 = sim.make(cfg, u.copy()), sim.make(c2, u2.copy())
    dt1, du1 = quiet(s1.f, 0.2, u.copy())
    dt2, du2 = quiet(s2.f, 0.2, u2.copy())
    h.rec("time step %r against %r" % (dt2, dt1), abs(dt1 - dt2) <= 1e-10 * abs(dt1))
    if cfg["lim"] is None:
        close(h, "rate of change", du2, tr(np.array(du1)))
    else:
        if settled(cfg, u, 0.2):
            close(h, "rate of change", du2, tr(np.array(du1)))
    if fluxmap is not None:
        fluxmap(stored_fluxes(s1, cfg), stored_fluxes(s2, c2))
    s1, s2 = sim.make(cfg, u.copy()), sim.make(c2, u2.copy())
    ref_run(cfg, u, method, nsteps)
    quiet(getattr(s1, method), n=nsteps)
    quiet(getattr(s2, method), n=nsteps)
    close(h, "final time", s2.t, s1.t)
    close(h, "state after %d steps" % nsteps, arr(s2, "u"), tr(arr(s1, "u")), 1e-8)
    close(h, "primitive snapshot", s2.snapshots[-1]["w"], tr(s1.snapshots[-1]["w"]), 1e-8)
    if cfg["lim"] is not None:
        for q in ("trouble", "NAD violation magnitude", "PAD violation magnitude"):
            close(h, q, s2.snapshots[-1][q], trc(s1.snapshots[-1][q]), 1e-8)


# ------------------------------------------------------------------ C06
@ob("C06", "permuting the axes permutes the run", ALL, kind="run", samples=90, budget=80, cost=8)
def permute(h):
    k = h.sample
    perms = [p for p in itertools.permutations(range(3)) if p != (0, 1, 2)]
    perm = perms[k % 5]
    nd = (1, 2, 3, 1, 2, 2)[k % 6]
    # prescribed data only in 1D: its corner ghost cells depend on the order of the directions
    cfg, u = draw(h, bc=("any" if nd == 1 else ("periodic", "free", "outflow", "reflective")) if k % 2 else "periodic", ndim=nd, lim=k % 3 != 0)
    c2, tr, u2 = permuted(cfg, u, list(perm))
    h.record.update(perm=perm)
    trc = lambda a: np.transpose(a, perm)

    def fl(A, B):
        for d in range(3):
            if B[d] is not None:
                close(h, "flux along new axis %d" % d, B[d], tr(A[perm[d]]))

    compare_runs(h, cfg, u, c2, u2, tr, trc, sim.METHODS[int(h.rng.integers(4))], 2, fl)


# ------------------------------------------------------------------ C07
@ob("C07", "mirroring the problem mirrors the run", ALL, kind="run", samples=90, budget=80, cost=8)
def mirror(h):
    k = h.sample
    cfg, u = draw(h, bc="any" if k % 2 else "periodic", ndim=(1, 2, 3, 1, 2, 2)[k % 6], lim=k % 3 != 0)
    if cfg["lim"]:
        cfg["lim"]["NAD_range"] = "relative"
    if cfg["solver"] == "advection_upwind" and any("dirichlet" in b or "reflective" in b for b in cfg["bc"]):
        cfg["solver"] = "llf"
    d = cfg["dims"][k % len(cfg["dims"])]
    c2, tr, u2 = mirrored(cfg, u, d)
    h.record.update(direction=d)
    trc = lambda a: np.flip(a, d)
    compare_runs(h, cfg, u, c2, u2, tr, trc, sim.METHODS[int(h.rng.integers(4))], 2)


# ------------------------------------------------------------------ C23
@ob("C23", "shifting a periodic problem shifts the run", ALL, kind="run", samples=90, budget=80, cost=8)
def shift(h):
    k = h.sample
    cfg, u = draw(h, ndim=(1, 2, 3, 1, 2, 2)[k % 6], lim=k % 4 != 0)
    if k % 3 == 0 and cfg["lim"]:
        cfg["lim"].update(PAD={"rho": (0.75, 1.25), "P": (0.7, 1.3)}, force_trouble=False)
    ds = [int(d) for d in cfg["dims"]]
    off = [int(h.rng.integers(0, cfg["n"][d])) if d in ds else 0 for d in range(3)]
    off[ds[0]] = max(1, off[ds[0]])
    tr = lambda a: np.roll(a, off, (1, 2, 3))
    h.record.update(shift=off)

    def fl(A, B):
        for d in range(3):
            if A[d] is not None:
                n = cfg["n"][d]
                cut = sim.sl(4, d + 1, 0, n)
                close(h, "flux along %d" % d, B[d][cut], tr(A[d][cut]))

    compare_runs(h, cfg, u, cfg, tr(u), tr, lambda a: np.roll(a, off, (0, 1, 2)), sim.METHODS[int(h.rng.integers(4))], 2, fl)


# ------------------------------------------------------------------ C12 / C13 / C14
@ob(["C12"], "stages see the boundary data of their own time", ALL, kind="run", samples=40, budget=60, cost=5)
def stage_times(h):
    k = h.sample
    cfg, u = draw(h, bc=("dirichlet", "free", "reflective", "dirichlet"), ndim=(1, 2, 1, 3)[k % 4], lim=k % 3 == 0)
    if not any(callable(v) for q in cfg["bcval"] for v in q):
        d = cfg["dims"][0]
        cfg["bc"][d] = ("dirichlet", cfg["bc"][d][1])
        while True:
            v = sim.boundary_value(h.rng, cfg)
            if callable(v):
                break
        cfg["bcval"][d] = (v, cfg["bcval"][d][1])
    method = sim.METHODS[k % 4]
    tr = ref_run(cfg, u, method, 2)
    s = sim.make(cfg, u.copy())
    h.record.update(method=method, cfg=sim.summary(cfg))
    quiet(getattr(s, method), n=2)
    close(h, "time", s.t, tr[-1][0])
    close(h, "state", arr(s, "u"), tr[-1][1], 1e-8)


@ob(["C12"], "initial-condition boundaries hold the initial state at their position", ALL, kind="run", samples=25, budget=40, cost=3)
def ic_boundary(h):
    r = h.rng
    cfg = sim.random_cfg(r, ndim=(1, 2, 3)[h.sample % 3], lim=False, pmax=(5, 3, 1)[h.sample % 3])
    f = sim.random_fields(r, len(cfg["passives"]))
    gam = cfg["gamma"]
    consv = bool(r.integers(2))
    d = cfg["dims"][int(r.integers(len(cfg["dims"])))]
    kinds = [("ic", "ic"), ("ic", "free"), ("free", "ic")][r.integers(3)]
    cfg["bc"] = list(cfg["bc"])
    cfg["bc"][d] = kinds
    h.record.update(cfg=sim.summary(cfg), conservative=consv)
    IC = fvhoe("initial_conditions", "InitialCondition")
    pt = (lambda x, y, z: sim.cons(f.prim(x, y, z), gam)) if consv else f.prim

    class Mine(IC):
        def base_ic(self):
            return lambda x, y, z: pt(x, y, z)[:5]

    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    s = sim.make(cfg, None, w0=Mine(), w0_passives={q: (lambda x, y, z, i=i: pt(x, y, z)[5 + i]) for i, q in enumerate(cfg["passives"])} or None,
                 conservative_ic=consv, fv_ic=False, bc=BC(**{a: b for a, b in zip("xyz", cfg["bc"])}))
    ref = dict(cfg)
    val = lambda x, y, z, t: sim.cons(f.prim(x, y, z), gam)
    ref["bc"] = [tuple("dirichlet" if q == "ic" else q for q in b) for b in cfg["bc"]]
    ref["bcval"] = [tuple(val if q == "ic" else None for q in b) for b in cfg["bc"]]
    u = arr(s, "u").copy()
    want = settled(ref, u)
    dt, du = quiet(s.f, float(r.uniform(0, 3)), u)
    close(h, "rate of change", du, want["dudt"], 1e-8)


@ob(["C13"], "time step of the solver", ALL + ["fvhoe.solver.EulerSolver.hydrofluxes"], kind="run", samples=80, budget=50, cost=4)
def solver_dt(h):
    k = h.sample
    cfg, u = draw(h, bc="any" if k % 2 else "periodic", lim=k % 4 == 0)
    if k % 5 == 0:
        cfg["fixed_dt"] = float(h.rng.uniform(1e-4, 1e-2))
    t = float(h.rng.uniform(0, 1))
    with np.errstate(all="ignore"):
        want = sim.timestep(cfg, u, t)
    if not np.isfinite(want):
        raise Reject()
    s = sim.make(cfg, u.copy())
    v = u.copy()
    dt, _ = quiet(s.f, t, v)
    h.rec("time step %r, expected %r" % (dt, want), dt > 0 and abs(dt - want) <= (0 if cfg["fixed_dt"] else 1e-9 * want))
    h.rec("state unmodified", np.array_equal(u, v))
    # the first stage fixes the step of the whole step
    method = sim.METHODS[k % 4]
    s = sim.make(cfg, u.copy())
    dt0, _ = quiet(s.f, 0.0, u.copy())
    quiet(getattr(s, method), n=1)
    h.rec("step taken %r, first stage %r (%s)" % (s.t, dt0, method), s.t == dt0)
    s = sim.make(cfg, u.copy())
    quiet(getattr(s, method), T=0.37 * dt0)
    h.rec("shortened only to land on the end", s.t == 0.37 * dt0 and s.step_count == 1)
    s = sim.make(cfg, u.copy())
    quiet(getattr(s, method), T=1.5 * dt0)
    h.rec("not shortened before it has to be", s.timestamps[1] == dt0)


@ob(["C14"], "a solver step is the Runge-Kutta step of its right-hand side", ALL + ["fvhoe.solver.EulerSolver.f", "fvhoe.solver.EulerSolver.run"], kind="run", samples=50, budget=50, cost=4)
def solver_rk(h):
    k = h.sample
    cfg, u = draw(h, bc="any" if k % 2 else "periodic", lim=k % 3 == 0, ndim=(1, 1, 2, 3)[k % 4])
    q = min(max(cfg["p"]), 3)
    method = sim.METHODS[q] if k % 2 == 0 else sim.METHODS[int(h.rng.integers(4))]
    h.record.update(method=method)
    ref_run(cfg, u, method, 2, margin=1e-8 if cfg["lim"] else -1)
    s, s0 = sim.make(cfg, u.copy()), sim.make(cfg, u.copy())
    fs = lambda v, t: dict(zip(("dt", "dudt"), quiet(s0.f, t, v.copy())))
    t, v = 0.0, u
    for _ in range(2):
        dt, v, st = sim.rk_step(cfg, v, t, method, f=fs)
        t += dt
    if k % 2 == 0:
        quiet(s.run, n=2)
    else:
        quiet(getattr(s, method), n=2)
    if not np.all(np.isfinite(v)):
        raise Reject()
    close(h, "time", s.t, t, 1e-12)
    close(h, "state", arr(s, "u"), v, 1e-10)


# ------------------------------------------------------------------ C18 / C24 / C17
@ob(["C18"], "revised fluxes of the solver", ALL + ["fvhoe.solver.EulerSolver.revise_fluxes"], kind="run", samples=120, budget=80, cost=7)
def blended(h):
    k = h.sample
    cfg, u = draw(h, bc="any" if k % 2 else "periodic", lim=True, ndim=(1, 2, 2, 3)[k % 4], style=(0, 1, 3, 2)[(k // 4) % 4])
    if cfg["lim"]["convex"] and len(cfg["dims"]) == 3:
        raise Reject()
    t = float(h.rng.uniform(0, 1))
    ref = settled(cfg, u, t)
    s = sim.make(cfg, u.copy())
    dt, du = quiet(s.f, t, u.copy())
    h.record.update(troubled=int(ref["trouble"].sum()))
    for d, (a, b) in enumerate(zip(stored_fluxes(s, cfg), ref["fluxes"])):
        if b is not None:
            close(h, "final flux along " + "xyz"[d], a, b)
    close(h, "rate of change", du, ref["dudt"])


@ob(["C17"], "troubled cells found by the solver", ALL + ["fvhoe.solver.EulerSolver.revise_fluxes", "fvhoe.slope_limiting.detect_troubled_cells"], kind="run", samples=120, budget=60, cost=6)
def solver_trouble(h):
    k = h.sample
    cfg, u = draw(h, bc="any" if k % 2 else "periodic", lim=True, ndim=(1, 2, 2, 3)[k % 4], style=(0, 1, 3, 2)[(k // 4) % 4])
    cfg["lim"]["force_trouble"] = False
    ref = settled(cfg, u, 0.0)
    s = sim.make(cfg, u.copy())
    quiet(s.euler, n=1)
    sn_ = s.snapshots[-1]
    close(h, "troubled cells", sn_["trouble"], ref["trouble"])
    close(h, "range violation", sn_["NAD violation magnitude"], ref["NAD"])
    close(h, "bound violation", sn_["PAD violation magnitude"], ref["PAD"])


@ob(["C24"], "reported trouble is the mean over the stages of the last step", ALL + ["fvhoe.solver.EulerSolver.log_troubles", "fvhoe.solver.EulerSolver.step_helper_function", "fvhoe.solver.EulerSolver.snapshot"],
    kind="run", samples=70, budget=70, cost=6)
def stage_means(h):
    k = h.sample
    method = sim.METHODS[k % 4]
    cfg, u = draw(h, bc="any" if k % 3 == 2 else "periodic", lim=True, ndim=(1, 2, 1, 2, 3)[k % 5], style=(0, 1, 3)[k % 3])
    nsteps = 1 + k % 3
    tr = ref_run(cfg, u, method, nsteps, last=0.6 if k % 2 else None)
    s = sim.make(cfg, u.copy())
    h.record.update(method=method, nsteps=nsteps)
    if k % 2:
        quiet(getattr(s, method), T=tr[-1][0], log_every_step=True)
        snaps = s.snapshots[1:]
    else:
        snaps = []
        for _ in range(nsteps):
            quiet(getattr(s, method), n=1)
            snaps.append(s.snapshots[-1])
    h.rec("a snapshot per step", len(snaps) == nsteps)
    for m, (sn_, (t, v, st)) in enumerate(zip(snaps, tr[1:])):
        h.rec("one value per cell", all(sn_[q].shape == cfg["n"] for q in ("trouble", "NAD violation magnitude", "PAD violation magnitude")))
        close(h, "time", sn_["t"], t, 1e-8)
        close(h, "trouble after step %d" % (m + 1), sn_["trouble"], np.mean([q["trouble"] for q in st], 0), 1e-9)
        close(h, "range violation after step %d" % (m + 1), sn_["NAD violation magnitude"], np.mean([q["NAD"] for q in st], 0), 1e-7)
        close(h, "bound violation after step %d" % (m + 1), sn_["PAD violation magnitude"], np.mean([q["PAD"] for q in st], 0), 1e-7)
        h.rec("in [0, 1]", bool(np.all((sn_["trouble"] >= 0) & (sn_["trouble"] <= 1))))


@ob(["C24"], "unlimited runs report no trouble; the initial snapshot reports none", ALL, kind="run", samples=8, budget=20)
def no_trouble(h):
    cfg, u = draw(h, lim=h.sample % 2 == 0, ndim=1 + h.sample % 2)
    s = sim.make(cfg, u.copy())
    quiet(s.run, n=1)
    keys = {"trouble", "NAD violation magnitude", "PAD violation magnitude"}
    for q in s.snapshots:
        h.rec("keys", keys <= set(q) if cfg["lim"] else not (keys & set(q)))
    if cfg["lim"]:
        h.rec("no trouble before the first step", all(not np.any(s.snapshots[0][q]) for q in keys))


# ------------------------------------------------------------------ C19
@ob(["C19"], "passive scalars never affect the gas and are independent", ALL, kind="run", samples=70, budget=70, cost=6)
def passive(h):
    k = h.sample
    r = h.rng
    cfg, u = draw(h, bc=("periodic", "free", "outflow", "reflective") if k % 2 else "periodic", npass=3 if k % 3 else 2, lim=k % 2 == 0, ndim=(1, 2, 1, 2, 3)[k % 5])
    method = sim.METHODS[int(r.integers(4))]
    ref_run(cfg, u, method, 2)
    m = len(cfg["passives"])
    gas = dict(cfg, passives=[])
    s0 = sim.make(gas, u[:5].copy())
    s1 = sim.make(cfg, u.copy())
    order = list(r.permutation(m))
    c2 = dict(cfg, passives=["q%d" % i for i in range(m)])
    u2 = np.concatenate([u[:5], u[5:][order]])
    s2 = sim.make(c2, u2.copy())
    one = int(r.integers(m))
    s3 = sim.make(dict(cfg, passives=["only"]), np.concatenate([u[:5], u[5 + one : 6 + one]]))
    C = float(r.normal())
    s4 = sim.make(dict(cfg, passives=["uniform", "wild"]), np.concatenate([u[:5], C * u[:1], (1e6 * r.normal(size=u.shape[1:]))[None]]))
    S = (s0, s1, s2, s3, s4)
    for s in S:
        quiet(getattr(s, method), n=2)
    for i, s in enumerate(S[1:]):
        close(h, "time of variant %d" % i, s.t, s0.t, 1e-12)
        close(h, "gas of variant %d" % i, arr(s, "u")[:5], arr(s0, "u"), 1e-10)
        if cfg["lim"]:
            for q in ("trouble", "NAD violation magnitude", "PAD violation magnitude"):
                close(h, q + " of variant %d" % i, s.snapshots[-1][q], s0.snapshots[-1][q], 1e-10)
    close(h, "reordered and renamed scalars", arr(s2, "u")[5:], arr(s1, "u")[5:][order], 1e-10)
    close(h, "a scalar alone", arr(s3, "u")[5], arr(s1, "u")[5 + one], 1e-10)
    close(h, "uniform scalar stays uniform", s4.snapshots[-1]["w"][5] if not cfg["lim"] and max(cfg["p"]) < 2 else arr(s4, "u")[5], C * (np.ones(cfg["n"]) if not cfg["lim"] and max(cfg["p"]) < 2 else arr(s4, "u")[0]), 1e-8)
    if cfg["lim"] is None:
        a, b = r.normal(size=2)
        s5 = sim.make(dict(cfg, passives=["lin"]), np.concatenate([u[:5], a * u[5:6] + b * u[6:7]]))
        quiet(getattr(s5, method), n=2)
        close(h, "linear in its initial values", arr(s5, "u")[5], a * arr(s1, "u")[5] + b * arr(s1, "u")[6], 1e-9)


# ------------------------------------------------------------------ C20
@ob(["C20"], "snapshots hold the state of their moment and are not altered later", ALL + ["fvhoe.solver.EulerSolver.snapshot"], kind="run", samples=50, budget=60, cost=4)
def snaps(h):
    k = h.sample
    cfg, u = draw(h, bc="any" if k % 2 else "periodic", lim=k % 3 == 0, ndim=(1, 2, 1, 3)[k % 4])
    fv = bool(h.rng.integers(2))
    method = sim.METHODS[int(h.rng.integers(4))]
    seen = []

    def helper(s):
        q = s.snapshots[-1]
        seen.append((s.t, arr(s, "u").copy(), {k: np.array(v, copy=True) for k, v in q.items()}))

    s = sim.make(cfg, u.copy(), snapshots_as_fv_averages=fv, snapshot_helper_function=helper)
    h.record.update(fv=fv, method=method)
    ref_run(cfg, u, method, 1, margin=-1)
    dt0, _ = quiet(sim.make(cfg, u.copy()).f, 0.0, u.copy())
    quiet(getattr(s, method), T=2.3 * dt0, downbeats=[1.2 * dt0], log_every_step=bool(k % 2))
    quiet(getattr(s, method), n=1)
    h.rec("helper called once per snapshot", len(seen) == len(s.snapshots) == len(s.snapshot_times))
    hh = sim.widths(cfg)
    for q, (t, v, orig), tt in zip(s.snapshots, seen, s.snapshot_times):
        h.rec("time", q["t"] == t == tt)
        if not np.all(np.isfinite(v)):
            raise Reject()
        with np.errstate(all="ignore"):
            want = sim.averaged_prims(cfg, v, cfg["p"], [0, 0, 0], t, fv=fv)
        close(h, "primitive variables (fv=%s)" % fv, q["w"], want, 1e-9)
        for d in range(3):
            close(h, "mesh", q["xyz"[d]], cfg["dom"][d][0] + (np.arange(cfg["n"][d]) + 0.5) * hh[d], 1e-11)
        for key in orig:
            h.rec("entry %r unchanged by later steps" % key, np.array_equal(np.asarray(q[key]), orig[key], equal_nan=True))
    for i, a in enumerate(s.snapshots):
        h.rec("not a view of the live arrays", not any(np.shares_memory(a[key], arr(s, nm)) for key in ("w", "trouble") if key in a for nm in ("u", "w", "mean trouble")))


def same_snaps(a, b):
    return len(a) == len(b) and all(set(p) == set(q) and all(np.array_equal(np.asarray(p[k]), np.asarray(q[k]), equal_nan=True) for k in p) for p, q in zip(a, b))


def disk_body(h, cfg, u, T, method, tmp):
    k = h.sample
    path = os.path.join(tmp, ["run", "deep/er/run", "run/", "./run"][k % 4])
    given = k % 3 != 0

    def build():
        if given:
            return sim.make(cfg, u.copy())
        return sim.make(cfg, u.copy(), PAD={"rho": (0.1, np.inf)} if cfg["lim"] else None)

    s = build()
    h.record.update(path=path, method=method)
    quiet(getattr(s, method), T=T, downbeats=[0.7 * T], snapshot_dir=path)
    h.rec("directory written", os.path.isdir(path))
    first = s.snapshots
    bare = build()
    quiet(getattr(bare, method), T=T, downbeats=[0.7 * T])
    h.rec("saving does not change the run", same_snaps(first, bare.snapshots))
    before = {os.path.join(d, f): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(path) for f in fs}
    # same directory again: identical list, nothing recomputed, nothing rewritten
    s2 = build()
    quiet(getattr(s2, method), T=T, downbeats=[0.7 * T], snapshot_dir=path)
    h.rec("identical snapshot list", same_snaps(first, s2.snapshots))
    h.rec("nothing recomputed", s2.f_evaluation_count == 0 and s2.step_count == 0)
    after = {os.path.join(d, f): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(path) for f in fs}
    h.rec("files untouched", before == after)
    # the same object again, and one with snapshots of its own
    quiet(getattr(s, method), T=2 * T, snapshot_dir=path)
    h.rec("running the same object again returns the stored list", same_snaps(first, s.snapshots))
    s6 = build()
    quiet(getattr(s6, method), n=1)
    quiet(getattr(s6, method), T=2 * T, snapshot_dir=path)
    h.rec("the stored list replaces earlier snapshots", same_snaps(first, s6.snapshots))
    # writing into an existing directory without permission
    s3 = build()
    quiet(getattr(s3, method), T=0.5 * T)
    s3.snapshot_dir = os.path.normpath(path)
    h.raises("existing directory is not overwritten", FileExistsError, lambda: quiet(s3.write_snapshots, False))
    after = {os.path.join(d, f): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(path) for f in fs}
    h.rec("files untouched by the refused write", before == after)
    # overwriting leaves only the new data
    open(os.path.join(path, "stale.txt"), "w").write("old")
    s4 = build()
    quiet(getattr(s4, method), T=0.5 * T, snapshot_dir=path, overwrite=True)
    h.rec("overwriting recomputes", s4.f_evaluation_count > 0 and s4.t == 0.5 * T)
    h.rec("old files are gone", not os.path.exists(os.path.join(path, "stale.txt")))
    s5 = build()
    quiet(getattr(s5, method), T=T, snapshot_dir=path)
    h.rec("the new run is what is read back", same_snaps(s4.snapshots, s5.snapshots) and s5.f_evaluation_count == 0)


@ob(["C20"], "round trip to disk and overwrite rules", ALL + ["fvhoe.solver.EulerSolver.write_snapshots", "fvhoe.solver.EulerSolver.read_snapshots", "fvhoe.ode.ODE.integrate"], kind="run", samples=24, budget=60, cost=4)
def disk(h):
    k = h.sample
    r = h.rng
    cfg, u = draw(h, lim=k % 2 == 0, ndim=1 + k % 2, pmax=3)
    cfg2 = dict(cfg)
    method = sim.METHODS[int(r.integers(4))]
    dt0, _ = quiet(sim.make(cfg, u.copy()).f, 0.0, u.copy())
    T = float(2.4 * dt0)
    tmp = tempfile.mkdtemp(prefix="fvv-")
    try:
        with contained(tmp):
            disk_body(h, cfg, u, T, method, tmp)
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------ C15 with the real solver
@ob(["C15"], "solver runs stop and snapshot at the requested times", ALL, kind="run", samples=30, budget=40, cost=3)
def solver_times(h):
    k = h.sample
    r = h.rng
    cfg, u = draw(h, lim=k % 3 == 0, ndim=1, pmax=4, style=0)
    s = sim.make(cfg, u.copy())
    dt0, _ = quiet(sim.make(cfg, u.copy()).f, 0.0, u.copy())
    T = float(dt0 * r.uniform(0.3, 6))
    beats = [float(q) for q in r.uniform(-0.2, 1.2, int(r.integers(0, 4))) * T]
    if beats and k % 2:
        beats += [beats[0], T]
    every = bool(k % 4 == 3)
    h.record.update(T=T, beats=beats, every=every)
    arg = np.array(beats) if k % 3 == 1 and beats else (beats or None)
    quiet(s.run, T=T, downbeats=arg, log_every_step=every)
    ins = sorted({b for b in beats if 0 < b < T})
    ts = s.timestamps
    h.rec("positive steps to T", ts[0] == 0 and ts[-1] == T == s.t and all(b > a for a, b in zip(ts, ts[1:])))
    h.rec("requested times hit", all(b in ts for b in ins))
    want = ts if every else [0.0] + ins + [T]
    h.rec("snapshot times %s, expected %s" % ([q["t"] for q in s.snapshots], want), [q["t"] for q in s.snapshots] == want)
