"""Contracts: the time loop for any number of steps (C15), what a step reports (C24), what a snapshot holds (C20)."""
import numpy as np

from .core import ob, fvhoe
from . import symnp as sn, terms as tm
from . import loops
from .obl_ode import ode_class, METHODS
from .obl_solver import SV, S, arr, ALLD, solver, stub_method, bound, orig, only_symbolic


class Rest:
    """an arbitrary strictly increasing list of times above a bound; knows which marked times are in it"""

    def __init__(self, h, above, marked, tag="rest"):
        self.h, self.tag, self.k, self.popped = h, tag, 0, []
        self.state(above, marked, None)

    def state(self, above, marked, old):
        h, k = self.h, self.k
        self.empty = h.lt(0, h.real("%s_empty%d" % (self.tag, k)))
        self.head = h.real("%s%d" % (self.tag, k))
        self.marked = [(x, h.lt(0, h.real("%s_has%d_%d" % (self.tag, q, k)))) for q, (x, _) in enumerate(marked)]
        h.assume(h.implies(h.not_(self.empty), h.lt(above, self.head)))
        for x, m in self.marked:
            h.assume(h.implies(m, h.and_(h.not_(self.empty), h.le(self.head, x, 0))))
        self.above = above

    def __bool__(self):
        return not bool(self.empty)

    def __len__(self):
        raise sn.Unsupported("length of an arbitrary list")

    def __iter__(self):
        raise sn.Unsupported("arbitrary list")

    def __getitem__(self, k):
        if k != 0 or bool(self.empty):
            raise sn.Unsupported("element of an arbitrary list")
        return self.head

    def pop(self, *a):
        if a != (0,):
            raise sn.Unsupported("pop")
        if bool(self.empty):
            raise IndexError("pop from empty list")
        h, x, old = self.h, self.head, self.marked
        self.popped.append(x)
        self.k += 1
        self.state(x, old, old)
        for (m, was), (_, now) in zip(old, self.marked):
            h.assume(h.implies(was, h.or_(h.eq(m, x), now)))
            h.assume(h.implies(now, was))
        return x


@ob("C15", "time loop, any number of steps", ["fvhoe.ode.ODE.integrate", "fvhoe.ode.ODE.take_step", "fvhoe.ode._hit_target"],
    cases=[dict(beats=b, exact=e, every=v) for b, e, v in ((0, True, False), (1, True, False), (2, True, True), (3, True, False), (0, False, False), (2, False, True), (1, False, False))],
    paths=3000, budget=120, samples=0, cost=3,
    assumes=["the number of requested times is 0 to 3 at the entry of the loop (arbitrary inside the loop); requested times are pairwise different there"])
def loop(h, beats, exact, every):
    only_symbolic(h)
    ODE = fvhoe("ode", "ODE")
    dts = []

    def rhs(k, t, u):
        dts.append(h.real("dt%d" % k, 0))
        return dts[-1], 0.0 * u

    p = ode_class()(np.zeros(1), rhs)
    start, T = h.real("start"), h.real("T")
    p.t, p.timestamps = start, [start]
    B = [h.real("beat%d" % k) for k in range(beats)]
    for k, b in enumerate(B):
        h.assume(h.not_(h.eq(b, T)))
        for c in B[:k]:
            h.assume(h.not_(h.eq(b, c)))
    # an arbitrary requested time inside the run
    X = B[0] if B else T
    h.assume(h.implies(h.lt(start, T), h.and_(h.lt(start, X), h.le(X, T, 0))))
    top = h.max(start, T)
    cur = {}

    def roles(loc, names):
        """the loop's state: the current target and the list of later targets"""
        lists = [k for k, v in loc.items() if isinstance(v, (list, Rest))]
        tgt = [k for k in names if k in loc and k not in lists]
        if len(lists) != 1 or len(tgt) != 1 or not (loc[tgt[0]] is None or isinstance(loc[tgt[0]], sn.S)):
            raise sn.Unsupported("state of the loop: %s %s" % (lists, tgt))
        return lists[0], tgt[0]

    def enter(loc, names):
        if "self" not in loc or loc["self"] is not p:
            raise sn.Unsupported("self")
        L, G = roles(loc, names)
        rest, tgt = list(loc[L]), loc[G]
        # the invariant holds at the start
        h.prove_eq("starts at the start", p.t, start)
        h.rec("one snapshot before the first step", len(p.snapshot_times) == 1)
        h.prove_eq("initial snapshot", p.snapshot_times[0], start)
        if exact and bool(h.lt(start, T)):
            h.rec("invariant: a target", tgt is not None)
            h.prove("invariant: targets lie ahead", h.lt(start, tgt))
            for a, b in zip([tgt] + rest, rest):
                h.prove("invariant: targets increase", h.lt(a, b))
            for q in B + [T]:
                h.prove("invariant: requested times ahead are targets", h.implies(h.lt(start, q), h.or_(*[h.eq(q, z) for z in [tgt] + rest])))
            for z in [tgt] + rest:
                h.prove("invariant: only requested times are targets", h.or_(*[h.eq(q, z) for q in B + [T]]))
        if not exact:
            h.rec("invariant: no target", tgt is None)
        # an arbitrary state with the invariant
        t = h.real("t_")
        h.assume(h.le(start, t, 0))
        p.t, p.timestamps, p.step_count = t, [t], h.int("m", 0)
        p.snapshots, p.snapshot_times = [], []
        del dts[:]
        if exact:
            h.assume(h.le(t, top, 0))
        new = {}
        if exact:
            target = h.real("target_")
            new[G] = target
            new[L] = Rest(h, target, [(X, None), (T, None)])
            h.assume(h.implies(h.lt(t, T), h.and_(h.lt(t, target), h.le(target, T, 0))))
            for x, m in new[L].marked:
                h.assume(h.implies(h.and_(h.lt(t, T), h.lt(t, x)), h.or_(h.eq(x, target), m)))
        else:
            new[L] = loc[L]
            target = None
        cur.update(L=L, G=G, t=t, target=target, m=p.step_count, rest=new[L])
        return new

    def again(loc):
        t0, t, target, rest = cur["t"], p.t, cur["target"], cur["rest"]
        h.prove("time increases", h.lt(t0, t))
        h.rec("one time stamp per step", len(p.timestamps) == 2)
        h.prove_eq("time stamp", p.timestamps[-1], t)
        h.prove_eq("step count", p.step_count, cur["m"] + 1)
        h.rec("at most one snapshot per step", len(p.snapshot_times) <= 1 and len(p.snapshots) == len(p.snapshot_times))
        for q in p.snapshot_times:
            h.prove_eq("snapshot of the current time", q, t)
        snapped = len(p.snapshot_times) == 1
        if every:
            h.rec("snapshot of every step", snapped)
        elif snapped:
            h.prove("snapshots at requested times and the end only", h.or_(h.le(T, t, 0), *([h.eq(t, target)] if exact else [])))
        if not snapped:
            h.prove("snapshot at the end", h.lt(t, T))
        if not exact:
            h.rec("invariant: no target", loc[cur["G"]] is None)
            return
        h.prove("invariant: never past T", h.le(t, T, 0))
        # the arbitrary requested time
        h.prove("no step jumps over a requested time", h.not_(h.and_(h.lt(t0, X), h.lt(X, t))))
        if not snapped:
            h.prove("snapshot at each requested time", h.not_(h.eq(X, t)))
        # the invariant holds again
        new = loc[cur["G"]]
        h.rec("invariant: the same list", loc[cur["L"]] is rest)
        h.prove("invariant: the target is one of the requested times", h.or_(*[h.eq(new, q) for q in [target] + rest.popped]))
        more = h.lt(t, T)
        h.prove("invariant: target ahead", h.implies(more, h.and_(h.lt(t, new), h.le(new, T, 0))))
        h.prove("invariant: later targets above the target", h.implies(more, h.le(new, rest.above, 0)))
        for x, m in rest.marked:
            h.prove("invariant: requested times ahead are targets", h.implies(h.and_(more, h.lt(t, x)), h.or_(h.eq(x, new), m)))
        raise loops.Cut()

    def again_(loc):
        again(loc)
        raise loops.Cut()

    p.integrate = loops.cut(ODE.integrate, "while", enter, again_).__get__(p)
    try:
        p.euler(T=T, downbeats=list(B) if beats else None, exact=exact, log_every_step=every)
    except loops.Cut:
        return
    if not cur:
        raise sn.Unsupported("loop not reached")
    h.prove_eq("end of an arbitrary run", p.t, cur["t"])
    h.prove("ends at or after T", h.le(T, p.t, 0))
    if exact:
        h.prove("ends exactly at T", h.implies(h.lt(start, T), h.eq(p.t, T)))
    h.rec("nothing after the loop", not p.snapshot_times and len(p.timestamps) == 1)


@ob("C15", "n steps, any n", ["fvhoe.ode.ODE.integrate", "fvhoe.ode.ODE.take_step"], samples=0)
def nsteps(h):
    only_symbolic(h)
    ODE = fvhoe("ode", "ODE")
    p = ode_class()(np.zeros(1), lambda k, t, u: (h.real("dt%d" % k, 0), 0.0 * u))
    start, n = h.real("start"), h.int("n", 0)
    p.t, p.timestamps, c0 = start, [start], h.int("c0", 0)
    p.step_count = c0
    cur = {}

    def enter(loc, names, it):
        if not isinstance(it, loops.SymRange) or any(q in loc for q in names):
            raise sn.Unsupported("loop over %s, state %s" % (type(it), names))
        h.prove_eq("as many iterations as asked for", it.n, n)
        h.rec("one snapshot before the first step", len(p.snapshot_times) == 1)
        h.prove_eq("initial snapshot", p.snapshot_times[0], start)
        h.prove_eq("no step yet", p.step_count, c0)
        k = h.int("k", 0)
        h.assume(h.le(k, n, 0))
        t = h.real("t_")
        h.assume(h.implies(h.eq(k, 0), h.eq(t, start)))
        p.t, p.timestamps, p.step_count, p.snapshot_times, p.snapshots = t, [t], c0 + k, [], []
        cur.update(k=k, t=t)
        if bool(h.lt(k, n)):
            yield k

    def again(loc):
        h.prove_eq("one step per iteration", p.step_count, c0 + cur["k"] + 1)
        h.rec("one time stamp", len(p.timestamps) == 2 and not p.snapshot_times)
        h.prove("time increases", h.lt(cur["t"], p.t))
        h.prove_eq("time stamp", p.timestamps[-1], p.t)
        raise loops.Cut()

    p.integrate = loops.cut(ODE.integrate, "for", enter, again).__get__(p)
    try:
        p.euler(n=n)
    except loops.Cut:
        return
    if not cur:
        raise sn.Unsupported("loop not reached")
    h.prove_eq("exactly n steps", p.step_count, c0 + n)
    h.rec("one snapshot after the last step", len(p.snapshot_times) == 1 and len(p.snapshots) == 1)
    h.prove_eq("final snapshot", p.snapshot_times[0], p.t)


# ------------------------------------------------------------------ C24
MEANS = ["mean trouble", "mean NAD mag", "mean PAD mag"]


@ob("C24", "a step reports the mean over its stages", ["fvhoe.ode.ODE.take_step", "fvhoe.ode.ODE.*.stepper", SV + "log_troubles", SV + "step_helper_function", SV + "revise_fluxes (contract)"],
    cases=[dict(dims=d, method=m, first=f) for k, d in enumerate(ALLD) for j, m in enumerate(METHODS) for f in (True, False) if (k + j + f) % 2], samples=0)
def step_means(h, dims, method, first):
    only_symbolic(h)
    n = [h.int("n" + a, 2) if a in dims else 1 for a in "xyz"]
    s, u = solver(h, dims, (0, 0, 0), n, a_posteriori_slope_limiting=True)
    s.integrate = lambda *a, **k: None
    getattr(s, method)(T=1.0)
    del s.integrate
    stage = [0]

    def put(name, k):
        return arr(n, lambda i: tm.tonum(tm.app("T%d" % k, i, "B")) if name == "T" else tm.app("%s%d" % (name, k), i, "R"))

    def f(t, u):
        # contract of the right-hand side: one detection, reported once
        k = stage[0]
        stage[0] += 1
        s.log_troubles(put("T", k), put("NAD", k), put("PAD", k))
        return h.real("dt%d" % k, 0), h.array("k%d" % k, [5] + n)

    s.f = f
    if not first:
        # any earlier step
        s.take_step()
    k0 = stage[0]
    s.take_step()
    ks = range(k0, stage[0])
    h.rec("at least one stage", len(ks) > 0)
    at = lambda name, k, i: S(put(name, k).fn()(tuple(sn.to_t(q) for q in i)))
    for name, key in zip(("T", "NAD", "PAD"), MEANS):
        h.forall(key, n, lambda i, name=name, key=key: h.eq(s.am(key)[i] * len(ks), sum((at(name, k, i) for k in ks), 0)))
    h.forall("trouble in [0, 1]", n, lambda i: h.and_(h.le(0, s.am("mean trouble")[i], 0), h.le(s.am("mean trouble")[i], 1, 0)))


@ob("C24", "each stage detects and reports once", [SV + "f", SV + "hydrodynamics", SV + "revise_fluxes (contract)", SV + "hydrofluxes (contract)"], cases=[dict(dims=d, limit=l) for d in ALLD for l in (True, False)], samples=0)
def one_detection(h, dims, limit):
    only_symbolic(h)
    n = [h.int("n" + a, 2) if a in dims else 1 for a in "xyz"]
    calls, revs, logs = [], [], []
    shp = lambda d: [5] + [m + (1 if e == d else 0) for e, m in enumerate(n)]
    stub_method(h, "hydrofluxes", lambda self, b: (h.real("dt", 0), tuple(arr(shp(d), lambda i, a=a: tm.app("hi" + a, i, "R")) if "xyz"[d] in dims else self.am(a) for d, a in enumerate("FGH"))), calls)
    stub_method(h, "revise_fluxes", lambda self, b: None, revs)
    s, u = solver(h, dims, (0, 0, 0), n, a_posteriori_slope_limiting=limit)
    real = s.log_troubles
    s.log_troubles = lambda *a, **k: logs.append(a)
    s.f(h.real("t"), s.am("u"))
    h.rec("one detection per stage exactly when limiting is on", len(revs) == (1 if limit else 0))
    h.rec("nothing else reported", not logs)


# ------------------------------------------------------------------ C20
@ob(["C20", "C24"], "a snapshot holds copies of the state of its moment", [SV + "snapshot", "fvhoe.array_management.ArrayManager.get_numpy", SV + "interpolate_primitives_from_conservatives (contract)"],
    cases=[dict(dims=d, limit=l, fv=f, nv=5 + k % 2) for k, d in enumerate(ALLD) for l, f in ((True, True), (False, False), (True, False), (False, True))], samples=0)
def snapshot(h, dims, limit, fv, nv):
    only_symbolic(h)
    n = [h.int("n" + a, 2) if a in dims else 1 for a in "xyz"]
    p = tuple(2 if a in dims else 0 for a in "xyz")
    calls = []
    E = fvhoe("solver", "EulerSolver")
    real = orig(h, E, "interpolate_primitives_from_conservatives")

    def prims(self, *a, **k):
        b = dict(bound(real, (self,) + a, k))
        m = len(calls)
        b["u"] = sn.as_sym(b["u"]).copy()
        calls.append(b)
        g = [int(q) for q in b["gw"]]
        return arr([nv] + [q + 2 * e for q, e in zip(n, g)], lambda i: tm.app("prim%d" % m, i, "R"))

    s, u = solver(h, dims, p, n, nv, a_posteriori_slope_limiting=limit, snapshots_as_fv_averages=fv)
    h.stub_attr(E, "interpolate_primitives_from_conservatives", prims, hard=True)
    put = lambda name: s.am(name).__setitem__(Ellipsis, arr(list(s.am(name).shape), lambda i: tm.app("any_" + name.replace(" ", "_"), i, "R")))
    if limit:
        for m in MEANS:
            put(m)
    put("u")
    u0 = s.am("u").copy()
    t = h.real("t")
    s.t = t
    before = dict(x=s.x, y=s.y, z=s.z)
    earlier = [dict(t=0.0)]
    s.snapshots, s.snapshot_times = list(earlier), [0.0]
    s.snapshot()
    h.rec("one more snapshot, earlier ones kept", len(s.snapshots) == 2 and s.snapshots[0] is earlier[0] and len(s.snapshot_times) == 2)
    log = s.snapshots[-1]
    h.prove_eq("time of the snapshot", log["t"], t)
    h.prove_eq("listed time", s.snapshot_times[-1], t)
    if len(calls) != 1:
        raise sn.Unsupported("primitives evaluated %d times" % len(calls))
    c = calls[0]
    h.forall_eq("primitives of the state", c["u"], u0)
    h.rec("averages or centre values as configured", bool(c["fv_average"]) == fv and tuple(c["p"]) == p and all(int(g) == 0 for g in c["gw"]))
    h.rec("at the current time", c["t"] is None or c["t"] is t)
    keys = {"trouble": "mean trouble", "NAD violation magnitude": "mean NAD mag", "PAD violation magnitude": "mean PAD mag"}
    h.rec("activity exactly for limited runs", all((k in log) == limit for k in keys))

    def check(when):
        h.same_shape("state " + when, log["w"], [nv] + n)
        h.forall("state " + when, [nv] + n, lambda i: h.eq(log["w"][i], S(tm.app("prim0", tuple(sn.to_t(q) for q in i), "R"))))
        if limit:
            for k, m in keys.items():
                h.same_shape("%s %s" % (k, when), log[k], n)
                h.forall("%s %s" % (k, when), n, lambda i: h.eq(log[k][i], S(tm.app("any_" + m.replace(" ", "_"), tuple(sn.to_t(q) for q in i), "R"))))
        for a in "xyz":
            h.rec("mesh " + a, log[a].shape == before[a].shape)
            h.forall_eq("mesh %s %s" % (a, when), log[a], before[a])

    check("at its moment")
    h.forall_eq("the state is not altered", s.am("u"), u0)
    # whatever later steps write into the solver's arrays
    for name in list(s.am.arrays):
        if s.am(name).dtype != bool:
            s.am(name)[...] = arr(list(s.am(name).shape), lambda i, name=name: tm.app("later_" + name.replace(" ", "_"), i, "R"))
    s.t = h.real("later")
    s.snapshot()
    check("after later steps")
    h.prove_eq("time of the snapshot after later steps", log["t"], t)
