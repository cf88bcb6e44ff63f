"""Contracts: Runge-Kutta steps (C14) and the time loop (C15)."""
from fractions import Fraction as Fr
import itertools

import numpy as np

from .core import ob, fvhoe
from . import symnp as sn, terms as tm

METHODS = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "rk4": 4}


def ode_class():
    ODE = fvhoe("ode", "ODE")

    class Probe(ODE):
        """right-hand side supplied by the harness; records where it is evaluated"""

        def __init__(self, u0, rhs):
            self.rhs, self.seen = rhs, []
            super().__init__(u0, progress_bar=False)

        def get_commit_details(self):
            return {}

        def f(self, t, u):
            k = len(self.seen)
            self.seen.append((t, u.copy()))
            return self.rhs(k, t, u)

    return Probe


def make_stepper(probe, method):
    """the step function installed by a method, without running a loop"""
    probe.integrate = lambda *a, **k: None
    getattr(probe, method)(T=1.0)
    del probe.integrate
    return probe.stepper


def tableau(method):
    """coefficients of the step, read off the real code with unit inputs"""
    Probe = ode_class()
    with np.errstate(all="ignore"):
        sn.uninstall()
        try:
            p = Probe(np.zeros(1), lambda k, t, u: (1.0, np.zeros(1)))
            make_stepper(p, method)(0.0, np.zeros(1))
            s = len(p.seen)
            c = [Fr(x[0]).limit_denominator(1000) for x in p.seen]
            A = [[Fr(0)] * s for _ in range(s)]
            b = [Fr(0)] * s
            for j in range(s):
                q = Probe(np.zeros(1), lambda k, t, u: (1.0, np.ones(1) if k == j else np.zeros(1)))
                _, un = make_stepper(q, method)(0.0, np.zeros(1))
                for i in range(min(s, len(q.seen))):
                    A[i][j] = Fr(float(q.seen[i][1][0])).limit_denominator(1000)
                b[j] = Fr(float(un[0])).limit_denominator(1000)
        finally:
            pass
    return A, b, c


def order_conditions(A, b, c, q):
    s = len(b)
    S = range(s)
    out = [("sum b = 1", sum(b) == 1)]
    for i in S:
        out.append(("stage %d: explicit and c = row sum" % i, all(A[i][j] == 0 for j in S if j >= i) and sum(A[i]) == c[i]))
    if q >= 2:
        out.append(("sum b c = 1/2", sum(b[i] * c[i] for i in S) == Fr(1, 2)))
    if q >= 3:
        out.append(("sum b c^2 = 1/3", sum(b[i] * c[i] ** 2 for i in S) == Fr(1, 3)))
        out.append(("sum b A c = 1/6", sum(b[i] * A[i][j] * c[j] for i in S for j in S) == Fr(1, 6)))
    if q >= 4:
        out.append(("sum b c^3 = 1/4", sum(b[i] * c[i] ** 3 for i in S) == Fr(1, 4)))
        out.append(("sum b c A c = 1/8", sum(b[i] * c[i] * A[i][j] * c[j] for i in S for j in S) == Fr(1, 8)))
        out.append(("sum b A c^2 = 1/12", sum(b[i] * A[i][j] * c[j] ** 2 for i in S for j in S) == Fr(1, 12)))
        out.append(("sum b A A c = 1/24", sum(b[i] * A[i][j] * A[j][k] * c[k] for i in S for j in S for k in S) == Fr(1, 24)))
    return out


def num(h, f):
    return sn.S(tm.num(f)) if h.sym else float(f)


@ob("C14", "one step is a Runge-Kutta step of the stated order", ["fvhoe.ode.ODE.euler", "fvhoe.ode.ODE.ssprk2", "fvhoe.ode.ODE.ssprk3", "fvhoe.ode.ODE.rk4", "fvhoe.ode._hit_target"],
    cases=[dict(method=m, target=t) for m in METHODS for t in (False, True)], samples=4)
def step(h, method, target):
    A, b, c = tableau(method)
    if h.sym:
        sn.install()
    for name, ok in order_conditions(A, b, c, METHODS[method]):
        h.rec("order condition: " + name, ok)
    s = len(b)
    n = [h.int("n%d" % k, 1, small=3) for k in range(2)]
    u = h.array("u", n)
    u0 = u.copy()
    k_ = [h.array("k%d" % i, n) for i in range(s)]
    kk = [a.copy() for a in k_]
    dts = [h.real("dt%d" % i, 0) for i in range(s)]
    t = h.real("t")
    Probe = ode_class()
    p = Probe(h.array("dummy", n), lambda i, t, u: (dts[i], k_[i]))
    st = make_stepper(p, method)
    if target:
        tt = h.real("target")
        dt, un = st(t, u, target_time=tt)
        h.prove_eq("step shortened exactly when it would pass the target", dt, h.ite(h.lt(tt - t, dts[0]), tt - t, dts[0]))
    else:
        dt, un = st(t, u)
        h.prove_eq("step size of the first stage", dt, dts[0])
    h.rec("number of stages", len(p.seen) == s)
    for i in range(s):
        ti, ui = p.seen[i]
        h.prove_eq("time of stage %d" % i, ti, t + num(h, c[i]) * dt)
        h.forall("state of stage %d" % i, n, lambda q: h.eq(ui[q], u0[q] + dt * sum((num(h, A[i][j]) * kk[j][q] for j in range(i)), 0 * dt)))
    h.forall("new state", n, lambda q: h.eq(un[q], u0[q] + dt * sum(num(h, b[j]) * kk[j][q] for j in range(s))))
    h.forall_eq("old state unchanged", u, u0)
    for j in range(s):
        h.forall_eq("slopes unchanged", k_[j], kk[j])


@ob(["C14", "C15"], "taking a step advances state, time and counters together", ["fvhoe.ode.ODE.take_step"],
    cases=[dict(method=m, target=t) for m in METHODS for t in (False, True)], samples=4)
def take(h, method, target):
    A, b, c = tableau(method)
    if h.sym:
        sn.install()
    s = len(b)
    n = [h.int("n%d" % k, 1, small=3) for k in range(2)]
    u = h.array("u", n)
    u0 = u.copy()
    k_ = [h.array("k%d" % i, n) for i in range(s)]
    dts = [h.real("dt%d" % i, 0) for i in range(s)]
    p = ode_class()(u, lambda i, t, u: (dts[i], k_[i]))
    make_stepper(p, method)
    t = h.real("t")
    p.t = t
    hist = [h.real("before")]
    p.timestamps = list(hist)
    p.step_count = m = h.int("m", 0, small=5)
    calls = []
    p.step_helper_function = lambda: calls.append(p.t)
    if target:
        tt = h.real("target")
        h.assume(h.lt(t, tt))
        p.take_step(target_time=tt)
        dt = h.ite(h.lt(tt - t, dts[0]), tt - t, dts[0])
    else:
        p.take_step()
        dt = dts[0]
    h.prove_eq("time advances by the step", p.t, t + dt)
    h.prove("time increases", h.lt(t, p.t))
    if target:
        h.prove("never past the target", h.le(p.t, tt, 0))
    h.rec("one more time stamp", len(p.timestamps) == 2)
    h.prove_eq("earlier time stamps kept", p.timestamps[0], hist[0])
    h.prove_eq("time stamp", p.timestamps[-1], p.t)
    h.prove_eq("step count", p.step_count, m + 1)
    h.rec("helper called once after the step", len(calls) == 1)
    h.prove_eq("helper sees the new time", calls[0], p.t)
    h.forall("stored state", n, lambda q: h.eq(p.am("u")[q], u0[q] + dt * sum(num(h, b[j]) * k_[j][q] for j in range(s))))


@ob("C14", "run picks the integrator matching the degree", ["fvhoe.solver.EulerSolver.run"], cases=[dict(k=k) for k in range(3)], samples=6)
def pick(h, k):
    E = fvhoe("solver", "EulerSolver")
    s = E.__new__(E)
    p = [h.int("p%d" % d, 0, small=8) for d in range(3)]
    s.p = tuple(p)
    used = []
    for m in METHODS:
        setattr(s, m, lambda *a, _m=m, **kw: used.append((_m, a, kw)))
    s.run(1.5, log_every_step=True)
    h.rec("exactly one integrator, arguments passed on", len(used) == 1 and used[0][1:] == ((1.5,), dict(log_every_step=True)))
    q = METHODS[used[0][0]]
    top = h.max(*p)
    h.prove_eq("order", q, h.min(top, 3) + 1)


# ------------------------------------------------------------------ C15
def loop_probe(h, dts, extra=None):
    """time loop over an arbitrary sequence of step sizes"""
    one = np.zeros(1)

    def rhs(k, t, u):
        if k >= len(dts):
            dts.append(h.real("dt%d" % k, 0))
        return dts[k], 0.0 * u

    return ode_class()(np.zeros(1), rhs)


def trace_spec(h, p, T, beats, start, first_snap, exact, every, method_stages=1):
    """snapshot times, step times and end of a finished run"""
    ts, sn_ = p.timestamps, p.snapshot_times[first_snap:]
    for a, b in zip(ts, ts[1:]):
        h.prove("steps are positive", h.lt(a, b))
    h.prove_eq("last time stamp is the final time", ts[-1], p.t)
    h.rec("step count", p.step_count == len(ts) - 1)
    h.prove("ends at or after T", h.le(T, p.t, 0))
    if exact:
        h.prove("ends exactly at T", h.eq(p.t, T) if h.sym else p.t == T)
    h.prove_eq("snapshot at the start", sn_[0], start)
    h.prove_eq("snapshot at the end", sn_[-1], p.t)
    for a, b in zip(sn_, sn_[1:]):
        h.prove("snapshots in increasing order", h.lt(a, b))


@ob("C15", "time loop, all step sequences up to four steps", ["fvhoe.ode.ODE.integrate", "fvhoe.ode.ODE.take_step", "fvhoe.ode._hit_target"],
    cases=[dict(beats=b, exact=e, every=v) for b, e, v in ((0, True, False), (1, True, False), (2, True, False), (0, False, False), (1, True, True), (1, False, False))],
    paths=6000, budget=120, samples=10, cost=5,
    assumes=["bounded: the symbolic time loop is unrolled to four or five steps; longer runs and coinciding requested times are sampled"])
def loop(h, beats, exact, every):
    dts = []
    p = loop_probe(h, dts)
    start = h.real("start", 0, strict=False)
    p.t = start
    p.timestamps = [start]
    T = h.real("T")
    h.assume(h.lt(start, T))
    B = [h.real("beat%d" % k) for k in range(beats)]
    if h.sym:
        # symbolic values are not merged by set(); coinciding requested times are covered by the histories below
        for k, b in enumerate(B):
            h.assume(h.not_(h.eq(b, T)))
            for c in B[:k]:
                h.assume(h.not_(h.eq(b, c)))
    limit = 4 + beats if beats < 2 else 4
    orig = p.take_step

    class Cut(Exception):
        pass

    def take(*a, **k):
        if len(dts) >= limit and h.sym or len(dts) > 5000:
            raise Cut()
        return orig(*a, **k)

    p.take_step = take
    if not h.sym:
        h.assume(T - start < 200)
    try:
        p.euler(T=T, downbeats=list(B) if beats else None, exact=exact, log_every_step=every)
    except Cut:
        h.rec("longer than the unrolling bound (not covered here)", True)
        return
    trace_spec(h, p, T, B, start, 0, exact, every)
    same = (lambda a, b: h.eq(a, b)) if h.sym else (lambda a, b: a == b)
    if exact:
        for b in B:
            inside = h.and_(h.lt(start, b), h.le(b, T, 0))
            h.prove("snapshot at each requested time inside the run", h.implies(inside, h.or_(*[same(s, b) for s in p.snapshot_times])))
            for a, c in zip(p.timestamps, p.timestamps[1:]):
                h.prove("no step jumps over a requested time", h.not_(h.and_(h.lt(a, b), h.lt(b, c), h.le(b, T, 0))))
    if every:
        h.rec("a snapshot per step", len(p.snapshot_times) == len(p.timestamps))
    for s in p.snapshot_times:
        h.prove("snapshots only at start, requested times, end or steps asked for",
                h.or_(same(s, start), same(s, p.t), *([same(s, b) for b in B] if exact else []), *([same(s, q) for q in p.timestamps] if every else [])))


@ob("C15", "landing on a target", ["fvhoe.ode._hit_target"], samples=6)
def hit(h):
    f = fvhoe("ode", "_hit_target")
    t, dt, target = h.real("t"), h.real("dt", 0), h.real("target")
    h.prove_eq("no target", f(t=t, dt=dt), dt)
    h.prove_eq("no target given as None", f(t=t, dt=dt, target=None), dt)
    h.prove_eq("shortened exactly when needed", f(t=t, dt=dt, target=target), h.ite(h.lt(target - t, dt), target - t, dt))


@ob("C15", "n steps", ["fvhoe.ode.ODE.integrate"], cases=[dict(n=n) for n in (0, 1, 3)], samples=3)
def nsteps(h, n):
    dts = []
    p = loop_probe(h, dts)
    start = h.real("start", 0, strict=False)
    p.t = start
    p.timestamps = [start]
    p.euler(n=n)
    h.rec("exactly n steps", p.step_count == n and len(p.timestamps) == n + 1)
    h.rec("snapshot before and after", len(p.snapshot_times) == 2)
    h.prove_eq("before", p.snapshot_times[0], start)
    h.prove_eq("after", p.snapshot_times[1], start + sum(dts[:n], 0 * start))


@ob("C15", "histories of runs", ["fvhoe.ode.ODE.integrate", "fvhoe.ode.ODE.take_step"], kind="run", samples=150, budget=25)
def histories(h):
    """several runs of one object, random step sizes and targets in any order with duplicates"""
    r = h.rng
    style = int(r.integers(3))
    base = float(np.exp(r.normal() * 1.5))
    step = {0: lambda: base, 1: lambda: base * float(r.uniform(0.01, 3)), 2: lambda: float(np.exp(2 * r.normal())) * base}[style]
    p = ode_class()(np.array([1.0]), lambda k, t, u: (step(), -u))
    for run in range(int(r.integers(1, 4))):
        start, i0, m0, c0 = p.t, len(p.snapshot_times), len(p.timestamps), p.step_count
        method = list(METHODS)[r.integers(4)]
        if r.uniform() < 0.2:
            n = int(r.integers(0, 5))
            getattr(p, method)(n=n)
            h.rec("exactly n steps", p.step_count == c0 + n and len(p.timestamps) == m0 + n)
            h.rec("two snapshots", p.snapshot_times[i0:] == [start, p.t])
            continue
        T = start + base * float(r.uniform(0.1, 12))
        exact = bool(r.uniform() < 0.8)
        every = bool(r.uniform() < 0.3)
        nb = int(r.integers(0, 6))
        beats = [float(start + (T - start) * q) for q in r.uniform(-0.3, 1.3, nb)]
        if nb and r.uniform() < 0.5:
            beats = beats + [beats[0], T, start]
        if nb and r.uniform() < 0.3:
            beats = [float(np.round(b, 2)) for b in beats]
        r.shuffle(beats)
        form = int(r.integers(3))
        give = None if not beats else (list(beats) if form == 0 else np.array(beats) if form == 1 else tuple(beats))
        keep = None if give is None else list(beats)
        h.record.update(start=start, T=T, beats=beats, exact=exact, every=every, style=style, base=base, method=method, run=run)
        getattr(p, method)(T=T, downbeats=give, exact=exact, log_every_step=every)
        if give is not None:
            h.rec("the caller's list is not altered", list(give) == keep)
        ts, ss = p.timestamps[m0 - 1:], p.snapshot_times[i0:]
        h.rec("step times start at the start", ts[0] == start)
        h.rec("positive steps", all(b > a for a, b in zip(ts, ts[1:])))
        h.rec("time stamps complete", ts[-1] == p.t and p.step_count == c0 + len(ts) - 1)
        inside = sorted({b for b in beats if start < b < T}) if exact else []
        if exact:
            h.rec("ends exactly at T", p.t == T)
            h.rec("never passes a requested time", all(b in ts for b in inside))
        else:
            h.rec("ends at the first step past T", ts[-1] >= T and (len(ts) < 2 or ts[-2] < T))
        if every:
            want = ts
        else:
            want = [start] + inside + [p.t]
        h.rec("snapshot times %s, expected %s" % (ss, want), list(ss) == list(want))
        h.rec("one snapshot per time", len(p.snapshots) == len(p.snapshot_times))
