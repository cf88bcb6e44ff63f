"""Contracts over histories: what a stored step, the loop around it and repeated evaluations may do (C01, C02, C03, C13)."""
import numpy as np

from .core import ob, fvhoe
from . import symnp as sn, terms as tm
from . import loops
from .obl_ode import ode_class, make_stepper, METHODS
from .obl_solver import SV, S, arr, ALLD, solver, stub_method, only_symbolic, face_shape, stub_stencils, stub_bc, stub_riemann, stub_dt, sizes, row
from .obl_steps import Rest

STEPS = [dict(dims=d, method=m, target=t, limit=l) for k, (d, m, t, l) in enumerate((d, m, t, l) for d in ("x", "yz", "xyz") for m in METHODS for t in (False, True) for l in (False, True))
         if k % 3 == 0]


def stored_step(h, dims, method, target, limit, rate):
    """one step of a solver, right-hand side replaced by its contract: rates, and one report per stage when limiting"""
    n = [h.int("n" + a, 2) if a in dims else 1 for a in "xyz"]
    nv = 6
    s, u = solver(h, dims, (0, 0, 0), n, nv, a_posteriori_slope_limiting=limit)
    make_stepper(s, method)
    stage = []

    def f(t, v):
        k = len(stage)
        stage.append(k)
        if limit:
            s.log_troubles(*[arr(n, lambda i, q=q: tm.app("%s%d" % (q, k), i, "R")) for q in ("T", "NAD", "PAD")])
        return h.real("dt%d" % k, 0), rate(k, [nv] + n)

    s.f = f
    t = h.real("t")
    s.t = t
    u0 = s.am("u").copy()
    if target:
        tt = h.real("target")
        h.assume(h.lt(t, tt))
        s.take_step(target_time=tt)
    else:
        s.take_step()
    return s, u0, [nv] + n


@ob("C01", "a stored step adds one combination of the stage rates", ["fvhoe.ode.ODE.take_step", SV + "step_helper_function", "fvhoe.ode.ODE.*.stepper"], cases=STEPS, samples=0)
def conserve_step(h, dims, method, target, limit):
    """sums that every rate leaves alone stay (checked on the sum of two arbitrary cells)"""
    only_symbolic(h)
    ks = []

    def rate(k, shape):
        ks.append(h.array("k%d" % k, shape))
        return ks[-1]

    s, u0, shape = stored_step(h, dims, method, target, limit, rate)
    i, j = h.skolem(shape), h.skolem(shape)
    new = s.am("u")
    h.prove("conserved sum", h.implies(h.and_(*[h.eq(k[i] + k[j], 0) for k in ks]), h.eq(new[i] + new[j], u0[i] + u0[j])))


@ob("C03", "a stored step without rates keeps the state", ["fvhoe.ode.ODE.take_step", SV + "step_helper_function", "fvhoe.ode.ODE.*.stepper"], cases=STEPS, samples=0)
def uniform_step(h, dims, method, target, limit):
    only_symbolic(h)
    s, u0, shape = stored_step(h, dims, method, target, limit, lambda k, shape: arr(shape, lambda i: tm.ZERO))
    h.forall("state kept", shape, lambda i: h.eq(s.am("u")[i], u0[i]))


@ob(["C01", "C03"], "a run changes the state by its steps only", ["fvhoe.ode.ODE.integrate"], cases=[dict(way=w, every=e) for w, e in (("n", False), ("T", False), ("T", True), ("beat", True), ("beat", False), ("past", False))],
    samples=0, paths=400)
def between(h, way, every):
    """any iteration of either loop: what the last step left is what the next one and the end of the run see"""
    only_symbolic(h)
    ODE = fvhoe("ode", "ODE")
    n = [h.int("n%d" % d, 1) for d in range(4)]
    p = ode_class()(h.array("u", n), lambda k, t, u: (1, u))
    p.stepper = lambda *a, **k: None
    p.integrator = "euler"
    u0 = p.am("u").copy()
    start, T = h.real("start"), h.real("T")
    p.t, p.timestamps = start, [start]
    cur = {"left": u0, "steps": 0}

    def put(tag):
        p.am("u")[...] = h.array(tag, n)
        cur["left"] = p.am("u").copy()

    def take(*a, **k):
        h.forall_eq("the step starts from what was left", p.am("u"), cur["left"])
        cur["steps"] += 1
        put("step%d" % cur["steps"])
        dt = h.real("dt%d" % cur["steps"], 0)
        tt = k.get("target_time", a[0] if a else None)
        p.t = p.t + dt if tt is None else h.min(p.t + dt, tt)
        p.timestamps.append(p.t)
        p.step_count += 1

    p.take_step = take

    def head():
        h.forall_eq("nothing changed before the first step", p.am("u"), u0)
        put("any")
        cur["entered"] = True

    def enter_for(loc, names, it):
        if not isinstance(it, loops.SymRange) or any(q in loc for q in names):
            raise sn.Unsupported("loop over %s, state %s" % (type(it), names))
        head()
        p.step_count = k = h.int("k", 0)
        p.t = h.real("t_")
        if bool(h.lt(k, it.n)):
            yield k

    def enter_while(loc, names):
        lists = [q for q, v in loc.items() if isinstance(v, (list, Rest))]
        tgt = [q for q in names if q in loc and q not in lists]
        if len(lists) != 1 or len(tgt) != 1:
            raise sn.Unsupported("state of the loop: %s %s" % (lists, tgt))
        head()
        p.t = t = h.real("t_")
        p.timestamps, p.step_count = [t], h.int("k", 0)
        new = {}
        if isinstance(loc[tgt[0]], S):
            new[tgt[0]] = g = h.real("target_")
            h.assume(h.implies(h.lt(t, T), h.lt(t, g)))
            new[lists[0]] = Rest(h, g, [])
        return new

    def again(loc):
        h.forall_eq("nothing changed after the step", p.am("u"), cur["left"])
        raise loops.Cut()

    p.integrate = loops.cut(ODE.integrate, "for" if way == "n" else "while", enter_for if way == "n" else enter_while, again).__get__(p)
    try:
        if way == "n":
            p.integrate(n=h.int("n", 0))
        else:
            p.integrate(T=T, exact=way != "past", downbeats=[h.real("beat")] if way == "beat" else None, log_every_step=every)
    except loops.Cut:
        return
    if "entered" not in cur:
        raise sn.Unsupported("loop not reached")
    h.forall_eq("nothing changed after the last step", p.am("u"), cur["left"])


@ob("C13", "a step is shortened only to land on a requested time", ["fvhoe.ode.ODE.euler", "fvhoe.ode.ODE.ssprk2", "fvhoe.ode.ODE.ssprk3", "fvhoe.ode.ODE.rk4", "fvhoe.ode._hit_target", "fvhoe.ode.ODE.take_step"],
    cases=[dict(method=m, target=t) for m in METHODS for t in (False, True)], samples=6)
def shortened(h, method, target):
    """whatever the later stages would allow"""
    n = [h.int("n%d" % k, 1, small=3) for k in range(2)]
    u = h.array("u", n)
    dts = [h.real("dt%d" % i, 0) for i in range(8)]
    ks = [h.array("k%d" % i, n) for i in range(8)]
    p = ode_class()(u, lambda i, t, u: (dts[i], ks[i]))
    st = make_stepper(p, method)
    t = h.real("t")
    p.t, p.timestamps = t, [t]
    if target:
        tt = h.real("target")
        h.assume(h.lt(t, tt))
        dt, _ = st(t, u.copy(), target_time=tt)
        want = h.ite(h.lt(tt - t, dts[0]), tt - t, dts[0])
        q = ode_class()(u.copy(), lambda i, t, u: (dts[i], ks[i]))
        q.t, q.timestamps = t, [t]
        make_stepper(q, method)
        q.take_step(target_time=tt)
    else:
        dt, _ = st(t, u.copy())
        want = dts[0]
        q = ode_class()(u.copy(), lambda i, t, u: (dts[i], ks[i]))
        q.t, q.timestamps = t, [t]
        make_stepper(q, method)
        q.take_step()
    h.prove_eq("size of the step", dt, want)
    h.prove_eq("time after the step", q.t, t + want)


@ob("C02", "the rate depends on the given state and time only", [SV + "f", SV + "hydrodynamics", SV + "hydrofluxes (contract)", SV + "revise_fluxes (contract)", SV + "euler_equation"],
    cases=[dict(dims=d, limit=l) for d in ALLD for l in (False, True)], samples=0)
def again_(h, dims, limit):
    """a second evaluation, after the same array was given a new content, sees that content; the first result stays"""
    only_symbolic(h)
    n = [h.int("n" + a, 2) if a in dims else 1 for a in "xyz"]
    nv = 6
    flux, rev = [], []

    def fl(self, b):
        m = len(flux_u)
        v = sn.as_sym(b["u"]).copy()
        flux_u.append((v, b["t"]))
        return h.real("dt%d" % m, 0), tuple(arr(face_shape(n, d, nv), lambda i, a=a: tm.app("%s%d" % (a, m), i, "R")) if "xyz"[d] in dims else self.am(a) for d, a in enumerate("FGH"))

    flux_u = []

    def rv(self, b):
        m = len(rev_u)
        rev_u.append((sn.as_sym(b["u"]).copy(), b["t"], b["dt"]))
        for d, a in enumerate("FGH"):
            if "xyz"[d] in dims:
                b[a][...] = arr(face_shape(n, d, nv), lambda i, a=a: tm.app("rev%s%d" % (a, m), i, "R"))

    rev_u = []
    stub_method(h, "hydrofluxes", fl, flux)
    stub_method(h, "revise_fluxes", rv, rev)
    L = [h.real("L" + a, 0) for a in "xyz"]
    s, u = solver(h, dims, (0, 0, 0), n, nv, a_posteriori_slope_limiting=limit, domain=[(0, q) for q in L])
    v = h.array("first", [nv] + n)
    A, B = v.copy(), h.array("second", [nv] + n)
    t0, t1 = h.real("t0"), h.real("t1")
    out = []
    for k, (t, content) in enumerate(((t0, A), (t1, B), (t1, A))):
        v[...] = content
        out.append((s.f(t, v), content, t))
        if k == 0 and (len(flux_u) != 1 or len(rev_u) != int(limit)):
            raise sn.Unsupported("the right-hand side does not call what the contract expects")
        h.rec("fluxes evaluated for every evaluation", len(flux_u) == k + 1 and (not limit or len(rev_u) == k + 1))
        h.forall_eq("fluxes of the given state", flux_u[k][0], content)
        h.prove_eq("at the given time", flux_u[k][1], t)
        if limit:
            h.forall_eq("revised for the given state", rev_u[k][0], content)
            h.prove_eq("revised at the given time", rev_u[k][1], t)
            h.prove_eq("revised for the step of this evaluation", rev_u[k][2], h.real("dt%d" % k, 0))
        h.forall_eq("state unchanged", v, content)

    def want(k, i):
        tot = 0
        for d, a in enumerate("FGH"):
            if "xyz"[d] in dims:
                up = list(i)
                up[1 + d] = up[1 + d] + 1
                F = lambda q: S(tm.app("%s%s%d" % ("rev" if limit else "", a, k), tuple(sn.to_t(x) for x in q), "R"))
                tot = tot - (F(up) - F(i)) * n[d] / L[d]
        return tot

    for k, ((dt, r), _, _) in enumerate(out):
        h.prove_eq("step of evaluation %d" % k, dt, h.real("dt%d" % k, 0))
        h.forall("rate of evaluation %d" % k, [nv] + n, lambda i, k=k, r=r: h.eq(r[i], want(k, i)))


@ob("C12", "every boundary of an evaluation is taken at the time of its stage", [SV + "f", SV + "hydrodynamics", SV + "hydrofluxes", SV + "revise_fluxes", SV + "interpolate_primitives_from_conservatives", SV + "snapshot",
    "fvhoe.boundary_conditions.BoundaryCondition.apply (contract)", "fvhoe.riemann_solvers.* (contract)", "fvhoe.slope_limiting.* (contract)"],
    cases=[dict(dims=d, p=p, limit=l) for d, p in (("x", (2, 0, 0)), ("y", (0, 0, 0)), ("z", (0, 0, 1)), ("yz", (0, 1, 2)), ("xyz", (1, 0, 1))) for l in (False, True)], samples=0, abstract=True, paths=60)
def stage_times(h, dims, p, limit):
    """stage times need not be the time of the solver, and may be zero"""
    only_symbolic(h)
    nv = 6
    stub_stencils(h)
    c = [h.real("c%d" % k, 0 if k in (0, 4) else None) for k in range(nv)]
    n = sizes(h, dims)
    u = h.make([nv] + n, lambda i: row(h, c, i[0]))
    calls = []
    stub_bc(h, n, lambda v, q: sn.to_t(row(h, c, sn.out_int(v))), calls)
    if limit:
        for l in ("minmod", "moncen"):
            h.stub("slope_limiting", l, lambda a, b: arr(sn.as_sym(a).shape, lambda i: tm.ZERO))
    stub_riemann(h, "llf", nv)
    stub_dt(h, [])
    h.stub("slope_limiting", "detect_troubled_cells", lambda *a, **k: (arr(n, lambda i: tm.app("T", i, "B"), "b"), arr(n, lambda i: tm.ZERO), arr(n, lambda i: tm.ZERO)), hard=True)
    h.stub("slope_limiting", "broadcast_to_troubled_interfaces", lambda *a, **k: tuple(arr([1] + face_shape(n, d, 1)[1:], lambda i, q=q: tm.app("th" + q, i, "R") if q in dims else tm.ZERO) for d, q in enumerate("xyz")), hard=True)
    s, _ = solver(h, dims, p, n, nv, u=u, rs="llf", a_posteriori_slope_limiting=limit, gamma=h.real("g", 1))
    s.t = now = h.real("now")
    for t in (h.real("t"), h.real("t2"), 0.0):
        del calls[:]
        s.f(t, u)
        if not calls:
            raise sn.Unsupported("boundaries not applied")
        for b in calls:
            h.prove_eq("time of the boundary data", b["t"], t)
    del calls[:]
    s.snapshot()
    for b in calls:
        h.prove_eq("time of the boundary data of a snapshot", b["t"], now)
