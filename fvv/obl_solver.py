"""Contracts: the solver's right-hand side (C01 C02 C03 C05 C06 C07 C13 C17 C18 C19 C23).

The real methods of EulerSolver run on meshes of symbolic size.  Callees with a contract of their own are
replaced by it:
  interpolate_primitives_from_conservatives   an arbitrary function of the cell (its own contract: below)
  BoundaryCondition.apply                     an arbitrary extension of the interior (contract: C11, C12)
  the Riemann solver                          an arbitrary pointwise function of the two states (C08, C09)
  hydro_dt, detect_troubled_cells, broadcast_to_troubled_interfaces   (C13, C17, C18)
  conservative_interpolation, transverse_reconstruction               a fixed stencil per degree (proved below)
  minmod, moncen                              an arbitrary function of the two differences (C16)
"""
from fractions import Fraction as Fr
import inspect
import itertools

import numpy as np

from .core import ob, fvhoe
from . import sim, symnp as sn, terms as tm

S = sn.S
D = {"x": 0, "y": 1, "z": 2}
SV = "fvhoe.solver.EulerSolver."


def only_symbolic(h):
    if not h.sym:
        raise sn.Unsupported("abstract obligation")


def half(p):
    return (p + 1) // 2


# ------------------------------------------------------------------ stencils
@ob(["C04", "C05"], "every operation is one fixed stencil along its axis", ["fvhoe.fv.conservative_interpolation", "fvhoe.fv.transverse_reconstruction", "fvhoe.fv.stencil_sweep"],
    cases=[dict(kind=k, p=p, axis=1 + (p + i) % 3) for i, k in enumerate("lcra") for p in range(9)],
    thorough=[dict(kind=k, p=p, axis=1 + (p + i + j) % 3) for i, k in enumerate("lcra") for p in range(9) for j in (1, 2)], samples=1)
def stencil(h, kind, p, axis):
    f = fvhoe("fv", "transverse_reconstruction" if kind == "a" else "conservative_interpolation")
    r = half(p)
    n = [h.int("n%d" % d, 2 * r + 1 if d == axis else 1, small=3) for d in range(4)]
    u = h.array("u", n, gen=lambda g, s: g.normal(size=s))
    out = f(u, p=p, axis=axis) if kind == "a" else f(u, p=p, axis=axis, pos=kind)
    m = [n[d] - (2 * r if d == axis else 0) for d in range(4)]
    h.same_shape("cells with a complete stencil", out, m)
    ws = sim.exact_weights(p, kind)
    cst = (lambda w: S(tm.num(w))) if h.sym else float
    h.forall("weights of the degree", m, lambda i: h.eq(out[i], sum(cst(w) * u[tuple(q + (k if d == axis else 0) for d, q in enumerate(i))] for k, w in enumerate(ws))))
    h.rec("weights sum to one", sum(ws) == 1)


MIRROR = {"l": "r", "r": "l", "c": "c", "a": "a"}


def op(h, kind, p, axis, body, amap=None, flip=None):
    """stencil of a degree applied to body(shift); exact weights when the contracts are inlined.
    amap renames axes; along axis flip the stencil is written in mirrored coordinates"""
    if p == 0:
        return body(tm.ZERO)
    if flip == axis:
        return op(h, MIRROR[kind], p, axis, lambda k: body(tm.neg(k)), amap)
    axis = (amap or {}).get(axis, axis)
    if h.use_stubs:
        return tm.opterm((("%s%d" % (kind, p), axis),), lambda sh: body(sh.get(axis, tm.ZERO)))
    r = half(p)
    return tm.add(*[tm.scale(w, body(tm.num(k - r))) for k, w in enumerate(sim.exact_weights(p, kind)) if w])


def stub_stencils(h, amap=None, flip=None):
    def shrink(u, kind, p, axis):
        u = sn.as_sym(u)
        if not isinstance(p, (int, np.integer)) or not 0 <= p <= 8:
            raise sn.Unsupported("degree")
        axis, p = int(axis), int(p)
        f, r = u.fn(), half(p)
        sh = [tm.sub(s, tm.num(2 * r)) if d == axis else s for d, s in enumerate(u.tshape)]
        at = lambda i, k: f(tuple(tm.add(q, tm.num(r), k) if d == axis else q for d, q in enumerate(i)))
        return sn.SymArray.new(sh, lambda i: op(h, kind, p, axis, lambda k: at(i, k), amap, flip), "f")

    h.stub("fv", "conservative_interpolation", lambda u, p, axis, pos="c": shrink(u, pos, p, axis))
    h.stub("fv", "transverse_reconstruction", lambda u, p, axis: shrink(u, "a", p, axis))


def stub_limiter(h, limiter, fun=None):
    fun = fun or (lambda a, b: tm.app("lim_" + limiter, tuple(sorted((a, b), key=lambda t: t.id)), "R"))
    if limiter is None:
        return fun
    if not h.use_stubs:
        raise sn.Unsupported("limiter inlined")

    def f(a, b):
        a, b = sn.as_sym(a), sn.as_sym(b)
        fa, fb = a.fn(), b.fn()
        return sn.SymArray.new(a.tshape, lambda i: fun(fa(i), fb(i)), "f")

    h.stub("slope_limiting", limiter, f)
    return fun


# ------------------------------------------------------------------ a solver
def sizes(h, dims, lo=2):
    return [h.int("n" + a, lo) if a in dims else 1 for a in "xyz"]


def solver(h, dims, p, n, nv=5, u=None, rs="hllc", domain=None, names=None, **kw):
    E = fvhoe("solver", "EulerSolver")
    IC = fvhoe("initial_conditions", "InitialCondition")
    if u is None:
        u = h.array("u", [nv] + list(n))

    class Given(IC):
        def base_ic(self):
            return lambda x, y, z: u[:5]

    if domain is None:
        domain = []
        for a in "xyz":
            lo = h.real(a + "0")
            domain.append((lo, lo + h.real("L" + a, 0)))
    names = names or ["s%d" % k for k in range(nv - 5)]
    s = E(w0=Given(), w0_passives={m: (lambda x, y, z, k=k: u[5 + k]) for k, m in enumerate(names)} or None,
          nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=domain[0], y=domain[1], z=domain[2],
          conservative_ic=True, fv_ic=True, progress_bar=False, riemann_solver=rs, **kw)
    return s, u


def orig(h, owner, name):
    """the real callee, also after it was replaced by its contract"""
    keep = h.__dict__.setdefault("originals", {})
    if (owner, name) not in keep:
        if not hasattr(owner, name):
            raise sn.Unsupported("no " + name)
        keep[owner, name] = getattr(owner, name)
    return keep[owner, name]


def bound(fn, a, k):
    """arguments of a call by name, however they were passed"""
    sig = inspect.signature(fn)
    try:
        b = sig.bind(*a, **k)
    except TypeError as e:
        raise sn.Unsupported("call does not match the contract: %s" % e)
    b.apply_defaults()
    return b.arguments


def arr(shape, fn, kind="f"):
    return sn.SymArray.new([sn.to_t(q) for q in shape], fn, kind)


def stub_w(h, n, W, calls):
    """the averaged primitives as an arbitrary function W(v, cell) of the interior-relative cell"""
    E = fvhoe("solver", "EulerSolver")
    real = orig(h, E, "interpolate_primitives_from_conservatives")

    def f(self, *a, **k):
        b = bound(real, (self,) + a, k)
        gw = [int(g) for g in b["gw"]]
        nv = sn.as_sym(b["u"]).tshape[0]
        out = arr([nv] + [m + 2 * g for m, g in zip(n, gw)], lambda i: W(i[0], tuple(tm.sub(q, tm.num(g)) for q, g in zip(i[1:], gw))))
        calls.append(dict(b, out=out, gw=gw))
        return out

    h.stub_attr(E, "interpolate_primitives_from_conservatives", f, hard=True)


def uf_w(name="W"):
    return lambda v, c: tm.app(name, (v,) + tuple(c), "R")


def stub_riemann(h, rs, nv, calls=None, R=None):
    """pointwise function of the two states; rows 0-4 see the gas only, a scalar row the gas and itself (C19 proves that)"""
    real = orig(h, fvhoe("riemann_solvers"), rs)

    def f(*a, **k):
        b = bound(real, a, k)
        wl, wr = (sn.as_sym(q) for q in b["riemann_problem"])
        h.same_shape("left and right states pair up", wl, wr.shape)
        fl, fr = wl.fn(), wr.fn()
        g = (sn.to_t(b["gamma"]), sn.to_t(b["csq_floor"])) if "csq_floor" in b else (sn.to_t(b["gamma"]),)
        dim = b["dim"]
        if calls is not None:
            calls.append(b)
        return sn.SymArray.new(wl.tshape, lambda i: (R or uf_r)(dim, i[0], [fl((tm.num(k),) + i[1:]) for k in range(nv)], [fr((tm.num(k),) + i[1:]) for k in range(nv)]), "f")

    h.stub("riemann_solvers", rs, f, hard=True)


def uf_r(dim, v, wl, wr):
    return tm.app("R" + dim, (v,) + tuple(wl) + tuple(wr), "R")


def stub_dt(h, calls):
    real = orig(h, fvhoe("hydro"), "hydro_dt")

    def f(*a, **k):
        b = bound(real, a, k)
        calls.append(b)
        return h.real("dt%d" % len(calls), 0)

    h.stub("hydro", "hydro_dt", f, hard=True)


# ------------------------------------------------------------------ specification of the face fluxes
def face_spec(h, dims, p, W, nv, R=uf_r, limiter=None, lim=None, flux_of=None):
    """flux(d, v, face index) of the scheme, from cell values W(v, cell)"""

    def centre(v, cell, d):
        """value at the centre of the transverse directions"""
        def go(rest, c):
            if not rest:
                return W(tm.num(v), tuple(c))
            e = rest[0]
            return op(h, "c", p[e], 1 + e, lambda k: go(rest[1:], [tm.add(q, k) if i == e else q for i, q in enumerate(c)]))
        return go([e for e in range(3) if e != d and "xyz"[e] in dims], list(cell))

    def face(v, cell, d, pos):
        at = lambda k: centre(v, tuple(tm.add(q, k) if e == d else q for e, q in enumerate(cell)), d)
        if limiter is not None and p[d] == 1:
            c = at(tm.ZERO)
            s = lim(tm.sub(c, at(tm.num(-1))), tm.sub(at(tm.num(1)), c))
            return tm.add(c, tm.scale(Fr(1, 2) if pos == "r" else Fr(-1, 2), s))
        return op(h, pos, p[d], 1 + d, at)

    def flux(d, v, j):
        def point(cell):
            below = tuple(tm.sub(q, tm.num(1)) if e == d else q for e, q in enumerate(cell))
            return R("xyz"[d], tm.num(v), [face(k, below, d, "r") for k in range(nv)], [face(k, cell, d, "l") for k in range(nv)])

        def go(rest, c):
            if not rest:
                return point(tuple(c))
            e = rest[0]
            return op(h, "a", p[e], 1 + e, lambda k: go(rest[1:], [tm.add(q, k) if i == e else q for i, q in enumerate(c)]))
        return go([e for e in range(3) if e != d and "xyz"[e] in dims], list(j))

    return flux


def face_shape(n, d, nv):
    return [nv] + [m + (1 if e == d else 0) for e, m in enumerate(n)]


PREFIX = {None: "(high-order) "}


def call_fluxes(h, s, u, p, limiter=None, t=None):
    return s.hydrofluxes(u, tuple(p), slope_limiter=limiter, timer_prefix=PREFIX.get(limiter, "(fallback scheme) "), t=t)


def p_cases():
    out = [dict(dims=a, p=tuple(q if a == b else 0 for b in "xyz")) for a in "xyz" for q in range(9) if a == "x" or q in (0, 1, 4, 7)]
    for dims, ps in (("xy", [(0, 0), (1, 1), (2, 2), (3, 3), (8, 8), (7, 2), (1, 4), (0, 3), (5, 0)]),
                     ("xz", [(1, 1), (2, 3), (6, 0), (0, 5), (4, 4)]), ("yz", [(1, 1), (3, 2), (0, 4), (7, 0), (6, 6)])):
        for q in ps:
            it = iter(q)
            out.append(dict(dims=dims, p=tuple(next(it) if a in dims else 0 for a in "xyz")))
    out += [dict(dims="xyz", p=q) for q in ((0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 3, 3), (8, 8, 8), (1, 2, 3), (3, 0, 2), (0, 5, 1), (4, 6, 0), (0, 0, 7))]
    return out


def low_cases():
    out = []
    for dims in ("x", "y", "z", "xy", "xz", "yz", "xyz"):
        for q in itertools.product((0, 1), repeat=len(dims)):
            it = iter(q)
            p = tuple(next(it) if a in dims else 0 for a in "xyz")
            out.append(dict(dims=dims, p=p, limiter="minmod" if sum(p) % 2 else "moncen"))
            if sum(p) == len(dims):
                out.append(dict(dims=dims, p=p, limiter="moncen" if sum(p) % 2 else "minmod"))
    return out


ALLP = [dict(dims="xyz"[:k] if k else "x", p=q) for k in (2,) for q in [(a, b, 0) for a in range(9) for b in range(9)]] + \
       [dict(dims="xyz", p=q) for q in itertools.product((0, 1, 2, 3, 5, 8), repeat=3)]
RHS = [SV + "hydrofluxes", "fvhoe.fv.conservative_interpolation (contract)", "fvhoe.fv.transverse_reconstruction (contract)",
       SV + "interpolate_primitives_from_conservatives (contract)", "fvhoe.riemann_solvers.* (contract)", "fvhoe.hydro.hydro_dt (contract)"]
LOW = RHS + ["fvhoe.slope_limiting.MUSCL_interpolations", "fvhoe.slope_limiting.minmod (contract)", "fvhoe.slope_limiting.moncen (contract)"]


def setup(h, dims, p, limiter=None, nv=5, rs="hllc", W=None, R=None, lo=2, n=None, domain=None, lim=None, amap=None, flip=None, u=None, **kw):
    """a solver whose callees are their contracts"""
    only_symbolic(h)
    rec = dict(w=[], r=[], dt=[])
    n = n or sizes(h, dims, lo)
    h.unstub()
    stub_stencils(h, amap, flip)
    lim = stub_limiter(h, limiter, lim)
    stub_w(h, n, W or uf_w(), rec["w"])
    stub_riemann(h, rs, nv, rec["r"], R)
    stub_dt(h, rec["dt"])
    # the inactive directions are those with one cell and degree zero
    for a, m in zip("xyz", n):
        if a in dims and p[D[a]] == 0:
            h.assume(m >= 2)
    s, u = solver(h, dims, p, n, nv, u=u, rs=rs, domain=domain, **kw)
    return s, u, n, rec, lim


def flux_contract(h, dims, p, limiter=None, nv=5, rs="hllc", **kw):
    s, u, n, rec, lim = setup(h, dims, p, limiter, nv, rs, **kw)
    u0 = u.copy()
    t = h.real("t")
    dt, out = call_fluxes(h, s, u, p, limiter, t)
    spec = face_spec(h, dims, p, uf_w(), nv, limiter=limiter, lim=lim)
    for d, a in enumerate("xyz"):
        if a not in dims:
            continue
        sh = face_shape(n, d, nv)
        h.same_shape("one flux per %s face" % a, out[d], sh)
        i = h.skolem(sh[1:])
        for v in range(nv):
            h.prove_eq("%s flux of row %d" % (a, v), out[d][(v,) + i], S(spec(d, v, tuple(sn.to_t(q) for q in i))))
    h.forall_eq("state unchanged", u, u0)
    return s, u, n, rec, t, dt


@ob("C05", "high-order face fluxes", RHS, cases=p_cases(), thorough=[c for c in ALLP if c not in p_cases()], samples=0, abstract=True)
def high_flux(h, dims, p):
    s, u, n, rec, t, dt = flux_contract(h, dims, p, nv=5 if sum(p) % 2 else 6, rs=("hllc", "llf", "advection_upwind")[sum(p) % 3])
    if len(rec["w"]) != 1:
        raise sn.Unsupported("primitives evaluated %d times" % len(rec["w"]))
    c = rec["w"][0]
    h.rec("degree of the primitives", tuple(c["p"]) == tuple(p) and bool(c["fv_average"]))
    h.prove_eq("time of the primitives", c["t"], t)
    h.forall_eq("primitives of the given state", c["u"], u)
    for b in rec["r"]:
        h.prove_eq("gamma of the Riemann problem", b["gamma"], s.gamma)
        if "csq_floor" in b:
            h.prove_eq("floor of the Riemann problem", b["csq_floor"], s.csq_floor)


@ob("C05", "slope-limited face fluxes", LOW, cases=low_cases(), samples=0, abstract=True)
def low_flux(h, dims, p, limiter):
    flux_contract(h, dims, p, limiter, rs=("hllc", "llf")[sum(p) % 2])


@ob("C05", "limiting is refused above degree one", [SV + "hydrofluxes"], cases=[dict(dims="x", p=(2, 0, 0)), dict(dims="xy", p=(1, 3, 0)), dict(dims="xyz", p=(0, 1, 8))], samples=0, abstract=True)
def low_refused(h, dims, p):
    s, u, n, rec, lim = setup(h, dims, p)
    h.raises("refused", ValueError, lambda: call_fluxes(h, s, u, p, "minmod", 0.0))


# ------------------------------------------------------------------ averaged primitives
def stub_bc(h, n, EXT, calls=None):
    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    real = orig(h, BC, "apply")

    def f(self, *a, **k):
        b = bound(real, (self,) + a, k)
        gw = [int(g) for g in b["gw"]]
        nv = sn.as_sym(b["u"]).tshape[0]
        if calls is not None:
            calls.append(dict(b, gw=gw))
        return arr([nv] + [m + 2 * g for m, g in zip(n, gw)], lambda i: EXT(i[0], tuple(tm.sub(q, tm.num(g)) for q, g in zip(i[1:], gw))))

    h.stub_attr(BC, "apply", f, hard=True)


def stub_prim(h, nv, PRIM=None):
    real = orig(h, fvhoe("hydro"), "compute_primitives")
    PRIM = PRIM or (lambda v, us: tm.app("PRIM", (v,) + tuple(us), "R"))

    def f(*a, **k):
        b = bound(real, a, k)
        u = sn.as_sym(b["w"] if "w" in b else b["u"])
        fu = u.fn()
        return sn.SymArray.new(u.tshape, lambda i: PRIM(i[0], [fu((tm.num(k),) + i[1:]) for k in range(nv)]), "f")

    h.stub("hydro", "compute_primitives", f, hard=True)
    return PRIM


def prim_spec(h, p, EXT, PRIM, nv, fv=True):
    def sweep(kind, c, leaf):
        def go(es, c):
            if not es:
                return leaf(c)
            e = es[0]
            return op(h, kind, p[e], 1 + e, lambda k: go(es[1:], [tm.add(q, k) if i == e else q for i, q in enumerate(c)]))
        return go([0, 1, 2], list(c))

    def W(v, c):
        point = lambda c: PRIM(v, [sweep("c", c, lambda q, k=k: EXT(tm.num(k), tuple(q))) for k in range(nv)])
        return sweep("a", c, point) if fv else point(list(c))

    return W


PRIMS = [SV + "interpolate_primitives_from_conservatives", "fvhoe.fv.interpolate_cell_centers", "fvhoe.fv.interpolate_fv_averages", "fvhoe.fv.conservative_interpolation (contract)",
         "fvhoe.fv.transverse_reconstruction (contract)", "fvhoe.boundary_conditions.BoundaryCondition.apply (contract)", "fvhoe.hydro.compute_primitives (contract)"]


@ob(["C05", "C20"], "averaged primitives", PRIMS, cases=[dict(c, fv=f, gw=g) for k, c in enumerate(p_cases()) for f, g in ([(True, k % 3)] if k % 2 else [(False, 0), (True, 3)])], samples=0, abstract=True)
def averaged(h, dims, p, fv, gw):
    only_symbolic(h)
    stub_stencils(h)
    n = sizes(h, dims)
    nv = 6
    EXT, calls = uf_w("EXT"), []
    stub_bc(h, n, EXT, calls)
    PRIM = stub_prim(h, nv)
    s, u = solver(h, dims, p, n, nv)
    u0, t = u.copy(), h.real("t")
    g = tuple(gw if a in dims else 0 for a in "xyz")
    spec = prim_spec(h, p, EXT, PRIM, nv, fv)
    for now in (t, None):
        del calls[:]
        if now is None:
            s.t = h.real("tself")
            w = s.interpolate_primitives_from_conservatives(u=u, p=p, fv_average=fv, gw=g)
        else:
            w = s.interpolate_primitives_from_conservatives(u, p, g, fv, t)
        h.same_shape("interior and requested ghost cells", w, [nv] + [m + 2 * q for m, q in zip(n, g)])
        i = h.skolem(w.shape[1:])
        for v in range(nv):
            h.prove_eq("row %d" % v, w[(v,) + i], S(spec(tm.num(v), tuple(sn.to_t(q - e)for q, e in zip(i, g)))))
        h.rec("boundaries applied once", len(calls) == 1)
        h.prove_eq("boundaries at the time of the state", calls[0]["t"], s.t if now is None else t)
        h.forall_eq("boundaries of the given state", calls[0]["u"], u0)
    h.forall_eq("state unchanged", u, u0)


# ------------------------------------------------------------------ time step
@ob("C13", "time step of the right-hand side", [SV + "hydrofluxes", "fvhoe.hydro.hydro_dt (contract)"],
    cases=[dict(dims=d, p=p, fixed=f) for d, p in (("x", (3, 0, 0)), ("y", (0, 1, 0)), ("z", (0, 0, 0)), ("xy", (1, 2, 0)), ("xz", (4, 0, 1)), ("yz", (0, 0, 2)), ("xyz", (1, 1, 1)), ("xyz", (0, 3, 2)), ("x", (8, 0, 0)))
           for f in (False, True)], samples=0, abstract=True)
def dt_args(h, dims, p, fixed):
    fx = h.real("fixed", 0) if fixed else None
    cfl, g, fl = h.real("cfl", 0), h.real("g", 1), h.real("fl", 0)
    s, u, n, rec, lim = setup(h, dims, p, fixed_dt=fx, CFL=cfl, gamma=g, csq_floor=fl)
    dt, _ = call_fluxes(h, s, u, p, None, 0.0)
    if fixed:
        h.prove_eq("the fixed step", dt, fx)
        return
    if len(rec["dt"]) != 1 or len(rec["w"]) != 1:
        raise sn.Unsupported("time step evaluated %d times" % len(rec["dt"]))
    b = rec["dt"][0]
    h.prove_eq("the step of the contract", dt, S(tm.var("dt1", "R")))
    h.forall_eq("from all cells, ghosts included", b["w"], rec["w"][0]["out"])
    gw = rec["w"][0]["gw"]
    h.rec("ghost cells of every active direction", all((q > 0) == (a in dims) for q, a in zip(gw, "xyz")))
    L = [S(tm.var("L" + a, "R")) for a in "xyz"]
    h.prove_eq("smallest cell width", b["h"], h.min(*[q / m for q, m in zip(L, n)]))
    for k, v in (("ndim", len(dims)), ("CFL", cfl), ("gamma", g), ("csq_floor", fl)):
        h.prove_eq(k, b[k], v)


# ------------------------------------------------------------------ flux form
def fluxes(h, n, nv, names="FGH"):
    return [h.array(a, face_shape(n, d, nv), gen=lambda r, s: r.normal(size=s)) for d, a in enumerate(names)]


def div_spec(h, dims, n, L, Fs, v, i):
    out = 0
    for d, a in enumerate("xyz"):
        if a in dims:
            up = tuple(q + (1 if e == d else 0) for e, q in enumerate(i))
            out = out - (Fs[d][(v,) + up] - Fs[d][(v,) + tuple(i)]) * n[d] / L[d]
    return out


ALLD = ["x", "y", "z", "xy", "xz", "yz", "xyz"]


def plain(h, dims, nv, **kw):
    """a solver in either interpretation; degrees do not matter"""
    n = [h.int("n" + a, 2, small=4) if a in dims else 1 for a in "xyz"]
    dom, L = [], []
    for a in "xyz":
        lo, q = h.real(a + "0"), h.real("L" + a, 0)
        dom.append((lo, lo + q))
        L.append(q)
    u = h.array("u", [nv] + n, gen=lambda r, s: r.uniform(0.5, 2, s))
    kw.setdefault("p", (0, 0, 0))
    p = kw.pop("p")
    s, _ = solver(h, dims, p, n, nv, u=u, domain=dom, **kw)
    return s, u, n, L


@ob("C02", "rate of change is the flux difference over the cell", [SV + "euler_equation"], cases=[dict(dims=d, nv=5 + len(d) % 2) for d in ALLD], samples=6)
def divergence(h, dims, nv):
    s, u, n, L = plain(h, dims, nv)
    Fs = fluxes(h, n, nv)
    F0 = [f.copy() for f in Fs]
    r = s.euler_equation(F=Fs[0], G=Fs[1], H=Fs[2])
    h.same_shape("one rate per cell", r, [nv] + n)
    h.forall("flux difference", [nv] + n, lambda i: h.eq(r[i], div_spec(h, dims, n, L, F0, i[0], i[1:])))
    for d, a in enumerate("FGH"):
        h.forall_eq("fluxes %s unchanged" % a, Fs[d], F0[d])


def stub_method(h, name, make, calls):
    """replace a method of the solver by make(self, arguments by name)"""
    E = fvhoe("solver", "EulerSolver")
    real = orig(h, E, name)

    def f(self, *a, **k):
        b = dict(bound(real, (self,) + a, k))
        b.pop("self", None)
        calls.append(b)
        return make(self, b)

    h.stub_attr(E, name, f, hard=True)


@ob(["C02", "C12"], "the right-hand side uses the final fluxes of its own time", [SV + "f", SV + "hydrodynamics", SV + "euler_equation", SV + "hydrofluxes (contract)", SV + "revise_fluxes (contract)"],
    cases=[dict(dims=d, limit=l) for d in ALLD for l in (False, True)], samples=0, abstract=True)
def rhs(h, dims, limit):
    only_symbolic(h)
    high, rev = [], []
    dtv, t = h.real("dt", 0), h.real("t")
    nv = 5
    force = h.bool("force")

    def mk_high(self, b):
        return dtv, tuple(arr(face_shape(nn, d, nv), lambda i, a=a: tm.app("hi" + a, i, "R")) if "xyz"[d] in dims else self.am(a) for d, a in enumerate("FGH"))

    def mk_rev(self, b):
        for d, a in enumerate("FGH"):
            if "xyz"[d] in dims:
                h.forall("fluxes to revise are the high-order ones", face_shape(nn, d, nv), lambda i: h.eq(b[a][i], S(tm.app("hi" + a, tuple(sn.to_t(q) for q in i), "R"))))
                self.am(a)[...] = arr(face_shape(nn, d, nv), lambda i, a=a: tm.app("rev" + a, i, "R"))

    stub_method(h, "hydrofluxes", mk_high, high)
    stub_method(h, "revise_fluxes", mk_rev, rev)
    s, u, nn, L = plain(h, dims, nv, p=tuple(2 if a in dims else 0 for a in "xyz"), a_posteriori_slope_limiting=limit, force_trouble=force)
    u0 = u.copy()
    dt, r = s.f(t, u)
    if len(high) != 1 or len(rev) != int(limit):
        raise sn.Unsupported("callees evaluated %d, %d times" % (len(high), len(rev)))
    h.prove_eq("step of the high-order scheme", dt, dtv)
    h.rec("degrees of the high-order scheme", tuple(high[0]["p"]) == s.p and high[0]["slope_limiter"] is None)
    h.prove_eq("time of the stage", high[0]["t"], t)
    h.forall_eq("fluxes of the given state", high[0]["u"], u0)
    if limit:
        h.prove_eq("time of the fallback", rev[0]["t"], t)
        h.prove_eq("step of the candidate", rev[0]["dt"], dtv)
        h.prove("forced trouble passed on", h.iff(rev[0]["force_trouble"], force))
        h.forall_eq("fallback of the given state", rev[0]["u"], u0)
    pre = "rev" if limit else "hi"
    Fs = [arr(face_shape(nn, d, nv), lambda i, a=a: tm.app(pre + a, i, "R")) for d, a in enumerate("FGH")]
    h.same_shape("one rate per cell", r, [nv] + nn)
    h.forall("flux difference of the final fluxes", [nv] + nn, lambda i: h.eq(r[i], div_spec(h, dims, nn, L, Fs, i[0], i[1:])))
    h.forall_eq("state unchanged", u, u0)
    h.forall_eq("stored state unchanged", s.am("u"), u0)


# ------------------------------------------------------------------ revised fluxes
def same_array(h, a, b):
    """quietly: do the two arrays agree everywhere"""
    from . import prover
    a, b = sn.as_sym(a), sn.as_sym(b)
    i = tuple(sn.to_t(q) for q in h.skolem(a.shape))
    return prover.prove(tm.eq(a.at(i), b.at(i)), list(h.ctx.pc), 5).status == "proved"


def revise_cases():
    out = []
    for k, d in enumerate(ALLD):
        for conv in (False, True):
            if conv and d == "xyz":
                continue
            for per in ((True, True, True), (False, True, False) if k % 2 else (False, False, True)):
                out.append(dict(dims=d, convex=conv, per="".join("01"[b] for b in per), force=k % 3 == 0))
    return out


@ob(["C18", "C17", "C24"], "revised fluxes blend the two schemes by the weights of the faces",
    [SV + "revise_fluxes", SV + "log_troubles", SV + "euler_equation", SV + "hydrofluxes (contract)", SV + "interpolate_primitives_from_conservatives (contract)",
     "fvhoe.slope_limiting.detect_troubled_cells (contract)", "fvhoe.slope_limiting.broadcast_to_troubled_interfaces (contract)"],
    cases=revise_cases(), samples=0, abstract=True, paths=60)
def revise(h, dims, convex, per, force):
    only_symbolic(h)
    nv = 6
    p = tuple((3, 2, 4)[d] if a in dims else 0 for d, a in enumerate("xyz"))
    if dims == "xy":
        p = (0, 3, 0)
    E = fvhoe("solver", "EulerSolver")
    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    wcalls, low, det, bro = [], [], [], []
    cst = dict(NAD=h.real("NAD"), SED_tolerance=h.real("sedtol"))
    names, bounds = ("rho", "vx"), {"rho": (0.0, 7.0), "P": (1.0, np.inf)}
    kw = dict(a_posteriori_slope_limiting=True, slope_limiter=("minmod", "moncen")[len(dims) % 2], NAD_mode=("local", "global")[convex], NAD_range=("relative", "absolute")[force],
              NAD_vars=names, PAD=bounds, SED=bool(force), convex=convex, p=p, **cst)
    P = {a: c == "1" for a, c in zip("xyz", per)}
    kw["bc"] = BC(**{a: ("periodic", "periodic") if P[a] else ("free", "outflow") for a in "xyz"})
    t, dt = h.real("t"), h.real("dt", 0)

    real = orig(h, E, "interpolate_primitives_from_conservatives")

    def prims(self, *a, **k):
        b = dict(bound(real, (self,) + a, k))
        m = len(wcalls)
        b["tag"] = "w%d" % m
        b["g"] = [int(q) for q in b["gw"]]
        b["u"] = sn.as_sym(b["u"]).copy()
        wcalls.append(b)
        g = b["g"]
        return arr([nv] + [q + 2 * e for q, e in zip(n, g)], lambda i: tm.app("w%d" % m, (i[0],) + tuple(tm.sub(q, tm.num(e)) for q, e in zip(i[1:], g)), "R"))

    h.stub_attr(E, "interpolate_primitives_from_conservatives", prims, hard=True)

    def mk_low(self, b):
        b["u"] = sn.as_sym(b["u"]).copy()
        return h.real("dtlow", 0), tuple(arr(face_shape(n, d, nv), lambda i, a=a: tm.app("lo" + a, i, "R")) if "xyz"[d] in dims else self.am(a) for d, a in enumerate("FGH"))

    stub_method(h, "hydrofluxes", mk_low, low)
    rd, rb = orig(h, fvhoe("slope_limiting"), "detect_troubled_cells"), orig(h, fvhoe("slope_limiting"), "broadcast_to_troubled_interfaces")

    def detect(*a, **k):
        b = dict(bound(rd, a, k))
        det.append(b)
        T = arr(n, lambda i: tm.app("T", i, "B"), "b")
        return T, arr(n, lambda i: tm.app("NADmag", i, "R")), arr(n, lambda i: tm.app("PADmag", i, "R"))

    def broad(*a, **k):
        b = dict(bound(rb, a, k))
        b["trouble"] = sn.as_sym(b["trouble"]).copy()
        bro.append(b)
        return tuple(arr([1] + face_shape(n, d, 1)[1:], lambda i, a=a: tm.app("th" + a, i, "R") if a in dims else tm.ZERO) for d, a in enumerate("xyz"))

    h.stub("slope_limiting", "detect_troubled_cells", detect, hard=True)
    h.stub("slope_limiting", "broadcast_to_troubled_interfaces", broad, hard=True)
    s, u, n, L = plain(h, dims, nv, **kw)
    u0 = u.copy()
    hi = [arr(face_shape(n, d, nv), lambda i, a=a: tm.app("hi" + a, i, "R")) for d, a in enumerate("FGH")]
    for d, a in enumerate("FGH"):
        s.am(a)[...] = hi[d]
    s.revise_fluxes(u=u, F=s.am("F"), G=s.am("G"), H=s.am("H"), dt=dt, force_trouble=force, t=t)
    # detection sees the primitives of the old state and of the candidate
    if len(det) != 1 or len(wcalls) < 2:
        raise sn.Unsupported("detection evaluated %d times" % len(det))
    if h.prop in ("C17", "C18", "C24"):
        cand = h.make([nv] + n, lambda i: u0[i] + dt * div_spec(h, dims, n, L, hi, i[0], i[1:]))
        tags = {}
        for c in wcalls:
            if same_array(h, c["u"], u0):
                tags.setdefault("old", c)
            elif same_array(h, c["u"], cand):
                tags.setdefault("new", c)
        h.rec("primitives of the old state and of the candidate state", set(tags) == {"old", "new"} and len(wcalls) == 2,
              "" if len(tags) == 2 else "evaluated states are not the old state and u + dt * rate")
        for key, c in tags.items():
            h.rec("averages of the full degree", tuple(c["p"]) == p and bool(c["fv_average"]))
            h.prove_eq("at the time of the stage", c["t"], t)
        b = det[0]
        for arg, key in (("u", "old"), ("u_candidate", "new")):
            if key not in tags:
                continue
            g = [3 if a in dims else 0 for a in "xyz"]
            h.same_shape(arg + " holds the gas variables and three ghost cells", b[arg], [5] + [q + 2 * e for q, e in zip(n, g)])
            tag = tags[key]["tag"]
            h.forall(arg + " of the detection", b[arg].shape, lambda i: h.eq(b[arg][i], S(tm.app(tag, (sn.to_t(i[0]),) + tuple(sn.to_t(q - e) for q, e in zip(i[1:], g)), "R"))))
        h.prove_eq("tolerance", b["NAD_eps"], cst["NAD"])
        h.prove_eq("smoothness tolerance", b["SED_eps"], cst["SED_tolerance"])
        h.rec("options of the detection", b["dims"] == dims and b["mode"] == kw["NAD_mode"] and b["range_type"] == kw["NAD_range"] and tuple(b["NAD_vars"]) == names
              and b["PAD_bounds"] == bounds and bool(b["SED"]) == bool(force))
    # reported activity
    T = (lambda i: 1) if force else (lambda i: S(tm.tonum(tm.app("T", tuple(sn.to_t(q) for q in i), "B"))))
    if h.prop == "C24":
        s.step_helper_function()  # a step of one stage ends here
        h.forall("reported trouble", n, lambda i: h.eq(s.am("mean trouble")[i], T(i)))
        h.forall("reported range violation", n, lambda i: h.eq(s.am("mean NAD mag")[i], S(tm.app("NADmag", tuple(sn.to_t(q) for q in i), "R"))))
        h.forall("reported bound violation", n, lambda i: h.eq(s.am("mean PAD mag")[i], S(tm.app("PADmag", tuple(sn.to_t(q) for q in i), "R"))))
        return
    if h.prop == "C17":
        return
    if not bro:
        # nothing replaced: then no cell is troubled
        h.forall("no troubled cell", n, lambda i: h.eq(T(i), 0))
        for d, a in enumerate("FGH"):
            h.forall_eq("%s fluxes kept" % a, s.am(a), hi[d])
        return
    if len(low) != 1 or len(bro) != 1:
        raise sn.Unsupported("fallback evaluated %d times" % len(low))
    h.rec("degree one in every direction of positive degree", tuple(int(q) for q in low[0]["p"]) == tuple(int(q > 0) for q in p))
    h.rec("the chosen limiter", low[0]["slope_limiter"] == kw["slope_limiter"])
    h.prove_eq("fallback at the time of the stage", low[0]["t"], t)
    h.forall_eq("fallback of the same state", low[0]["u"], u0)
    q = bro[0]
    h.rec("options of the weights", q["dims"] == dims and bool(q["convex"]) == convex and all(bool(q["periodic_" + a]) == P[a] for a in dims))
    h.forall("weights of the troubled cells", n, lambda i: h.eq(q["trouble"][i], T(i)))
    for d, a in enumerate("FGH"):
        if "xyz"[d] not in dims:
            continue
        def post(i, d=d, a=a):
            j = tuple(sn.to_t(x) for x in i)
            th = S(tm.app("th" + "xyz"[d], (tm.ZERO,) + j[1:], "R"))
            return h.eq(s.am(a)[i], (1 - th) * S(tm.app("hi" + a, j, "R")) + th * S(tm.app("lo" + a, j, "R")))
        h.forall("final %s fluxes" % "xyz"[d], face_shape(n, d, nv), post)
    h.forall_eq("state unchanged", u, u0)


# ------------------------------------------------------------------ conservation
def reduce_mod(idx, n):
    """periodic index: the whole multiples of the period are dropped"""
    out = []
    for q, m in zip(idx, n):
        m = sn.to_t(m)
        c, lin = tm.lin(q)
        k = lin.get(m, 0) if m.op != "num" else 0
        out.append(tm.sub(q, tm.scale(k, m)) if k else q)
    return tuple(out)


def periodic_w(n, name="W"):
    return lambda v, c: tm.app(name, (v,) + reduce_mod(c, n), "R")


def pick(cs, keep):
    return [c for k, c in enumerate(cs) if keep(k, c)]


HALFP = [c for c in p_cases() if c["dims"] != "x" or c["p"][0] in (0, 1, 2, 3, 6, 8)]


def first_last(h, dims, p, limiter=None):
    n = sizes(h, dims)
    s, u, n, rec, lim = setup(h, dims, p, limiter, W=periodic_w(n), n=n)
    dt, out = call_fluxes(h, s, u, p, limiter, 0.0)
    for d, a in enumerate("xyz"):
        if a not in dims:
            continue
        i = list(h.skolem([1 if e == d else m for e, m in enumerate(n)]))
        for v in range(5):
            e0, e1 = list(i), list(i)
            e0[d], e1[d] = 0, n[d]
            h.prove_eq("first and last %s face carry one flux, row %d" % (a, v), out[d][(v,) + tuple(e0)], out[d][(v,) + tuple(e1)])


@ob("C01", "periodic data gives the first and the last face one flux", RHS, cases=HALFP, samples=0, abstract=True)
def periodic_flux(h, dims, p):
    first_last(h, dims, p)


@ob("C01", "periodic data gives the first and the last face one slope-limited flux", LOW, cases=low_cases(), samples=0, abstract=True)
def periodic_low(h, dims, p, limiter):
    first_last(h, dims, p, limiter)


@ob("C01", "periodic states have periodic averaged primitives", PRIMS, cases=pick(p_cases(), lambda k, c: k % 2 == 0), samples=0, abstract=True)
def periodic_prim(h, dims, p):
    only_symbolic(h)
    stub_stencils(h)
    n = sizes(h, dims)
    stub_bc(h, n, periodic_w(n, "EXT"))
    stub_prim(h, 5)
    s, u = solver(h, dims, p, n, 5)
    h.rec("periodic unless told otherwise", (s.bc.x, s.bc.y, s.bc.z) == (("periodic", "periodic"),) * 3)
    g = tuple(2 if a in dims else 0 for a in "xyz")
    w = s.interpolate_primitives_from_conservatives(u, p, g, True, 0.0)
    for d, a in enumerate("xyz"):
        if a not in dims:
            continue
        i = list(h.skolem([4 if e == d else m for e, m in enumerate(w.shape[1:])]))
        j = [q + n[d] if e == d else q for e, q in enumerate(i)]
        for v in range(5):
            h.prove_eq("period along " + a, w[(v,) + tuple(i)], w[(v,) + tuple(j)])


@ob("C01", "sums telescope", [SV + "euler_equation"], cases=[dict(dims=d) for d in ALLD], samples=4)
def telescope(h, dims):
    """induction over a line of cells: the partial sums of the rate are boundary fluxes, so that with equal
    first and last fluxes the sum over the line vanishes; every cell lies on one line of every direction"""
    s, u, n, L = plain(h, dims, 5)
    Fs = fluxes(h, n, 5)
    zero = [Fs[d] * 0 for d in range(3)]
    for d, a in enumerate("xyz"):
        if a not in dims:
            continue
        part = [Fs[e] if e == d else zero[e] for e in range(3)]
        r = s.euler_equation(F=part[0], G=part[1], H=part[2])
        i = list(h.skolem([5] + [1 if e == d else m for e, m in enumerate(n)]))
        at = lambda k: tuple(i[:1 + d]) + (k,) + tuple(i[2 + d:])
        S_ = lambda k: -(Fs[d][at(k)] - Fs[d][at(0)]) * n[d] / L[d]
        h.prove_eq("empty sum", S_(0), 0)
        k = h.int("k" + a, 0, small=3)
        h.assume(k < n[d])
        h.prove_eq("next cell", S_(k) + r[at(k)], S_(k + 1))
        h.prove("whole line", h.implies(h.eq(Fs[d][at(0)], Fs[d][at(n[d])], tol=0) if not h.sym else h.eq(Fs[d][at(0)], Fs[d][at(n[d])]), h.eq(S_(n[d]), 0)))
    # the directions add up
    full = s.euler_equation(F=Fs[0], G=Fs[1], H=Fs[2])
    parts = []
    for d, a in enumerate("xyz"):
        if a in dims:
            q = [Fs[e] if e == d else zero[e] for e in range(3)]
            parts.append(s.euler_equation(F=q[0], G=q[1], H=q[2]))
    h.forall("rate is the sum over the directions", [5] + n, lambda i: h.eq(full[i], sum(q[i] for q in parts)))


@ob("C01", "a step adds one combination of the stage rates", ["fvhoe.ode.ODE.euler", "fvhoe.ode.ODE.ssprk2", "fvhoe.ode.ODE.ssprk3", "fvhoe.ode.ODE.rk4"],
    cases=[dict(method=m) for m in ("euler", "ssprk2", "ssprk3", "rk4")], samples=3)
def step_sum(h, method):
    """the new state minus the old one is a combination of the rates with weights independent of the cell:
    sums that every rate leaves alone stay (checked on the sum of two arbitrary cells)"""
    from .obl_ode import ode_class, make_stepper
    n = [h.int("n%d" % d, 1, small=3) for d in range(4)]
    u = h.array("u", n)
    ks = []

    def rhs(k, t, v):
        ks.append(h.array("k%d" % k, n))
        return h.real("dt", 0) if k == 0 else h.real("dt%d" % k, 0), ks[-1]

    p = ode_class()(u, rhs)
    dt, un = make_stepper(p, method)(0.0, u)
    i, j = h.skolem(n), h.skolem(n)
    same = h.and_(*[h.eq(k[i] + k[j], 0, tol=0) if not h.sym else h.eq(k[i] + k[j], 0) for k in ks])
    if h.sym:
        h.prove("conserved sum", h.implies(same, h.eq(un[i] + un[j], u[i] + u[j])))
    else:
        # cancel the rates of the two cells and step again
        if i == j:
            raise_reject()
        base = [k.copy() for k in ks]
        for k in base:
            k[j] = -k[i]
        it = iter(base)
        q = ode_class()(u, lambda k, t, v: (0.37, next(it)))
        _, um = make_stepper(q, method)(0.0, u)
        h.prove_eq("conserved sum", um[i] + um[j], u[i] + u[j])


def raise_reject():
    from .harness import Reject
    raise Reject()


@ob("C01", "revised fluxes keep the first and the last face equal", [SV + "revise_fluxes", "fvhoe.slope_limiting.broadcast_to_troubled_interfaces (contract)"],
    cases=[dict(dims=d, force=f) for d in ALLD for f in (False, True)], samples=0, abstract=True)
def revise_periodic(h, dims, force):
    only_symbolic(h)
    nv = 5
    E = fvhoe("solver", "EulerSolver")
    p = tuple(2 if a in dims else 0 for a in "xyz")
    per = lambda name, sort="R": (lambda i: tm.app(name, (i[0],) + reduce_mod(i[1:], n), sort))
    stub_w(h, [S(tm.var("n" + a, "I")) if a in dims else 1 for a in "xyz"], uf_w(), [])
    stub_method(h, "hydrofluxes", lambda self, b: (1, tuple(arr(face_shape(n, d, nv), per("lo" + a)) if "xyz"[d] in dims else self.am(a) for d, a in enumerate("FGH"))), [])
    rb = orig(h, fvhoe("slope_limiting"), "broadcast_to_troubled_interfaces")

    def broad(*a, **k):
        b = bound(rb, a, k)
        # contract (C18): first and last face have one weight where the direction is declared periodic
        return tuple(arr([1] + face_shape(n, d, 1)[1:], (per("th" + a) if b["periodic_" + a] else lambda i, a=a: tm.app("th" + a, i, "R")) if a in dims else lambda i: tm.ZERO) for d, a in enumerate("xyz"))

    h.stub("slope_limiting", "broadcast_to_troubled_interfaces", broad, hard=True)
    h.stub("slope_limiting", "detect_troubled_cells", lambda *a, **k: (arr(n, lambda i: tm.app("T", i, "B"), "b"), arr(n, lambda i: tm.ZERO), arr(n, lambda i: tm.ZERO)), hard=True)
    s, u, n, L = plain(h, dims, nv, p=p, a_posteriori_slope_limiting=True)
    for d, a in enumerate("FGH"):
        s.am(a)[...] = arr(face_shape(n, d, nv), per("hi" + a))
    s.revise_fluxes(u=u, F=s.am("F"), G=s.am("G"), H=s.am("H"), dt=h.real("dt", 0), force_trouble=force, t=0.0)
    for d, a in enumerate("xyz"):
        if a in dims:
            i = list(h.skolem([nv] + [1 if e == d else m for e, m in enumerate(n)]))
            e0, e1 = list(i), list(i)
            e0[1 + d], e1[1 + d] = 0, n[d]
            h.prove_eq("one flux through the common %s face" % a, s.am("FGH"[d])[tuple(e0)], s.am("FGH"[d])[tuple(e1)])


# ------------------------------------------------------------------ uniform flow
@ob("C03", "boundaries continue a uniform state", ["fvhoe.boundary_conditions.BoundaryCondition.apply"],
    cases=[dict(x=a, y=b, z=c) for a, b, c in (("pp", "ff", "oo"), ("ff", "oo", "dd"), ("oo", "dd", "pp"), ("dd", "pp", "fo"), ("of", "fd", "do"), ("fd", "od", "of"))], samples=4, timeout=30)
def uniform_bc(h, x, y, z):
    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    nv = 6
    hs = fvhoe("hydro", "HydroState")(passive_scalars=("s",))
    names = dict(p="periodic", f="free", o="outflow", d="dirichlet")
    c = [h.real("c%d" % k) for k in range(nv)]
    n = [h.int("n" + a, 1, small=4) for a in "xyz"]
    g = [h.int("g" + a, 0, small=3) for a in "xyz"]
    for a, b in zip(n, g):
        h.assume(b <= a)
    u = h.make([nv] + n, lambda i: row(h, c, i[0]))
    kw = {}
    for a, q in zip("xyz", (x, y, z)):
        kw[a] = tuple(names[k] for k in q)
        kw[a + "_value"] = tuple((mkrow(c) if h.sym else np.array(c)) if k == "d" else None for k in q)
    slab = {}
    for d, a in enumerate("xyz"):
        for sd in "lr":
            sh = [g[e] if e == d else n[e] + 2 * g[e] for e in range(3)]
            slab[a + sd] = tuple(h.make(sh, lambda i: 0.0) for _ in range(3))
    b = BC(slab_coords=slab, hydro_state=hs, array_manager=fvhoe("array_management", "ArrayManager")(), **kw)
    out = b.apply(u, tuple(g), 0.0)
    h.same_shape("interior and ghosts", out, [nv] + [m + 2 * q for m, q in zip(n, g)])
    i = h.skolem([m + 2 * q for m, q in zip(n, g)])
    for v in range(nv):
        h.prove_eq("row %d everywhere" % v, out[(v,) + i], c[v])


def row(h, c, v):
    if not h.sym or not isinstance(v, S):
        return c[int(v)]
    return S(pickrow(sn.to_t(v), c))


def uniform_cases():
    out = []
    for k, c in enumerate(p_cases()):
        out.append(dict(c, limit=k % 2 == 1, rs=("hllc", "llf", "advection_upwind")[k % 3]))
        out.append(dict(c, limit=k % 2 == 0, rs=("llf", "hllc")[k % 2]))
    return out


@ob("C03", "a uniform state has no rate of change", [SV + "f", SV + "hydrodynamics", SV + "hydrofluxes", SV + "revise_fluxes", SV + "interpolate_primitives_from_conservatives", SV + "euler_equation",
    "fvhoe.boundary_conditions.BoundaryCondition.apply (contract)", "fvhoe.hydro.compute_primitives", "fvhoe.slope_limiting.MUSCL_interpolations", "fvhoe.fv.* (contract)", "fvhoe.riemann_solvers.* (contract)"],
    cases=uniform_cases(), samples=0, abstract=True, timeout=30, paths=40)
def uniform(h, dims, p, limit, rs):
    only_symbolic(h)
    nv = 6
    stub_stencils(h)
    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    E = fvhoe("solver", "EulerSolver")
    c = [h.real("c%d" % k, 0 if k in (0, 4) else None) for k in range(nv)]
    n = sizes(h, dims)
    u = h.make([nv] + n, lambda i: row(h, c, i[0]))
    # contract proved above: the ghost cells hold the same state
    stub_bc(h, n, lambda v, q: sn.to_t(row(h, c, sn.out_int(v))))
    if limit:
        for l in ("minmod", "moncen"):
            # contract (C16): the slope of two zero differences is zero
            def zero(a, b):
                a = sn.as_sym(a)
                h.forall("no differences", a.shape, lambda i: h.and_(h.eq(a[i], 0), h.eq(sn.as_sym(b)[i], 0)))
                return arr(a.shape, lambda i: tm.ZERO)
            h.stub("slope_limiting", l, zero)
    stub_riemann(h, rs, nv)
    stub_dt(h, [])
    T = []
    h.stub("slope_limiting", "detect_troubled_cells", lambda *a, **k: (arr(n, lambda i: tm.app("T", i, "B"), "b"), arr(n, lambda i: tm.ZERO), arr(n, lambda i: tm.ZERO)), hard=True)
    h.stub("slope_limiting", "broadcast_to_troubled_interfaces", lambda *a, **k: tuple(arr([1] + face_shape(n, d, 1)[1:], lambda i, q=q: tm.app("th" + q, i, "R") if q in dims else tm.ZERO) for d, q in enumerate("xyz")), hard=True)
    s, _ = solver(h, dims, p, n, nv, u=u, rs=rs, a_posteriori_slope_limiting=limit, gamma=h.real("g", 1))
    dt, r = s.f(h.real("t"), u)
    i = h.skolem([nv] + n)
    for v in range(nv):
        h.prove_eq("row %d does not change" % v, r[(v,) + tuple(i[1:])], 0)
    h.forall("state unchanged", [nv] + n, lambda i: h.eq(s.am("u")[i], u[i]))


def pickrow(v, c):
    out = sn.to_t(c[0])
    for k in range(1, len(c)):
        out = tm.ite(tm.eq(v, tm.num(k)), sn.to_t(c[k]), out)
    return out


def mkrow(c):
    return sn.SymArray.new([tm.num(len(c))], lambda i: pickrow(i[0], c) if i[0].op != "num" else sn.to_t(c[i[0].args[0]]), "f")
