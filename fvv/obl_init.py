"""Construction of a solver (C21, C12): mesh, initial averages, boundary data, settings, for meshes of every size."""
import numpy as np

from .core import ob, fvhoe
from . import symnp as sn, terms as tm
from .obl_mesh import domain, core_ic, opaque

SV = "fvhoe.solver.EulerSolver."
FUNCS = [SV + "__init__", SV + "_init_mesh", SV + "_init_initial_conditions", SV + "_init_boundary_conditions", SV + "_init_slope_limiting",
         SV + "_init_array_allocation", "fvhoe.ode.ODE.__init__", "fvhoe.initial_conditions.InitialCondition.build_ic",
         "fvhoe.fv.fv_uniform_meshgen", "fvhoe.hydro.compute_conservatives", "fvhoe.fv.fv_average (contract)"]
P0 = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 3), (3, 0, 2), (0, 1, 4), (2, 2, 0), (1, 2, 3)]


def make_ic(h):
    core = core_ic(h)

    class Mine(fvhoe("initial_conditions", "InitialCondition")):
        def base_ic(self):
            return core

    return Mine(), core


def solver(h, n, p, dom, **kw):
    # the solver asks git for the commit of its source, which is not part of any property here
    h.stub_attr(fvhoe("ode", "ODE"), "get_commit_details", lambda self: {})
    return fvhoe("solver", "EulerSolver")(nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=dom[0], y=dom[1], z=dom[2], progress_bar=False, **kw)


def centre(dom, n, d, i):
    lo, hi = dom[d]
    return lo + (i + 0.5) * ((hi - lo) / n[d])


def conserved(q, gam):
    """rows of the conserved variables from the values of the primitive ones"""
    r, vx, vy, vz, P = q[:5]
    return [r, r * vx, r * vy, r * vz, P / (gam - 1) + 0.5 * r * (vx * vx + vy * vy + vz * vz)] + [r * c for c in q[5:]]


@ob("C21", "a solver starts on its mesh with the averages of its initial data", FUNCS,
    cases=[dict(p=p, mode=["prim", "cons", "fv"][k % 3], names=[(), ("b", "a")][k % 2]) for k, p in enumerate(P0)], samples=3, paths=64, cost=2)
def start(h, p, mode, names):
    n = [h.int("n" + d, 1, small=3) for d in "xyz"]
    h.assume(h.or_(*[h.not_(h.eq(m, 1)) for m in n], sum(p) > 0))  # a problem has at least one direction
    dom = domain(h)
    gam = h.real("gamma", 1)
    ic, core = make_ic(h)
    psi = {k: opaque(h, "psi_" + k) for k in names}
    calls = []
    nv = 5 + len(names)

    def average(f, x, y, z, h=None, p=None):
        calls.append((f, (x, y, z), h, p))
        return H.array("averages", [nv] + n)

    H = h
    stubbed = h.stub("solver", "fv_average", average)
    s = solver(h, n, p, dom, w0=ic, w0_passives=psi or None, gamma=gam, conservative_ic=mode != "prim", fv_ic=mode == "fv")
    for d, a in enumerate("xyz"):
        h.prove_eq("width of a cell along " + a, s.h[d], (dom[d][1] - dom[d][0]) / n[d])
        h.forall("centres along " + a, n, lambda i: h.eq((s.X, s.Y, s.Z)[d][i], centre(dom, n, d, i[d])))
        h.forall("coordinates along " + a, [n[d]], lambda i: h.eq((s.x, s.y, s.z)[d][i], centre(dom, n, d, i[0])))
    live = [a for d, a in enumerate("xyz") if p[d] > 0 or h.case(h.lt(1, n[d]))]
    h.rec("active directions %s" % s.dims, s.dims == "".join(live) and s.ndim == len(live) and [bool(s.xdim), bool(s.ydim), bool(s.zdim)] == [a in live for a in "xyz"])
    h.rec("start time", s.t == 0 and list(s.timestamps) == [0] and s.step_count == 0)
    h.rec("degrees", tuple(s.p) == tuple(p))
    u = s.am("u")
    h.same_shape("state", u, [nv] + n)
    if mode == "fv":
        got = lambda i: [core(s.X, s.Y, s.Z)[(v,) + i] for v in range(5)] + [psi[k](s.X, s.Y, s.Z)[i] for k in names]
        h.forall("given averages are used as they are", n, lambda i: [h.eq(u[(v,) + i], q) for v, q in enumerate(got(i))])
        return
    if not stubbed:
        return
    h.rec("averaged once", len(calls) == 1)
    f, X, hh, pp = calls[0]
    for d in range(3):
        h.forall("averaged around the centres", n, lambda i: h.eq(X[d][i], centre(dom, n, d, i[d])))
        h.prove_eq("averaged over the cell", hh[d], (dom[d][1] - dom[d][0]) / n[d])
    h.rec("with quadrature of the scheme's degree", tuple(pp) == tuple(p))
    A = h.array("averages", [nv] + n)
    h.forall("the state is the averages", [nv] + n, lambda i: h.eq(u[i], A[i]))
    # what is averaged, at arbitrary points of an arbitrary mesh
    m = [h.int("m" + d, 1, small=2) for d in "xyz"]
    Y = [h.array("Y" + d, m) for d in "xyz"]
    out = f(*Y)
    h.same_shape("pointwise state", out, [nv] + m)

    def want(i):
        q = [core(*Y)[(v,) + i] for v in range(5)] + [psi[k](*Y)[i] for k in names]
        return [h.eq(out[(v,) + i], c) for v, c in enumerate(conserved(q, gam) if mode == "prim" else q)]

    h.forall("the conserved variables of the initial data are averaged", m, want)


SIDES = [
    (("dirichlet", "ic"), ("free", "free"), ("free", "free")),
    (("free", "free"), ("ic", "dirichlet"), ("outflow", "free")),
    (("outflow", "free"), ("free", "outflow"), ("dirichlet", "dirichlet")),
    (("ic", "ic"), ("ic", "ic"), ("ic", "ic")),
    (("dirichlet", "free"), ("dirichlet", "dirichlet"), ("free", "ic")),
]


@ob("C12", "a solver hands its boundaries the data and the coordinates of their ghost cells", FUNCS + ["fvhoe.boundary_conditions.BoundaryCondition.apply", "fvhoe.boundary_conditions.BoundaryCondition.trim_slabs"],
    cases=[dict(k=k, mode=["prim", "cons"][k % 2], p=p) for k, p in enumerate([(1, 0, 0), (0, 2, 1), (1, 1, 1), (2, 1, 1), (3, 3, 3)])], samples=3, paths=300, cost=3)
def sides(h, k, mode, p):
    """ghost cells next to one face of the interior (corners belong to two sides)"""
    types = SIDES[k]
    n = [h.int("n" + d, 3 if q else 1, None if q else 1, small=4) for d, q in zip("xyz", p)]
    dom = domain(h)
    gam = h.real("gamma", 1)
    t = h.real("t")
    ic, core = make_ic(h)

    def given(name):
        if h.sym:
            def f(x, y, z, t):
                fx, fy, fz = (sn.as_sym(a).fn() for a in (x, y, z))
                return sn.SymArray.new((tm.num(5),) + tuple(sn.as_sym(x).tshape), lambda i: tm.app(name, (i[0], fx(i[1:]), fy(i[1:]), fz(i[1:]), sn.to_t(t)), "R"), "f")

            return f
        q = sum(map(ord, name)) % 17
        return lambda x, y, z, t: np.array([np.cos(q + v + x - y + 0.5 * z + 3 * t) for v in range(5)])

    vals = {(d, s): given("bc_%s%s" % ("xyz"[d], "lr"[s])) for d in range(3) for s in (0, 1) if types[d][s] == "dirichlet"}
    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    bc = BC(**{a: types[d] for d, a in enumerate("xyz")}, **{a + "_value": tuple(vals.get((d, s)) for s in (0, 1)) for d, a in enumerate("xyz")})
    h.stub("solver", "fv_average", lambda f, x, y, z, h=None, p=None: H.array("averages", [5] + n))
    H = h
    B = h.int("B", 3, small=5)
    s = solver(h, n, p, dom, w0=ic, gamma=gam, conservative_ic=mode == "cons", bc=bc, slab_buffer_size=B)
    g = [2 if q else 0 for q in p]
    u = h.array("u", [5] + n)
    out = s.bc.apply(u, gw=tuple(g), t=t)
    h.same_shape("ghost cells on every active side", out, [5] + [m + 2 * q for m, q in zip(n, g)])
    for d, a in enumerate("xyz"):
        if not g[d]:
            continue
        for side in (0, 1):
            kind = types[d][side]
            shape = [g[e] if e == d else n[e] for e in range(3)]

            def at(i):
                where = [i[e] + ((0 if side == 0 else n[e] + g[e]) if e == d else g[e]) for e in range(3)]
                x = [centre(dom, n, e, where[e] - g[e]) for e in range(3)]
                arr = [h.make([1, 1, 1], (lambda e: lambda q: x[e])(e)) for e in range(3)]
                if kind == "dirichlet":
                    w = [vals[(d, side)](*arr, t=t)[v, 0, 0, 0] for v in range(5)]
                elif kind == "ic":
                    w = [core(*arr)[v, 0, 0, 0] for v in range(5)]
                    w = conserved(w, gam) if mode == "prim" else w
                else:
                    return True
                return [h.eq(out[(v,) + tuple(where)], w[v]) for v in range(5)]

            if kind in ("dirichlet", "ic"):
                h.forall("%s side of %s" % ("lower upper".split()[side], a), shape, at)


@ob("C21", "settings of a solver", FUNCS, samples=1)
def settings(h):
    """defaults and given settings arrive unchanged; meaningless combinations are refused"""
    n = [h.int("n" + d, 2, small=3) for d in "xyz"]
    dom = domain(h)
    ic, core = make_ic(h)
    h.stub("solver", "fv_average", lambda f, x, y, z, h=None, p=None: H.array("averages", [5] + n))
    H = h
    cfl, dt = h.real("CFL", 0), h.real("fixed", 0)
    s = solver(h, n, (1, 1, 1), dom, w0=ic)
    for d in range(3):
        h.rec("periodic by default", tuple(getattr(s.bc, "xyz"[d])) == ("periodic", "periodic"))
    h.rec("no limiting by default", s.a_posteriori_slope_limiting is False)
    h.rec("CFL time steps by default", s.fixed_dt is None)
    s = solver(h, n, (1, 1, 1), dom, w0=ic, CFL=cfl, fixed_dt=dt)
    h.prove_eq("CFL", s.CFL, cfl)
    h.prove_eq("fixed step", s.fixed_dt, dt)
    h.raises("averages need conserved data", ValueError, lambda: solver(h, n, (1, 1, 1), dom, w0=ic, fv_ic=True))
    h.raises("unknown Riemann solver", (TypeError, ValueError), lambda: solver(h, n, (1, 1, 1), dom, w0=ic, riemann_solver="exact"))
