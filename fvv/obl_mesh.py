"""Contracts: mesh, slab coordinates, quadrature, initial cell averages (C21; slabs also C12)."""
import itertools

import numpy as np

from .core import ob, fvhoe
from . import symnp as sn, terms as tm


def domain(h):
    out = []
    for d in "xyz":
        lo = h.real(d + "0")
        out.append((lo, lo + h.real("L" + d, 0)))
    return out


@ob("C21", "cell centres", ["fvhoe.fv.fv_uniform_meshgen"], samples=6)
def mesh(h):
    f = fvhoe("fv", "fv_uniform_meshgen")
    n = [h.int("n" + d, 1, small=4) for d in "xyz"]
    dom = domain(h)
    XYZ = f(tuple(n), *dom)
    for d in range(3):
        h.same_shape("shape", XYZ[d], n)
        lo, hi = dom[d]
        h.forall("midpoints of equal cells tiling the domain, direction %d" % d, n,
                 lambda i: h.eq(XYZ[d][i], lo + (i[d] + 0.5) * ((hi - lo) / n[d])))


def slab_case(h, zero):
    f = fvhoe("fv", "fv_uniform_meshgen")
    n = [h.int("n" + d, 1, small=4) for d in "xyz"]
    B = [0 if d in zero else h.int("B" + d, 1, small=4) for d in "xyz"]
    dom = domain(h)
    inner, sl = f(tuple(n), *dom, slab_thickness=tuple(B))
    for d in range(3):
        h.same_shape("interior shape", inner[d], n)
        lo, hi = dom[d]
        h.forall("interior centres, direction %d" % d, n, lambda i: h.eq(inner[d][i], lo + (i[d] + 0.5) * ((hi - lo) / n[d])))
    h.rec("six slabs", set(sl) == {a + b for a in "xyz" for b in "lr"})
    for (d, a), (s, pos) in itertools.product(enumerate("xyz"), enumerate("lr")):
        shape = [B[e] if e == d else n[e] + 2 * B[e] for e in range(3)]
        for e in range(3):
            A = sl[a + pos][e]
            h.same_shape("slab %s%s shape" % (a, pos), A, shape)
            if a in zero:
                continue
            lo, hi = dom[e]
            off = (-B[e] if s == 0 else n[e]) if e == d else -B[e]
            h.forall("slab %s%s continues the mesh along %s" % (a, pos, "xyz"[e]), shape,
                     lambda i: h.eq(A[i], lo + (i[e] + off + 0.5) * ((hi - lo) / n[e])))


@ob(["C21", "C12"], "slab coordinates continue the mesh", ["fvhoe.fv.fv_uniform_meshgen"],
    cases=[dict(zero=z) for z in ("", "x", "z", "yz", "xz", "xy")], samples=6, cost=2)
def slabs(h, zero):
    slab_case(h, zero)


@ob("C21", "quadrature integrates degree p exactly", ["fvhoe.fv.get_legendre_quadrature"], cases=[dict(p=p) for p in range(0, 13)], samples=1,
    assumes=["numpy.polynomial.legendre.leggauss is evaluated in floating point: moments are compared with 1e-13 tolerance"])
def quad(h, p):
    """points in a unit cell centred at 0, for every supported degree (exhaustive evaluation)"""
    f = fvhoe("fv", "get_legendre_quadrature")
    for r in range(2):
        x, w = f(p)
        ok = all(abs(float(np.sum(w * x ** k)) - (0.0 if k % 2 else 2 * 0.5 ** (k + 1) / (k + 1))) < 1e-13 for k in range(p + 1))
        h.rec("moments up to degree %d (call %d)" % (p, r + 1), ok and bool(np.all(np.abs(x) <= 0.5)))


@ob("C21", "average over the cell by tensor quadrature", ["fvhoe.fv.fv_average"],
    cases=[dict(p=p) for p in ((0, 0, 0), (1, 0, 0), (2, 0, 3), (3, 2, 1), (0, 4, 0), (1, 1, 4))], samples=3, cost=2,
    assumes=["fv_average is checked for arbitrary quadrature points and weights, i.e. against the contract of get_legendre_quadrature"])
def average(h, p):
    f = fvhoe("fv", "fv_average")
    npts = lambda q: q // 2 + 1
    rules = {}

    def rule(q):
        if q not in rules:
            rules[q] = (h.array("xp%d" % q, [npts(q)]), h.array("xw%d" % q, [npts(q)]))
        return rules[q]

    if not h.stub("fv", "get_legendre_quadrature", rule):
        rule = lambda q: [a for a in np.polynomial.legendre.leggauss(npts(q))]
        rule2 = rule
        rule = lambda q: [0.5 * a for a in rule2(q)]
    n = [h.int("n" + d, 1, small=2) for d in "xyz"]
    hh = [h.real("h" + d, 0) for d in "xyz"]
    X = [h.array("X" + d, n) for d in "xyz"]
    nv = h.int("nv", 1, small=3)
    if h.sym:
        g = lambda v, x, y, z: h.uf("g", v, x, y, z)

        def func(x, y, z):
            fx, fy, fz = (sn.as_sym(a).fn() for a in (x, y, z))
            return sn.SymArray.new((sn.to_t(nv),) + tuple(sn.as_sym(x).tshape),
                                   lambda i: tm.app("g", (i[0], fx(i[1:]), fy(i[1:]), fz(i[1:])), "R"), "f")
    else:
        g = lambda v, x, y, z: np.sin(v + x + 2 * y + 3 * z)
        func = lambda x, y, z: np.stack([g(v, x, y, z) for v in range(nv)])
    X0 = [a.copy() for a in X]
    out = f(func, *X, h=tuple(hh), p=p)
    h.same_shape("shape", out, [nv] + n)

    def want(i):
        s = 0
        for a, b, c in itertools.product(*[range(npts(q)) for q in p]):
            (xp, xw), (yp, yw), (zp, zw) = rule(p[0]), rule(p[1]), rule(p[2])
            s = s + xw[a] * yw[b] * zw[c] * g(i[0], X0[0][i[1:]] + xp[a] * hh[0], X0[1][i[1:]] + yp[b] * hh[1], X0[2][i[1:]] + zp[c] * hh[2])
        return s

    h.forall("weighted sum over the quadrature points of the cell", [nv] + n, lambda i: h.eq(out[i], want(i)))
    for d in range(3):
        h.forall_eq("coordinates unchanged", X[d], X0[d])


@ob("C21", "polynomial initial data gives exact averages", ["fvhoe.fv.fv_average"], kind="run", samples=25, budget=20)
def polyavg(h):
    f, mesh = fvhoe("fv", "fv_average", "fv_uniform_meshgen")
    r = h.rng
    n = tuple(int(q) for q in r.integers(1, 4, 3))
    p = tuple(int(q) for q in r.integers(0, 7, 3))
    dom = [(a, a + b) for a, b in zip(r.normal(size=3), r.uniform(0.3, 2, 3))]
    hh = tuple((b - a) / m for (a, b), m in zip(dom, n))
    X, Y, Z = mesh(n, *dom)
    c = [r.normal(size=q + 1) for q in p]
    P = np.polynomial.polynomial
    fun = lambda x, y, z: np.array([P.polyval(x, c[0]) * P.polyval(y, c[1]) * P.polyval(z, c[2]), P.polyval(y, c[1])])
    out = f(fun, X, Y, Z, h=hh, p=p)

    def av(A, cc, w):
        I = P.polyint(cc)
        return (P.polyval(A + w / 2, I) - P.polyval(A - w / 2, I)) / w

    a, b, d = av(X, c[0], hh[0]), av(Y, c[1], hh[1]), av(Z, c[2], hh[2])
    h.record.update(n=n, p=p, dom=dom)
    h.forall_eq("tensor polynomial", out, np.array([a * b * d, b]), tol=1e-9)


def opaque(h, name):
    if h.sym:
        def f(x, y, z):
            fx, fy, fz = (sn.as_sym(a).fn() for a in (x, y, z))
            return sn.SymArray.new(tuple(sn.as_sym(x).tshape), lambda i: tm.app(name, (fx(i), fy(i), fz(i)), "R"), "f")

        return f
    k = sum(map(ord, name)) % 17
    return lambda x, y, z: np.sin(k + x + 2 * y - z)


def core_ic(h, name="core"):
    if h.sym:
        def f(x, y, z):
            fx, fy, fz = (sn.as_sym(a).fn() for a in (x, y, z))
            return sn.SymArray.new((tm.num(5),) + tuple(sn.as_sym(x).tshape), lambda i: tm.app(name, (i[0], fx(i[1:]), fy(i[1:]), fz(i[1:])), "R"), "f")

        return f
    return lambda x, y, z: np.array([np.cos(v + x - y + 0.5 * z) for v in range(5)])


@ob(["C21", "C19"], "each passive scalar in its own row", ["fvhoe.initial_conditions.InitialCondition.build_ic"],
    cases=[dict(names=n, order=o) for n, o in (((), ()), (("a",), ("a",)), (("b", "a"), ("a", "b")), (("s1", "s2", "s3"), ("s3", "s1", "s2")))], samples=2)
def build(h, names, order):
    IC = fvhoe("initial_conditions", "InitialCondition")
    hs = fvhoe("hydro", "HydroState")(passive_scalars=names)
    core = core_ic(h)

    class Mine(IC):
        def base_ic(self):
            return core

    funcs = {k: opaque(h, "psi_" + k) for k in order}
    ic = Mine().build_ic(hs, funcs if names else None)
    n = [h.int("n" + d, 1, small=3) for d in "xyz"]
    X = [h.array("X" + d, n) for d in "xyz"]
    out = ic(x=X[0], y=X[1], z=X[2])
    h.same_shape("shape", out, [5 + len(names)] + n)
    c = core(*X)
    for v in range(5):
        h.forall("gas row %d" % v, n, lambda i: h.eq(out[(v,) + i], c[(v,) + i]))
    for k, s in enumerate(names):
        q = funcs[s](*X)
        h.forall("scalar %s in row %d" % (s, 5 + k), n, lambda i: h.eq(out[(5 + k,) + i], q[i]))
    if names:
        h.raises("missing scalar refused", ValueError, lambda: Mine().build_ic(hs, {k: f for k, f in list(funcs.items())[:-1]}))


@ob("C21", "initial state of a solver", ["fvhoe.solver.EulerSolver.__init__", "fvhoe.solver.EulerSolver._init_mesh", "fvhoe.solver.EulerSolver._init_initial_conditions"],
    kind="run", samples=30, budget=40)
def solver_init(h):
    from . import sim
    r = h.rng
    n = [int(q) for q in r.integers(1, 5, 3)]
    p = [int(q) for q in r.integers(0, 6, 3)]
    for d in range(3):
        if r.uniform() < 0.4:
            n[d], p[d] = 1, 0
    if all(m == 1 and q == 0 for m, q in zip(n, p)):
        n[0] = 3  # a problem has at least one direction
    mode = ["prim", "cons", "fv"][h.sample % 3]
    names = ("c", "a")[: int(r.integers(0, 3))]
    dom = [(float(a), float(a + b)) for a, b in zip(r.normal(size=3), r.uniform(0.3, 2, 3))]
    gam = float(r.uniform(1.1, 2))
    fields = sim.random_fields(r, len(names))
    h.record.update(n=n, p=p, mode=mode, names=names, dom=dom, gamma=gam)
    IC = fvhoe("initial_conditions", "InitialCondition")
    calls = []

    class Mine(IC):
        def base_ic(self):
            return lambda x, y, z: fields.prim(x, y, z)[:5]

    s = fvhoe("solver", "EulerSolver")(
        w0=Mine(), w0_passives={k: (lambda x, y, z, q=q: fields.prim(x, y, z)[5 + q]) for q, k in enumerate(names)} or None,
        nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=dom[0], y=dom[1], z=dom[2], gamma=gam,
        conservative_ic=mode != "prim", fv_ic=mode == "fv", progress_bar=False)
    w = [(b - a) / m for (a, b), m in zip(dom, n)]
    cent = [a + (np.arange(m) + 0.5) * q for (a, b), m, q in zip(dom, n, w)]
    for d in range(3):
        h.rec("width", abs(s.h[d] - w[d]) < 1e-12 * (1 + w[d]))
        h.forall_eq("centres " + "xyz"[d], getattr(s, "xyz"[d]), cent[d], tol=1e-11)
    X, Y, Z = np.meshgrid(*cent, indexing="ij")
    act = "".join(a for a, m, q in zip("xyz", n, p) if not (m == 1 and q == 0))
    h.rec("active directions %s, got %s" % (act, s.dims), s.dims == act and s.ndim == len(act) and
          (s.xdim, s.ydim, s.zdim) == tuple(a in act for a in "xyz"))
    h.rec("start time", s.t == 0.0)
    if mode == "fv":
        want = fields.prim(X, Y, Z)
    else:
        q = (lambda x, y, z: sim.cons(fields.prim(x, y, z), gam)) if mode == "prim" else fields.prim
        want = 0
        rules = [np.polynomial.legendre.leggauss(k // 2 + 1) for k in p]
        for (a, wa) in zip(*rules[0]):
            for (b, wb) in zip(*rules[1]):
                for (c, wc) in zip(*rules[2]):
                    want = want + wa * wb * wc / 8 * q(X + a * w[0] / 2, Y + b * w[1] / 2, Z + c * w[2] / 2)
    h.forall_eq("initial averages", s.am("u"), want, tol=1e-10)
    if mode == "prim":
        h.raises("averaged primitives are refused", ValueError, lambda: fvhoe("solver", "EulerSolver")(w0=Mine(), nx=4, fv_ic=True, progress_bar=False))
