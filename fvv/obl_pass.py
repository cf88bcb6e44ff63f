"""Contracts: passive scalars (C19).

Relational contracts: each function runs on the same gas with two different sets of scalars.  The gas rows of the
results must agree, and so must the rows of a scalar both sets contain, whatever its position and company.  Callees are
replaced by arbitrary functions that obey their own contract (proved here on the real callee): gas rows see the gas
only, a scalar row the gas and itself through one common function.  The second family proves that a scalar row is
linear and that a uniform scalar's flux is its value times the mass flux.
"""
import numpy as np

from .core import ob, fvhoe
from . import symnp as sn, terms as tm
from . import obl_solver as sv, obl_hydro as oh
from .obl_solver import SV, S, arr, bound, orig, only_symbolic, face_shape, ALLD, solver, call_fluxes, stub_method, stub_stencils, sizes
from .obl_sym import NAMES

SETS = [(("a", "b"), ()), (("a", "b"), ("b",)), (("b", "a"), ("a", "c", "b")), ((), ("c",))]


def common(A, B):
    """rows to compare: (row of A, row of B)"""
    return [(v, v) for v in range(5)] + [(5 + A.index(k), 5 + B.index(k)) for k in A if k in B]


def registry(keys):
    return fvhoe("hydro", "HydroState")(passive_scalars=tuple(keys))


def data(name, keys):
    """arbitrary element function of a problem: gas rows, and one function per scalar"""
    def W(v, c):
        if v.op != "num":
            raise sn.Unsupported("symbolic row")
        v = v.args[0]
        return tm.app(name, (tm.num(v),) + tuple(c), "R") if v < 5 else tm.app("%s_%s" % (name, keys[v - 5]), tuple(c), "R")
    return W


def fields(h, name, keys, n, pos=oh.pos_rho):
    """arrays of the gas and of every scalar"""
    gas = h.array(name, [5] + list(n), pred=pos)
    return gas, {k: h.array("%s_%s" % (name, k), n) for k in sorted(set(keys))}


def assemble(h, gas, sc, keys, n):
    nv = 5 + len(keys)
    if not h.sym:
        return np.concatenate([gas] + [sc[k][None] for k in keys])
    g, fs = sn.as_sym(gas).fn(), [sn.as_sym(sc[k]).fn() for k in keys]

    def fn(i):
        if i[0].op == "num":
            v = i[0].args[0]
            return g(i) if v < 5 else fs[v - 5](i[1:])
        out = g(i)
        for k, f in enumerate(fs):
            out = tm.ite(tm.eq(i[0], tm.num(5 + k)), f(i[1:]), out)
        return out
    return arr([nv] + list(n), fn)


def agree(h, what, a, b, A, B, shape):
    i = h.skolem(shape)
    for v, q in common(A, B):
        h.prove_eq("%s, %s" % (what, "row %d" % v if v < 5 else "scalar " + A[v - 5]), a[(v,) + i], b[(q,) + i])


# ------------------------------------------------------------------ pointwise functions
@ob("C19", "conversions of gas and scalars", ["fvhoe.hydro.compute_primitives", "fvhoe.hydro.compute_conservatives", "fvhoe.hydro.compute_fluxes", "fvhoe.hydro.compute_sound_speed"],
    cases=[dict(A=a, B=b) for a, b in SETS])
def conversions(h, A, B):
    C, P, Fl, cs = fvhoe("hydro", "compute_conservatives", "compute_primitives", "compute_fluxes", "compute_sound_speed")
    n = oh.shape3(h)
    g, fl = oh.gas(h)
    gas, sc = fields(h, "w", A + B, n)
    out = []
    for K in (A, B):
        hs, w = registry(K), assemble(h, gas, sc, K, n)
        u = C(hs, w, g)
        out.append((u, P(hs, w, g), [Fl(hs, w, u, g, d, include_pressure=q) for d in "xyz" for q in (True, False)], cs(w, g, fl)))
    (u1, p1, f1, c1), (u2, p2, f2, c2) = out
    agree(h, "conserved", u1, u2, A, B, n)
    agree(h, "primitive", p1, p2, A, B, n)
    for x, y in zip(f1, f2):
        agree(h, "flux", x, y, A, B, n)
    h.forall("sound speed", n, lambda i: h.eq(c1[i], c2[i]))


@ob("C19", "numerical fluxes of gas and scalars", ["fvhoe.riemann_solvers.*"], cases=[dict(rs=r, dim=d, A=a, B=b) for r in oh.SOLVERS for k, d in enumerate("xyz") for a, b in (SETS[k], SETS[(k + 2) % 4])])
def riemann(h, rs, dim, A, B):
    f = oh.solver(rs)
    n = oh.shape3(h)
    g, fl = oh.gas(h)
    (gl, sl), (gr, sr) = fields(h, "wl", A + B, n), fields(h, "wr", A + B, n)
    x, y = (f(registry(K), (assemble(h, gl, sl, K, n), assemble(h, gr, sr, K, n)), g, dim, fl) for K in (A, B))
    agree(h, "flux", x, y, A, B, n)


def combined(h, sc, n, k3=None):
    """a third scalar: al * a + be * b; a uniform one"""
    al, be, cst = k3 or (h.real("al"), h.real("be"), h.real("cst"))
    if h.sym:
        fa, fb = sn.as_sym(sc["a"]).fn(), sn.as_sym(sc["b"]).fn()
        sc["ab"] = arr(n, lambda i: tm.add(tm.mul(sn.to_t(al), fa(i)), tm.mul(sn.to_t(be), fb(i))))
        sc["one"] = arr(n, lambda i: sn.to_t(cst))
    else:
        sc["ab"] = al * sc["a"] + be * sc["b"]
        sc["one"] = np.full([int(q) for q in n], cst)
    return al, be, cst


ALLK = ("a", "one", "b", "ab")


def linear(h, what, F, shape, al, be, cst):
    r = {k: 5 + ALLK.index(k) for k in ALLK}
    i = h.skolem(shape)
    at = lambda v: F[(v,) + i]
    h.prove_eq(what + " is linear in the scalar", at(r["ab"]), al * at(r["a"]) + be * at(r["b"]))
    h.prove_eq(what + " of a uniform scalar", at(r["one"]), cst * at(0))


@ob("C19", "scalar rows of the conversions are linear", ["fvhoe.hydro.compute_primitives", "fvhoe.hydro.compute_conservatives", "fvhoe.hydro.compute_fluxes"])
def conv_linear(h):
    C, P, Fl = fvhoe("hydro", "compute_conservatives", "compute_primitives", "compute_fluxes")
    n = oh.shape3(h)
    g, fl = oh.gas(h)
    gas, sc = fields(h, "w", ("a", "b"), n)
    k3 = combined(h, sc, n)
    hs, w = registry(ALLK), assemble(h, gas, sc, ALLK, n)
    u = C(hs, w, g)
    linear(h, "scalar mass", u, n, *k3)
    for d in "xyz":
        linear(h, "scalar flux", Fl(hs, w, u, g, d), n, *k3)
    # back: conserved scalars given
    v = P(hs, w, g)
    i = h.skolem(n)
    h.prove_eq("scalar is linear in its mass", v[(8,) + i], k3[0] * v[(5,) + i] + k3[1] * v[(7,) + i])
    h.prove_eq("scalar mass proportional to the mass", P(hs, u, g)[(6,) + i], k3[2])


@ob("C19", "scalar rows of the numerical fluxes are linear", ["fvhoe.riemann_solvers.*"], cases=[dict(rs=r, dim=d) for r in oh.SOLVERS for d in "xyz"], cost=2, timeout=30)
def riemann_linear(h, rs, dim):
    f = oh.solver(rs)
    if h.sym:
        oh.stub_sound(h)
    n = [1, 1, 1]
    g, fl = oh.gas(h)
    (gl, sl), (gr, sr) = fields(h, "wl", ("a", "b"), n, oh.pos_rho_P), fields(h, "wr", ("a", "b"), n, oh.pos_rho_P)
    k3 = combined(h, sl, n)
    combined(h, sr, n, k3)
    F = f(registry(ALLK), (assemble(h, gl, sl, ALLK, n), assemble(h, gr, sr, ALLK, n)), g, dim, fl)
    linear(h, rs, F, n, *k3)


# ------------------------------------------------------------------ ghost zones
@ob("C19", "ghost zones of gas and scalars", ["fvhoe.boundary_conditions.BoundaryCondition.apply", "fvhoe.boundary_conditions._set_*"], timeout=30, paths=400,
    cases=[dict(types=t, A=a, B=b) for t, (a, b) in zip((("pp", "ff", "oo"), ("rr", "fo", "pp"), ("or", "rf", "ff"), ("dd", "pp", "oo"), ("pp", "fd", "rr"), ("oo", "ff", "dd"), ("rr", "pp", "dr"), ("ff", "rr", "pp")), SETS * 2)])
def ghosts(h, types, A, B):
    BC, AM = fvhoe("boundary_conditions", "BoundaryCondition"), fvhoe("array_management", "ArrayManager")
    n = [h.int("n" + a, 1, small=4) for a in "xyz"]
    g = [h.int("g" + a, 0, small=3) for a in "xyz"]
    for a, b in zip(n, g):
        h.assume(b <= a)
    gas, sc = fields(h, "u", A + B, n, None)
    vals = {(d, k): fields(h, "c%d%d" % (d, k), A + B, [1], None) for d in range(3) for k in (0, 1) if types[d][k] == "d"}
    out = []
    for K in (A, B):
        kw = {}
        for d, a in enumerate("xyz"):
            kw[a] = tuple(NAMES[t] for t in types[d])
            kw[a + "_value"] = tuple(assemble(h, *vals[d, k], K, [1])[:, 0] if (d, k) in vals else None for k in (0, 1))
        slab = {a + s: tuple(h.make([g[e] if e == d else n[e] + 2 * g[e] for e in range(3)], lambda i: 0.0) for _ in range(3)) for d, a in enumerate("xyz") for s in "lr"}
        b = BC(slab_coords=slab, hydro_state=registry(K), array_manager=AM(), **kw)
        out.append(b.apply(assemble(h, gas, sc, K, n), tuple(g), 0.0))
    agree(h, "cell", out[0], out[1], A, B, [m + 2 * q for m, q in zip(n, g)])


# ------------------------------------------------------------------ time step
@ob("C19", "time step does not see the scalars", ["fvhoe.hydro.hydro_dt"], cases=[dict(A=a, B=b) for a, b in SETS])
def step(h, A, B):
    f = fvhoe("hydro", "hydro_dt")
    n = oh.shape3(h)
    g, fl = oh.gas(h)
    gas, sc = fields(h, "w", A + B, n)
    hh, cfl = h.real("h", 0), h.real("cfl", 0)
    a, b = (f(w=assemble(h, gas, sc, K, n), h=hh, ndim=2, CFL=cfl, gamma=g, csq_floor=fl) for K in (A, B))
    h.prove_eq("the same step", a, b)


# ------------------------------------------------------------------ face fluxes
def times(a, t):
    """a * t, distributed over the sums of t"""
    c, d = tm.lin(t)
    out = [tm.scale(c, a)]
    for m, k in d.items():
        fs = m.args if m.op == "mul" else (m,)
        s = next((f for f in fs if f.op == "sum"), None)
        if s is None:
            out.append(tm.scale(k, tm.mul(a, m)))
        else:
            rest = a
            for f in fs:
                if f is not s:
                    rest = tm.mul(rest, f)
            out.append(tm.scale(k, times(rest, s)))
    return tm.add(*out)


def keyed_r(keys):
    """gas rows see the gas; a scalar row is linear in its own values, a uniform scalar's flux is its value times the mass flux"""
    def R(dim, v, wl, wr):
        if v.op != "num":
            raise sn.Unsupported("symbolic row")
        gas = tuple(wl[:5]) + tuple(wr[:5])
        q = v.args[0]
        row = lambda k: tm.app("R" + dim, (tm.num(k),) + gas, "R")
        if q < 5:
            return row(q)
        A = tm.app("A" + dim, gas, "R")
        return tm.add(times(A, wl[q]), times(row(0), wr[q]), tm.scale(-1, times(A, wr[q])))
    return R


def flux_run(h, dims, p, n, keys, limiter, W=None, dom=None):
    nv = 5 + len(keys)
    s, u, _, rec, lim = sv.setup(h, dims, p, limiter, nv, n=n, W=W or data("W", keys), R=keyed_r(keys), domain=dom, names=keys, u=arr([nv] + n, lambda i: tm.app("unused", i, "R")))
    dt, F = call_fluxes(h, s, u, p, limiter, h.real("t"))
    return F, rec


def domain(h):
    out = []
    for a in "xyz":
        lo = h.real(a + "0")
        out.append((lo, lo + h.real("L" + a, 0)))
    return out


FEW = [c for k, c in enumerate(sv.p_cases()) if k % 3 == 0 or len(c["dims"]) == 3]


@ob("C19", "face fluxes of gas and scalars", sv.RHS, cases=[dict(c, A=SETS[k % 4][0], B=SETS[k % 4][1]) for k, c in enumerate(FEW)], samples=0, abstract=True)
def faces(h, dims, p, A, B):
    compare_faces(h, dims, p, A, B, None)


@ob("C19", "slope-limited face fluxes of gas and scalars", sv.LOW, cases=[dict(c, A=SETS[k % 4][0], B=SETS[k % 4][1]) for k, c in enumerate(sv.low_cases())], samples=0, abstract=True)
def low_faces(h, dims, p, limiter, A, B):
    compare_faces(h, dims, p, A, B, limiter)


def compare_faces(h, dims, p, A, B, limiter):
    only_symbolic(h)
    n = sizes(h, dims)
    dom = domain(h)
    (FA, ra), (FB, rb) = (flux_run(h, dims, p, n, K, limiter, dom=dom) for K in (A, B))
    for d, a in enumerate("xyz"):
        if a in dims:
            h.same_shape("one %s flux per row" % a, FA[d], face_shape(n, d, 5 + len(A)))
            agree(h, a + " flux", FA[d], FB[d], A, B, face_shape(n, d, 5)[1:])
    if len(ra["dt"]) != len(rb["dt"]):
        raise sn.Unsupported("time step evaluated %d, %d times" % (len(ra["dt"]), len(rb["dt"])))
    for x, y in zip(ra["dt"], rb["dt"]):
        i = h.skolem(x["w"].shape[1:])
        for v in range(5):
            h.prove_eq("gas of the time step, row %d" % v, x["w"][(v,) + i], y["w"][(v,) + i])
        for q in ("h", "ndim", "CFL", "gamma", "csq_floor"):
            h.prove_eq("time step: " + q, x[q], y[q])


@ob("C19", "scalar face fluxes are linear", sv.RHS, cases=FEW, samples=0, abstract=True)
def faces_linear(h, dims, p):
    only_symbolic(h)
    linear_faces(h, dims, p, None)


@ob("C19", "slope-limited flux of a uniform scalar", sv.LOW, cases=sv.low_cases(), samples=0, abstract=True,
    assumes=["the limited slope of two zero differences is zero (proved under C16)"])
def low_uniform(h, dims, p, limiter):
    only_symbolic(h)
    linear_faces(h, dims, p, limiter)


def linear_faces(h, dims, p, limiter):
    al, be, cst = h.real("al"), h.real("be"), h.real("cst")
    base = data("W", ("a", "one", "b"))

    def W(v, c):
        if v.op == "num" and v.args[0] == 6:
            return sn.to_t(cst)
        if v.op == "num" and v.args[0] == 8:
            return tm.add(tm.mul(sn.to_t(al), base(tm.num(5), c)), tm.mul(sn.to_t(be), base(tm.num(7), c)))
        return base(v, c)

    n = sizes(h, dims)
    lim = None
    if limiter:
        def lim(a, b):
            if a is tm.ZERO and b is tm.ZERO:
                return tm.ZERO
            return tm.app("lim_" + limiter, tuple(sorted((a, b), key=lambda t: t.id)), "R")
    nv = 9
    s, u, _, rec, _ = sv.setup(h, dims, p, limiter, nv, n=n, W=W, R=keyed_r(ALLK), lim=lim, names=ALLK, u=arr([nv] + n, lambda i: tm.app("unused", i, "R")))
    dt, F = call_fluxes(h, s, u, p, limiter, h.real("t"))
    for d, a in enumerate("xyz"):
        if a not in dims:
            continue
        i = h.skolem(face_shape(n, d, 5)[1:])
        if limiter is None:
            h.prove_eq(a + " flux is linear in the scalar", F[d][(8,) + i], al * F[d][(5,) + i] + be * F[d][(7,) + i])
        h.prove_eq(a + " flux of a uniform scalar", F[d][(6,) + i], cst * F[d][(0,) + i])


# ------------------------------------------------------------------ averaged primitives
def keyed_prim(v, us, uniform=None):
    """contract proved above: gas rows see the gas; a scalar is its mass times a function of the gas"""
    if v.op != "num":
        raise sn.Unsupported("symbolic row")
    if v.args[0] < 5:
        return tm.app("PRIM", (v,) + tuple(us[:5]), "R")
    if uniform is not None and tm.sub(times(tm.ONE, us[v.args[0]]), times(uniform, us[0])) is tm.ZERO:
        return uniform  # u_s = c u_0
    return times(tm.app("SPEC", tuple(us[:5]), "R"), us[v.args[0]])


@ob("C19", "averaged primitives of gas and scalars", sv.PRIMS, cases=[dict(c, A=SETS[k % 4][0], B=SETS[k % 4][1], fv=k % 3 > 0) for k, c in enumerate(FEW)], samples=0, abstract=True)
def averages(h, dims, p, A, B, fv):
    only_symbolic(h)
    n = sizes(h, dims)
    dom = domain(h)
    g = tuple(2 if a in dims else 0 for a in "xyz")
    out = []

    def once(K):
        h.unstub()
        stub_stencils(h)
        nv = 5 + len(K)
        sv.stub_bc(h, n, data("EXT", K))
        sv.stub_prim(h, nv, keyed_prim)
        s, u = solver(h, dims, p, n, nv, u=arr([nv] + n, lambda i: tm.app("unused", i, "R")), domain=dom, names=K)
        out.append(s.interpolate_primitives_from_conservatives(u, p, g, fv, 0.0))

    once(A)
    once(B)
    agree(h, "average", out[0], out[1], A, B, [m + 2 * q for m, q in zip(n, g)])


@ob("C19", "averaged scalars are linear", sv.PRIMS, cases=FEW, samples=0, abstract=True)
def averages_linear(h, dims, p):
    only_symbolic(h)
    n = sizes(h, dims)
    al, be, cst = h.real("al"), h.real("be"), h.real("cst")
    base = data("EXT", ("a", "one", "b"))
    c_ = sn.to_t(cst)

    def EXT(v, c):
        if v.op == "num" and v.args[0] == 6:
            return tm.mul(c_, base(tm.ZERO, c))
        if v.op == "num" and v.args[0] == 8:
            return tm.add(tm.mul(sn.to_t(al), base(tm.num(5), c)), tm.mul(sn.to_t(be), base(tm.num(7), c)))
        return base(v, c)

    stub_stencils(h)
    sv.stub_bc(h, n, EXT)
    sv.stub_prim(h, 9, lambda v, us: keyed_prim(v, us, c_))
    g = tuple(1 if a in dims else 0 for a in "xyz")
    s, u = solver(h, dims, p, n, 9, u=arr([9] + n, lambda i: tm.app("unused", i, "R")), names=ALLK)
    w = s.interpolate_primitives_from_conservatives(u, p, g, True, 0.0)
    i = h.skolem([m + 2 * q for m, q in zip(n, g)])
    h.prove_eq("scalars are linear in their masses", w[(8,) + i], al * w[(5,) + i] + be * w[(7,) + i])
    h.prove_eq("a uniform scalar", w[(6,) + i], cst)


# ------------------------------------------------------------------ limiting
@ob("C19", "limiting of gas and scalars", [SV + "revise_fluxes", SV + "log_troubles", SV + "euler_equation", SV + "hydrofluxes (contract)", SV + "interpolate_primitives_from_conservatives (contract)",
                                          "fvhoe.slope_limiting.detect_troubled_cells (contract)", "fvhoe.slope_limiting.broadcast_to_troubled_interfaces (contract)"],
    cases=[dict(dims=d, convex=k % 2 == 0 and d != "xyz", A=SETS[k % 4][0], B=SETS[k % 4][1]) for k, d in enumerate(ALLD)], samples=0, abstract=True, paths=60)
def limiting(h, dims, convex, A, B):
    only_symbolic(h)
    p = tuple((3, 2, 4)[d] if a in dims else 0 for d, a in enumerate("xyz"))
    n = sizes(h, dims)
    dom = domain(h)
    t, dt, cst = h.real("t"), h.real("dt", 0), h.real("cst")
    res = []
    rd, rb = orig(h, fvhoe("slope_limiting"), "detect_troubled_cells"), orig(h, fvhoe("slope_limiting"), "broadcast_to_troubled_interfaces")
    E = fvhoe("solver", "EulerSolver")
    real = orig(h, E, "interpolate_primitives_from_conservatives")

    def rows(name, K):
        """scalar "one" is uniform: its fluxes are its value times the mass flux"""
        f = data(name, K)

        def fn(i):
            if i[0].op == "num" and i[0].args[0] >= 5 and K[i[0].args[0] - 5] == "one":
                return tm.mul(sn.to_t(cst), f(tm.ZERO, i[1:]))
            return f(i[0], i[1:])
        return fn

    def once(K):
        h.unstub()
        nv = 5 + len(K)
        det, bro, low = [], [], []

        def prims(self, *a, **k):
            b = bound(real, (self,) + a, k)
            u = sn.as_sym(b["u"]).copy()
            f = u.fn()
            g = [int(q) for q in b["gw"]]
            # a function of the gas of the given state (here: of the cell itself), per row
            def fn(i):
                c = tuple(tm.sub(q, tm.num(e)) for q, e in zip(i[1:], g))
                gas = tuple(f((tm.num(r),) + c) for r in range(5))
                if i[0].op != "num":
                    raise sn.Unsupported("symbolic row")
                v = i[0].args[0]
                return tm.app("w", (i[0],) + gas, "R") if v < 5 else tm.app("ws", gas + (f((i[0],) + c),), "R")
            return arr([nv] + [q + 2 * e for q, e in zip(n, g)], fn)

        h.stub_attr(E, "interpolate_primitives_from_conservatives", prims, hard=True)
        stub_method(h, "hydrofluxes", lambda self, b: (h.real("dtlow", 0), tuple(arr(face_shape(n, d, nv), rows("lo" + a, K)) if "xyz"[d] in dims else self.am(a) for d, a in enumerate("FGH"))), low)

        def detect(*a, **k):
            det.append(dict(bound(rd, a, k)))
            return arr(n, lambda i: tm.app("T", i, "B"), "b"), arr(n, lambda i: tm.app("NADmag", i, "R")), arr(n, lambda i: tm.app("PADmag", i, "R"))

        def broad(*a, **k):
            bro.append(dict(bound(rb, a, k)))
            return tuple(arr([1] + face_shape(n, d, 1)[1:], lambda i, a=a: tm.app("th" + a, i, "R") if a in dims else tm.ZERO) for d, a in enumerate("xyz"))

        h.stub("slope_limiting", "detect_troubled_cells", detect, hard=True)
        h.stub("slope_limiting", "broadcast_to_troubled_interfaces", broad, hard=True)
        s, u = solver(h, dims, p, n, nv, u=arr([nv] + n, lambda i: data("u", K)(i[0], i[1:])), domain=dom, names=K, a_posteriori_slope_limiting=True, convex=convex, SED=True, PAD={"rho": (0.0, 9.0)})
        for d, a in enumerate("FGH"):
            s.am(a)[...] = arr(face_shape(n, d, nv), rows("hi" + a, K))
        s.revise_fluxes(u=u, F=s.am("F"), G=s.am("G"), H=s.am("H"), dt=dt, t=t)
        res.append((s, det, bro, low))

    A, B = A + ("one",), ("one",) + B
    once(A)
    once(B)
    (sA, dA, bA, lA), (sB, dB, bB, lB) = res
    if len(dA) != 1 or len(dB) != 1 or len(bA) != len(bB):
        raise sn.Unsupported("detection evaluated %d, %d times" % (len(dA), len(dB)))
    for q in ("u", "u_candidate"):
        h.same_shape(q + " of the detection", dA[0][q], dB[0][q].shape)
        i = h.skolem(dA[0][q].shape[1:])
        h.rec("the detection sees the five gas variables", sn.as_sym(dA[0][q]).tshape[0] == tm.num(5))
        for v in range(5):
            h.prove_eq("%s of the detection, row %d" % (q, v), dA[0][q][(v,) + i], dB[0][q][(v,) + i])
    for q in ("dims", "NAD_eps", "mode", "range_type", "NAD_vars", "PAD_bounds", "SED", "SED_eps"):
        h.rec("detection: " + q, dA[0][q] == dB[0][q])
    for q in ("mean trouble", "mean NAD mag", "mean PAD mag"):
        h.forall("reported " + q, n, lambda i: h.eq(sA.am(q)[i], sB.am(q)[i]))
    for d, a in enumerate("FGH"):
        if "xyz"[d] in dims:
            agree(h, "final %s flux" % "xyz"[d], sA.am(a), sB.am(a), A, B, face_shape(n, d, 5)[1:])
            i = h.skolem(face_shape(n, d, 5)[1:])
            h.prove_eq("final %s flux of a uniform scalar" % "xyz"[d], sA.am(a)[(len(A) + 4,) + i], cst * sA.am(a)[(0,) + i])


# ------------------------------------------------------------------ rate of change
@ob("C19", "rate of change of gas and scalars", [SV + "f", SV + "hydrodynamics", SV + "euler_equation", SV + "hydrofluxes (contract)", SV + "revise_fluxes (contract)"],
    cases=[dict(dims=d, limit=l, A=SETS[(k + l) % 4][0], B=SETS[(k + l) % 4][1]) for k, d in enumerate(ALLD) for l in (False, True)], samples=0, abstract=True)
def rate(h, dims, limit, A, B):
    only_symbolic(h)
    n = sizes(h, dims)
    dom = domain(h)
    p = tuple((3, 2, 4)[d] if a in dims else 0 for d, a in enumerate("xyz"))
    t, dtv, cst = h.real("t"), h.real("dt", 0), h.real("cst")
    out = []
    A, B = A + ("one",), ("one",) + B

    def once(K):
        h.unstub()
        nv = 5 + len(K)

        def rows(name):
            f = data(name, K)
            return lambda i: tm.mul(sn.to_t(cst), f(tm.ZERO, i[1:])) if i[0].op == "num" and i[0].args[0] >= 5 and K[i[0].args[0] - 5] == "one" else f(i[0], i[1:])

        def revise(self, b):
            for d, a in enumerate("FGH"):
                if "xyz"[d] in dims:
                    self.am(a)[...] = arr(face_shape(n, d, nv), rows("rev" + a))

        calls, revs = [], []
        stub_method(h, "hydrofluxes", lambda self, b: (dtv, tuple(arr(face_shape(n, d, nv), rows("hi" + a)) if "xyz"[d] in dims else self.am(a) for d, a in enumerate("FGH"))), calls)
        stub_method(h, "revise_fluxes", revise, revs)
        s, u = solver(h, dims, p, n, nv, u=arr([nv] + n, lambda i: data("u", K)(i[0], i[1:])), domain=dom, names=K, a_posteriori_slope_limiting=limit)
        out.append(s.f(t, u))

    once(A)
    once(B)
    h.prove_eq("step size", out[0][0], out[1][0])
    h.same_shape("one rate per row", out[0][1], [5 + len(A)] + n)
    agree(h, "rate", out[0][1], out[1][1], A, B, n)
    i = h.skolem(n)
    h.prove_eq("the mass of a uniform scalar changes with the mass", out[0][1][(len(A) + 4,) + i], cst * out[0][1][(0,) + i])
