"""Contracts: slope-limited reconstruction (C16), troubled-cell detection (C17), fallback weights (C18)."""
import itertools

import numpy as np

from .core import ob, fvhoe
from . import symnp as sn

AXN = {"x": 1, "y": 2, "z": 3}
TINY = 1e-15  # guard against division by zero in the limiter


# ------------------------------------------------------------------ C16
def minmod(h, a, b):
    """the smaller of two slopes of one sign, else zero"""
    same = h.or_(h.and_(a > 0, b > 0), h.and_(a < 0, b < 0))
    return h.ite(same, h.ite(a > 0, h.min(a, b), h.max(a, b)), 0)


def moncen(h, a, b):
    same = h.or_(h.and_(a > 0, b > 0), h.and_(a < 0, b < 0))
    c = 0.5 * (a + b)
    return h.ite(same, h.ite(a > 0, h.min(c, h.min(2 * a, 2 * b)), h.max(c, h.max(2 * a, 2 * b))), 0)


SLOPE = {"minmod": minmod, "moncen": moncen, None: lambda h, a, b: 0.5 * (a + b)}


def near(h, a, b, scale):
    """equal up to the division guard (in units of the data)"""
    return h.le(h.abs(a - b) / scale, TINY / scale)


@ob(["C16", "C07"], "limited slope of two differences", ["fvhoe.slope_limiting.minmod", "fvhoe.slope_limiting.moncen"],
    cases=[dict(limiter=l, scale=s) for l in ("minmod", "moncen") for s in (1.0, 1e-9, 1e9)], samples=40)
def slopes(h, limiter, scale):
    f = fvhoe("slope_limiting", limiter)
    n = h.int("n", 1, small=4)
    gen = lambda r, s: scale * np.where(r.uniform(size=s) < 0.2, 0.0, r.choice([-2.0, -1.0, -0.3, 0.3, 1.0, 2.0], s) * r.uniform(0.2, 1.2, s))
    a, b = h.array("a", [n], gen=gen), h.array("b", [n], gen=gen)
    a0, b0 = a.copy(), b.copy()
    out = f(a, b)
    back = f(b, a)
    neg = f(-a, -b)
    h.same_shape("shape", out, [n])

    def post(i):
        x, y, o = a0[i], b0[i], out[i]
        return [near(h, o, SLOPE[limiter](h, x, y), scale),
                h.implies(h.not_(h.or_(h.and_(x > 0, y > 0), h.and_(x < 0, y < 0))), h.le(h.abs(o) / scale, TINY / scale)),
                h.implies(h.and_(x >= 0, y >= 0), h.le(-TINY / scale, o / scale)),
                h.implies(h.and_(x <= 0, y <= 0), h.le(o / scale, TINY / scale)),
                near(h, back[i], o, scale), near(h, neg[i], -o, scale)]

    h.forall("limited slope", [n], post)
    h.forall_eq("first argument unchanged", a, a0)
    h.forall_eq("second argument unchanged", b, b0)


@ob("C16", "limited faces of a line of cells", ["fvhoe.slope_limiting.MUSCL_interpolations", "fvhoe.fv.get_symmetric_slices", "fvhoe.slope_limiting.minmod", "fvhoe.slope_limiting.moncen"],
    cases=[dict(limiter=l, axis=a, scale=s) for l in ("minmod", "moncen", None) for a in (1, 2, 3) for s in ((1.0, 1e-9) if a == 1 else (1.0,))], samples=12)
def muscl(h, limiter, axis, scale):
    f = fvhoe("slope_limiting", "MUSCL_interpolations")
    n = [h.int("nv", 1, small=2)] + [h.int("n%d" % d, 3 if d == axis else 1, small=3) for d in (1, 2, 3)]
    gen = lambda r, s: scale * np.where(r.uniform(size=s) < 0.2, 1.0, r.normal(size=s))
    u = h.array("u", n, gen=gen)
    u0 = u.copy()
    l, r = f(u, axis, limiter)
    m = list(n)
    m[axis] = n[axis] - 2
    h.same_shape("lower faces of the cells with two neighbours", l, m)
    h.same_shape("upper faces of the cells with two neighbours", r, m)
    # mirror image of the data
    mi = lambda i, N: tuple(N - 1 - q if d == axis else q for d, q in enumerate(i))
    v = h.make(n, lambda i: u0[mi(i, n[axis])])
    ml, mr = f(v, axis, limiter)

    def post(i):
        at = lambda k: u0[tuple(q + k if d == axis else q for d, q in enumerate(i))]
        c, lo, hi = at(1), at(0), at(2)
        s = SLOPE[limiter](h, c - lo, hi - c)
        j = mi(i, m[axis])
        out = [near(h, l[i], c - 0.5 * s, scale), near(h, r[i], c + 0.5 * s, scale), h.eq((l[i] + r[i]) / scale, 2 * c / scale),
               near(h, ml[j], r[i], scale), near(h, mr[j], l[i], scale)]
        if limiter is not None:
            eps = TINY / scale
            out += [h.le(h.min(c, lo) / scale - eps, l[i] / scale), h.le(l[i] / scale, h.max(c, lo) / scale + eps),
                    h.le(h.min(c, hi) / scale - eps, r[i] / scale), h.le(r[i] / scale, h.max(c, hi) / scale + eps)]
        # linear data is reproduced
        out.append(h.implies(h.eq((hi - c) / scale, (c - lo) / scale, tol=1e-14),
                             h.and_(near(h, r[i], 0.5 * (c + hi), scale), near(h, l[i], 0.5 * (c + lo), scale))))
        return out

    h.forall("faces", m, post)
    h.forall_eq("argument unchanged", u, u0)


@ob("C16", "faces depend on one line of one variable only", ["fvhoe.slope_limiting.MUSCL_interpolations"],
    cases=[dict(limiter=l, axis=a) for l in ("minmod", "moncen") for a in (1, 2, 3)])
def muscl_local(h, limiter, axis):
    f = fvhoe("slope_limiting", "MUSCL_interpolations")
    n = [h.int("nv", 1, small=2)] + [h.int("n%d" % d, 3 if d == axis else 1, small=3) for d in (1, 2, 3)]
    u = h.array("u", n)
    l, r = f(u, axis, limiter)
    i = h.skolem(l.shape)
    a, b = f(u[tuple(slice(q, q + 3) if d == axis else slice(q, q + 1) for d, q in enumerate(i))], axis, limiter)
    h.prove_eq("lower face from the cell and its two neighbours", l[i], a[0, 0, 0, 0])
    h.prove_eq("upper face from the cell and its two neighbours", r[i], b[0, 0, 0, 0])
    h.raises("unknown limiter", ValueError, lambda: f(u, axis, "superbee"))


# ------------------------------------------------------------------ C17
def rough_1d(h, u, idx, d, eps):
    """the extremum detector along direction d (1..3) finds a non-smooth one next to cell idx"""

    def at(k):
        return u[tuple(q + k if e == d else q for e, q in enumerate(idx))]

    def slope(k):
        return 0.5 * (at(k + 1) - at(k - 1))

    def rough(k):
        s0, sm, sp = slope(k), slope(k - 1), slope(k + 1)
        dv = 0.25 * (sp - sm)
        vl, vr = sm - s0, sp - s0
        up = h.and_(dv > eps, h.or_(h.lt(-vl, dv), h.lt(vr, dv)))
        dn = h.and_(dv < -eps, h.or_(h.lt(vl, -dv), h.lt(-vr, -dv)))
        return h.or_(up, dn)

    return h.or_(*[rough(k) for k in (-1, 0, 1)])


def margin(h, *xs):
    """concrete runs: reject samples whose decision hangs on round-off"""
    if not h.sym:
        from .harness import Reject

        if any(abs(float(x)) < 1e-9 for x in xs):
            raise Reject()


def grid(h, dims, nv=5, lo=7):
    return [nv] + [h.int("n" + a, lo if a in dims else 1, small=(2 if len(dims) < 3 else 1) if a in dims else 1) for a in "xyz"]


DIMS = ("x", "y", "z", "xy", "yz", "xz", "xyz")


def abstract_alpha(h, u, dims, eps, flag=None):
    """contract of the detectors: below one exactly at non-smooth extrema"""
    n = u.shape
    sh = [n[0]] + [n[k] - 6 if a in dims else n[k] for k, a in ((1, "x"), (2, "y"), (3, "z"))]

    def val(i):
        idx = tuple(q + 3 if d and "xyz"[d - 1] in dims else q for d, q in enumerate(i))
        c = h.or_(*[rough_1d(h, u, idx, AXN[a], eps) for a in dims]) if flag is None else flag(idx)
        return h.ite(c, 0, 1)

    return h.make(sh, val)


@ob("C17", "smooth extremum detector", ["fvhoe.smooth_extrema_detection.compute_1d_smooth_extrema_detector", "fvhoe.smooth_extrema_detection.compute_2d_smooth_extrema_detector",
    "fvhoe.smooth_extrema_detection.compute_3d_smooth_extrema_detector", "fvhoe.fv.second_order_central_difference"], cases=[dict(dims=d) for d in DIMS], samples=6, budget=200, cost=3)
def detector(h, dims):
    n = grid(h, dims, nv=h.int("nv", 1, small=1))
    eps = h.real("eps", 0)
    u = h.array("u", n, gen=lambda r, s: r.normal(size=s) * r.choice([1e-1, 1.0, 3.0]))
    u0 = u.copy()
    m = "smooth_extrema_detection"
    if len(dims) > 1:
        h.stub(m, "compute_1d_smooth_extrema_detector", lambda u, dim, eps=1e-10: abstract_alpha(h, u, dim, eps))
    if len(dims) == 1:
        out = fvhoe(m, "compute_1d_smooth_extrema_detector")(u, dim=dims, eps=eps)
    elif len(dims) == 2:
        out = fvhoe(m, "compute_2d_smooth_extrema_detector")(u, dims=dims, eps=eps)
    else:
        out = fvhoe(m, "compute_3d_smooth_extrema_detector")(u, eps=eps)
    sh = [n[0]] + [n[k] - 6 if a in dims else n[k] for k, a in ((1, "x"), (2, "y"), (3, "z"))]
    h.same_shape("three cells fewer on each side", out, sh)

    def post(i):
        idx = tuple(q + 3 if d and "xyz"[d - 1] in dims else q for d, q in enumerate(i))
        want = h.or_(*[rough_1d(h, u0, idx, AXN[a], eps) for a in dims])
        return h.iff(h.lt(out[i], 1), want)

    h.forall("below one exactly at non-smooth extrema", sh, post)
    h.forall_eq("argument unchanged", u, u0)


VARS = ("rho", "vx", "vy", "vz", "P")


def c17_cases():
    out = []
    for k, dims in enumerate(DIMS):
        for mode, rng in itertools.product(("global", "local"), ("relative", "absolute")):
            for sed in ((True, False) if len(dims) < 3 else (mode == "local",)):
                q = (k + 2 * (mode == "local") + (rng == "absolute") + 3 * sed) % 4
                out.append(dict(dims=dims, mode=mode, rng=rng, sed=sed, vars=(None, ("rho",), ("vy", "P"), ("vx", "vz"))[q],
                                pad=(None, "both", "std", "lo")[(q + k) % 4]))
    return out


@ob("C17", "cells outside the admissible range are troubled, no others", ["fvhoe.slope_limiting.detect_troubled_cells", "fvhoe.smooth_extrema_detection.compute_1d_smooth_extrema_detector"],
    cases=c17_cases(), samples=4, budget=300, timeout=60, cost=6, paths=60)
def detect(h, dims, mode, rng, sed, vars, pad):
    f = fvhoe("slope_limiting", "detect_troubled_cells")
    n = grid(h, dims)
    gen = lambda r, s: 1.5 + r.choice([0.05, 0.3, 1.0]) * r.normal(size=s)
    w = h.array("w", n, gen=gen)
    c = h.array("c", n)if h.sym else None
    if not h.sym:
        c = w + h.rng.choice([1e-3, 0.1, 0.6]) * h.rng.normal(size=w.shape) * (h.rng.uniform(size=w.shape) < 0.5)
        h.record["c"] = c
    w0, c0 = w.copy(), c.copy()
    tol, eps = h.real("tol", 0, strict=False, scale=0.1), h.real("eps", 0, scale=0.05)
    rough = lambda idx: h.or_(*[rough_1d(h, c0, idx, AXN[a], eps) for a in dims])
    if h.sym and sed and h.use_stubs:
        # callee contract with the decision of each cell left abstract
        rough = lambda idx: h.uf("rough", *idx, sort="B")

        def called(u, dims_, eps_):
            h.rec("detector sees the active directions", "".join(sorted(dims_)) == "".join(sorted(dims)))
            h.forall_eq("detector sees the candidate values", u, c0)
            h.prove_eq("detector uses the given tolerance", eps_, eps)
            return abstract_alpha(h, u, dims, eps, flag=rough)

        m = "smooth_extrema_detection"
        h.stub(m, "compute_1d_smooth_extrema_detector", lambda u, dim, eps=1e-10: called(u, dim, eps))
        h.stub(m, "compute_2d_smooth_extrema_detector", lambda u, dims, eps=1e-10: called(u, dims, eps))
        h.stub(m, "compute_3d_smooth_extrema_detector", lambda u, eps=1e-10: called(u, "xyz", eps))
    PAD = None
    if pad == "std":
        PAD = {"rho": (0.0, np.inf), "P": (0.0, np.inf)}
    elif pad == "both":
        PAD = {"P": (h.real("lo"), h.real("hi", scale=3)), "vx": (h.real("lo2"), h.real("hi2", scale=3))}
    elif pad == "lo":
        PAD = {"rho": (h.real("lo"), np.inf), "vz": (-np.inf, h.real("hi", scale=3))}
    trouble, nad, pd = f(w, c, dims=dims, NAD_eps=tol, mode=mode, range_type=rng, NAD_vars=vars, PAD_bounds=PAD, SED=sed, SED_eps=eps)
    sh = [n[k] - 6 if a in dims else n[k] for k, a in ((1, "x"), (2, "y"), (3, "z"))]
    for nm, o in (("trouble", trouble), ("range violation", nad), ("bound violation", pd)):
        h.same_shape("one value per interior cell: " + nm, o, sh)
    if mode == "global":
        gmax, gmin = np.max(w0, axis=(1, 2, 3)), np.min(w0, axis=(1, 2, 3))
    i = h.skolem(sh)
    idx = tuple(q + 3 if "xyz"[d] in dims else q for d, q in enumerate(i))
    bad, exc = [], None
    for v in range(5):
        x = c0[(v,) + idx]
        nb = [w0[(v,) + tuple(a + b for a, b in zip(idx, off))] for off in itertools.product(*[(-1, 0, 1) if a in dims else (0,) for a in "xyz"])]
        mx, mn = h.max(*nb), h.min(*nb)
        if rng == "relative":
            span = (gmax[v] - gmin[v]) if mode == "global" else mx - mn
            out = h.or_(h.lt(x - mn, -tol * span), h.lt(mx - x, -tol * span))
            excess = h.max(mn - x, x - mx)
            margin(h, x - mn + tol * span, mx - x + tol * span)
        else:
            if mode == "global":
                mx, mn = gmax[v], gmin[v]
            lo, hi = (1 - tol) * mn, (1 + tol) * mx
            out = h.or_(h.lt(x, lo), h.lt(hi, x))
            excess = h.max(lo - x, x - hi)
            margin(h, lo - x, hi - x)
        exc = excess if exc is None else h.max(exc, excess)
        if vars is not None and VARS[v] not in vars:
            continue
        if sed:
            out = h.and_(out, rough((v,) + idx))
        bad.append(out)
    isbad = h.or_(*bad)
    viol = 0
    for name, (lo, hi) in (PAD or {}).items():
        x = c0[(VARS.index(name),) + idx]
        for q, inf in ((lo - x, lo == -np.inf), (x - hi, hi == np.inf)) if not h.sym else ():
            if not inf:
                margin(h, q)
                viol = h.max(viol, q)
        if h.sym:
            if not (isinstance(lo, float) and lo == -np.inf):
                viol = h.max(viol, lo - x)
            if not (isinstance(hi, float) and hi == np.inf):
                viol = h.max(viol, x - hi)
    h.prove_eq("troubled", trouble[i], h.ite(h.or_(isbad, viol > 0), 1, 0))
    h.prove_eq("range violation magnitude", nad[i], h.ite(isbad, exc, 0))
    h.prove_eq("bound violation magnitude", pd[i], viol)
    h.forall_eq("old values unchanged", w, w0)
    h.forall_eq("candidate values unchanged", c, c0)


@ob("C17", "unknown options are refused", ["fvhoe.slope_limiting.detect_troubled_cells"], samples=1)
def detect_refuse(h):
    f = fvhoe("slope_limiting", "detect_troubled_cells")
    u = h.array("u", [5, h.int("n", 7, small=2), 1, 1])
    h.raises("mode", ValueError, lambda: f(u, u, dims="x", mode="other"))
    h.raises("mode (absolute)", ValueError, lambda: f(u, u, dims="x", mode="other", range_type="absolute"))
    h.raises("range", ValueError, lambda: f(u, u, dims="x", range_type="other"))


# ------------------------------------------------------------------ C18
def ring(off):
    """weight of a cell seen from a troubled one at this offset (1D and 2D)"""
    a = sorted(map(abs, off))
    return 1 if a[-1] == 0 else 0.75 if sum(a) == 1 else 0.5 if a[-1] == 1 else 0.25


def bits(h, name, shape):
    return h.array(name, shape, pred=lambda i, v: h.or_(h.eq(v, 0), h.eq(v, 1)), gen=lambda r, s: (r.uniform(size=s) < r.choice([0.05, 0.2, 0.5])).astype(float))


def cell_weight(h, get, idx):
    return h.max(*[ring(off) * get(tuple(i + o for i, o in zip(idx, off))) for off in itertools.product(range(-2, 3), repeat=len(idx))])


@ob("C18", "convex weights in one dimension", ["fvhoe.slope_limiting.convex_1d_broadcast_to_troubled_interfaces"], samples=10, timeout=60, cost=3)
def convex1(h):
    f = fvhoe("slope_limiting", "convex_1d_broadcast_to_troubled_interfaces")
    n = h.int("n", 1, small=9)
    t = bits(h, "t", [n + 4])
    t0 = t.copy()
    out = f(t)
    h.same_shape("one weight per face", out, [n + 1])
    zero = lambda i: t0[i] if h.case(h.and_(i[0] >= 0, i[0] < n + 4)) else 0
    h.forall("larger of the weights of the two cells", [n + 1], lambda i: h.eq(out[i], h.max(cell_weight(h, zero, (i[0] + 1,)), cell_weight(h, zero, (i[0] + 2,)))))
    h.forall_eq("argument unchanged", t, t0)


@ob("C18", "convex weights in two dimensions", ["fvhoe.slope_limiting.convex_2d_broadcast_to_troubled_interfaces"], cases=[dict(d=0), dict(d=1)], samples=10, timeout=60, cost=6, budget=300)
def convex2(h, d):
    f = fvhoe("slope_limiting", "convex_2d_broadcast_to_troubled_interfaces")
    n = [h.int("n", 1, small=6), h.int("m", 1, small=6)]
    t = bits(h, "t", [n[0] + 4, n[1] + 4])
    t0 = t.copy()
    out = f(t)[d]
    sh = [n[e] + (1 if e == d else 0) for e in range(2)]
    h.same_shape("one weight per face", out, sh)
    zero = lambda i: t0[i] if h.case(h.and_(i[d] >= 0, i[d] < n[d] + 4)) else 0
    up = lambda i: tuple(q + 2 for q in i)
    dn = lambda i: tuple(q + (1 if e == d else 2) for e, q in enumerate(i))
    h.forall("larger of the weights of the two cells", sh, lambda i: h.eq(out[i], h.max(cell_weight(h, zero, dn(i)), cell_weight(h, zero, up(i)))))
    h.forall_eq("argument unchanged", t, t0)


def c18_cases():
    out = []
    for k, dims in enumerate(DIMS):
        for convex in (False, True):
            if convex and len(dims) == 3:
                continue
            for per in itertools.product((False, True), repeat=len(dims)):
                out.append(dict(dims=dims, convex=convex, per="".join("01"[b] for b in per)))
    return out


def stub_convex(h):
    """contracts of the convex weights proved above"""
    def c1(tr):
        tr = sn.as_sym(tr)
        return h.make([tr.shape[0] - 3], lambda i: h.max(*[cell_weight(h, guard(tr), (i[0] + k,)) for k in (1, 2)]))

    def c2(tr):
        tr = sn.as_sym(tr)
        N, M = tr.shape
        return (h.make([N - 3, M - 4], lambda i: h.max(*[cell_weight(h, guard(tr), (i[0] + k, i[1] + 2)) for k in (1, 2)])),
                h.make([N - 4, M - 3], lambda i: h.max(*[cell_weight(h, guard(tr), (i[0] + 2, i[1] + k)) for k in (1, 2)])))

    def guard(tr):
        def get(i):
            ok = h.and_(*[h.and_(q >= 0, q < s) for q, s in zip(i, tr.shape)])
            d = h.ctx.decide(sn.to_t(ok))
            if d is True:
                return tr[i]
            return h.ite(ok, sn.S(tr.at(tuple(sn.to_t(q) for q in i))), 0)
        return get

    h.stub("slope_limiting", "convex_1d_broadcast_to_troubled_interfaces", c1)
    h.stub("slope_limiting", "convex_2d_broadcast_to_troubled_interfaces", c2)


@ob("C18", "weights of the faces", ["fvhoe.slope_limiting.broadcast_to_troubled_interfaces", "fvhoe.slope_limiting.convex_1d_broadcast_to_troubled_interfaces (contract)",
    "fvhoe.slope_limiting.convex_2d_broadcast_to_troubled_interfaces (contract)"], cases=c18_cases(), samples=6, timeout=60, budget=300, cost=5, paths=400)
def faces(h, dims, convex, per):
    f = fvhoe("slope_limiting", "broadcast_to_troubled_interfaces")
    act = [a in dims for a in "xyz"]
    P = {a: b == "1" for a, b in zip(dims, per)}
    n = [h.int("n" + a, 3, small=5 if len(dims) < 3 else 2) if act[k] else 1 for k, a in enumerate("xyz")]
    t = bits(h, "t", n)
    t0 = t.copy()
    if h.sym and convex:
        stub_convex(h)
    out = f(t, dims=dims, convex=convex, **{"periodic_" + a: P.get(a, k % 2 == 0) for k, a in enumerate("xyz")})

    def cell(idx):
        """value of a cell, wrapped in periodic directions, zero outside otherwise"""
        q, ok = [], []
        for d, a in enumerate("xyz"):
            i = idx[d]
            if not act[d]:
                q.append(0)
                continue
            if P[a]:
                i = h.ite(i < 0, i + n[d], h.ite(i >= n[d], i - n[d], i))
            else:
                ok.append(h.and_(i >= 0, i < n[d]))
            q.append(i)
        if not h.sym:
            return t0[tuple(q)] if all(ok) else 0.0
        v = sn.S(t0.at(tuple(sn.to_t(x) for x in q)))
        return h.ite(h.and_(*ok), v, 0) if ok else v

    ax = [k for k in range(3) if act[k]]

    def weight(idx):
        if not convex:
            return cell(idx)
        def get(j):
            full = list(idx)
            for k, q in zip(ax, j):
                full[k] = q
            return cell(tuple(full))
        return cell_weight(h, get, tuple(idx[k] for k in ax))

    for d, a in enumerate("xyz"):
        sh = [1] + [n[e] + (1 if e == d else 0) for e in range(3)]
        h.same_shape("one weight per %s face" % a, out[d], sh)
        if not act[d]:
            h.forall("no limiting along " + a, sh, lambda i, d=d: h.eq(out[d][i], 0))
            continue
        low = lambda i, k=1: tuple(q - (k if e == d else 0) for e, q in enumerate(i))
        def post(i, d=d, a=a):
            j = i[1:]
            if P[a] and h.sym:
                # the first and the last face are one
                if h.case(h.or_(h.eq(j[d], 0), h.eq(j[d], n[d]))):
                    e0 = tuple(0 if e == d else q for e, q in enumerate(j))
                    e1 = tuple(n[d] - 1 if e == d else q for e, q in enumerate(j))
                    return h.eq(out[d][i], h.max(weight(e0), weight(e1)))
            elif P[a] and j[d] in (0, n[d]):
                e0 = tuple(0 if e == d else q for e, q in enumerate(j))
                e1 = tuple(n[d] - 1 if e == d else q for e, q in enumerate(j))
                return h.eq(out[d][i], h.max(weight(e0), weight(e1)))
            if h.case(h.eq(j[d], 0)):
                return h.eq(out[d][i], outer(j, d, -1))
            if h.case(h.eq(j[d], n[d])):
                return h.eq(out[d][i], outer(low(j), d, 0))
            return h.eq(out[d][i], h.max(weight(j), weight(low(j))))
        def outer(inner, d, k):
            """a face of the domain edge: the cell inside and, with blending, the weight it induces outside"""
            if not convex:
                return weight(inner)
            out_ = tuple(q + (-1 if k else 1) if e == d else q for e, q in enumerate(inner))
            return h.max(weight(inner), weight(out_))
        h.forall("weight of each %s face" % a, sh, post)
    h.forall_eq("argument unchanged", t, t0)


@ob("C18", "three-dimensional blending is refused", ["fvhoe.slope_limiting.broadcast_to_troubled_interfaces"], samples=1)
def convex3(h):
    f = fvhoe("slope_limiting", "broadcast_to_troubled_interfaces")
    t = bits(h, "t", [h.int("n" + a, 3, small=2) for a in "xyz"])
    h.raises("refused", NotImplementedError, lambda: f(t, dims="xyz", convex=True))
