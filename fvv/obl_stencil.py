"""Contracts: polynomial exactness of conservative interpolation and transverse reconstruction (C04)."""
from fractions import Fraction as Fr

import numpy as np

from .core import ob, fvhoe
from . import symnp as sn

PMAX = 8
DELTA = {"l": -0.5, "c": 0.0, "r": 0.5}
HALF = lambda p: (p + 1) // 2


def X(j, off=0.0):
    """position of cell j (shifted by off cells) on an arbitrary fixed scale"""
    return (j + (off - 6)) * 0.25


def average(j, k):
    """average of x^k over cell j"""
    a, b = X(j, -0.5), X(j, 0.5)
    out = 0
    for m in range(k + 1):
        out = out + a ** m * b ** (k - m)
    return out / (k + 1)


def lines(h, ndim, axis, p, other=2):
    """symbolic shape; polynomial coefficients that differ from line to line"""
    n = [h.int("n%d" % d, 1, small=other) for d in range(ndim)]
    n[axis] = h.int("n%d" % axis, 2 * HALF(p) + 1, small=4)
    rest = [n[d] for d in range(ndim) if d != axis]
    a = h.array("a", [p + 1] + rest, gen=lambda r, s: r.normal(size=s))
    return n, rest, a


AX = [(4, 1), (4, 2), (4, 3)]


@ob("C04", "interpolation of averages is exact up to degree p", ["fvhoe.fv.conservative_interpolation", "fvhoe.fv.stencil_sweep",
    "fvhoe.stencils.get_conservative_interpolation_stencil_weights", "fvhoe.fv.get_symmetric_slices"],
    cases=[dict(p=p, pos=s, ndim=nd, axis=ax) for p in range(PMAX + 1) for s in "lcr" for nd, ax in (AX if p in (0, 1, 2, 3) else AX[p % 3:p % 3 + 1])]
    + [dict(p=2, pos=s, ndim=nd, axis=ax) for s in "lcr" for nd, ax in ((1, 0), (2, 0), (3, 1), (2, 1))],
    thorough=[dict(p=p, pos=s, ndim=nd, axis=ax) for p in range(4, PMAX + 1) for s in "lcr" for k, (nd, ax) in enumerate(AX) if k != p % 3], samples=2)
def interp(h, p, pos, ndim, axis):
    f = fvhoe("fv", "conservative_interpolation")
    n, rest, a = lines(h, ndim, axis, p)

    def poly(i, at):
        r = tuple(q for d, q in enumerate(i) if d != axis)
        return sum(a[(k,) + r] * at(i[axis], k) for k in range(p + 1))

    u = h.make(n, lambda i: poly(i, average))
    u0 = u.copy()
    out = f(u, p=p, axis=axis, pos=pos)
    s = HALF(p)
    m = list(n)
    m[axis] = n[axis] - 2 * s
    h.same_shape("only cells with a complete stencil", out, m)
    h.forall("exact point value", m, lambda i: h.eq(out[i], poly(i, lambda j, k: X(j + s, DELTA[pos]) ** k)))
    h.forall_eq("argument unchanged", u, u0)


@ob("C04", "reconstruction of averages is exact up to degree p", ["fvhoe.fv.transverse_reconstruction", "fvhoe.fv.stencil_sweep",
    "fvhoe.stencils.get_transverse_reconstruction_stencil_weights"],
    cases=[dict(p=p, ndim=nd, axis=ax) for p in range(PMAX + 1) for nd, ax in (AX if p < 4 else AX[p % 3:p % 3 + 1])]
    + [dict(p=2, ndim=nd, axis=ax) for nd, ax in ((1, 0), (2, 0), (3, 1), (2, 1))],
    thorough=[dict(p=p, ndim=nd, axis=ax) for p in range(4, PMAX + 1) for k, (nd, ax) in enumerate(AX) if k != p % 3], samples=2)
def recon(h, p, ndim, axis):
    f = fvhoe("fv", "transverse_reconstruction")
    n, rest, a = lines(h, ndim, axis, p)

    def poly(i, at):
        r = tuple(q for d, q in enumerate(i) if d != axis)
        return sum(a[(k,) + r] * at(i[axis], k) for k in range(p + 1))

    u = h.make(n, lambda i: poly(i, lambda j, k: X(j) ** k))
    u0 = u.copy()
    out = f(u, p=p, axis=axis)
    s = HALF(p)
    m = list(n)
    m[axis] = n[axis] - 2 * s
    h.same_shape("only cells with a complete stencil", out, m)
    h.forall("exact average", m, lambda i: h.eq(out[i], poly(i, lambda j, k: average(j + s, k))))
    h.forall_eq("argument unchanged", u, u0)


@ob("C04", "stencil acts on one line only and linearly", ["fvhoe.fv.stencil_sweep"],
    cases=[dict(p=p, pos=s, axis=ax) for p in (1, 2, 3, 5) for s in ("l", "c", "r", None) for ax in (1, 2, 3)])
def local(h, p, pos, axis):
    """arbitrary data: the value in a cell is a fixed combination of the cells of its own line and variable"""
    C, R = fvhoe("fv", "conservative_interpolation", "transverse_reconstruction")
    n = [h.int("n%d" % d, 1, small=2) for d in range(4)]
    n[axis] = h.int("n%d" % axis, 2 * HALF(p) + 1, small=4)
    u, v = h.array("u", n), h.array("v", n)
    op = (lambda a: R(a, p=p, axis=axis)) if pos is None else (lambda a: C(a, p=p, axis=axis, pos=pos))
    U, W, L = op(u), op(v), op(2 * u + v)
    i = h.skolem(U.shape)
    line = tuple(q if d == axis else slice(i[d], i[d] + 1) for d, q in enumerate([slice(None)] * 4))
    one = op(u[line])
    h.prove_eq("same value from the line alone", U[i], one[tuple(i[d] if d == axis else 0 for d in range(4))])
    w = tuple(slice(i[d], i[d] + 2 * HALF(p) + 1) if d == axis else slice(i[d], i[d] + 1) for d in range(4))
    two = op(u[w])
    h.prove_eq("same value from the stencil alone", U[i], two[0, 0, 0, 0])
    h.prove_eq("linear", L[i], 2 * U[i] + W[i])


@ob("C04", "stencil sizes", ["fvhoe.stencils.get_stencil_size"], samples=6)
def size(h):
    f = fvhoe("stencils", "get_stencil_size")
    p = h.int("p", 0, small=9)
    r, t = f(p), f(p, mode="total")
    h.prove("right half", h.and_(h.le(p, 2 * r), h.le(2 * r, p + 1)))
    h.prove_eq("total", t, 2 * r + 1)
    h.raises("unknown mode", ValueError, lambda: f(3, mode="left"))


@ob("C04", "unsupported requests are refused", ["fvhoe.fv.stencil_sweep", "fvhoe.stencils.*"], samples=1)
def refuse(h):
    C, sweep = fvhoe("fv", "conservative_interpolation", "stencil_sweep")
    u = h.array("u", [h.int("nv", 1, small=2), h.int("nx", 20, small=3), 1, 1])
    h.raises("degree 9", NotImplementedError, lambda: C(u, p=9, axis=1, pos="c"))
    h.raises("position", ValueError, lambda: C(u, p=1, axis=1, pos="x"))
    h.raises("mode", ValueError, lambda: sweep(u, mode="other", p=1, axis=1))


@ob("C04", "3D sweeps apply degree p[d] along direction d", ["fvhoe.fv.interpolate_cell_centers", "fvhoe.fv.interpolate_fv_averages"],
    cases=[dict(which=w, p=p) for w in ("centers", "averages") for p in ((0, 0, 0), (1, 2, 3), (3, 1, 2), (2, 3, 1), (4, 0, 2), (0, 5, 1))], samples=2)
def sweeps(h, which, p):
    f = fvhoe("fv", "interpolate_cell_centers" if which == "centers" else "interpolate_fv_averages")
    n = [h.int("nv", 1, small=2)] + [h.int("n%d" % d, 2 * HALF(p[d]) + 1, small=2) for d in range(3)]
    a = [h.array("a%d" % d, [p[d] + 1], gen=lambda r, s: r.normal(size=s)) for d in range(3)]
    c = h.array("c", [n[0]])
    avg = lambda d, j: sum(a[d][k] * average(j, k) for k in range(p[d] + 1))
    pt = lambda d, j: sum(a[d][k] * X(j) ** k for k in range(p[d] + 1))
    src, dst = (avg, pt) if which == "centers" else (pt, avg)
    u = h.make(n, lambda i: c[i[0]] * src(0, i[1]) * src(1, i[2]) * src(2, i[3]))
    u0 = u.copy()
    out = f(u, p=p)
    s = [HALF(q) for q in p]
    m = [n[0]] + [n[d + 1] - 2 * s[d] for d in range(3)]
    h.same_shape("shape", out, m)
    h.forall("exact tensor-product polynomial", m,
             lambda i: h.eq(out[i], c[i[0]] * dst(0, i[1] + s[0]) * dst(1, i[2] + s[1]) * dst(2, i[3] + s[2])))
    h.forall_eq("argument unchanged", u, u0)
