"""Contracts: ghost zones (C11) and prescribed boundaries (C12)."""
import numpy as np

from .core import ob, fvhoe
from . import symnp as sn, terms as tm

ROW = {"x": 1, "y": 2, "z": 3}


def coords(h, i, gw, n, dom):
    """centre of the cell with padded index i along one direction (lower edge, cell width)"""
    lo, w = dom
    return lo + w * (i - gw + 0.5)


def slabs(h, n, B, dom):
    """slab coordinates as the mesh contract (C21) provides them: centres of the cells outside each side"""
    out = {}
    for d, a in enumerate("xyz"):
        for s in "lr":
            shape = [B[e] if e == d else n[e] + 2 * B[e] for e in range(3)]
            off = [(0 if s == "l" else B[e] + n[e]) if e == d else 0 for e in range(3)]
            out[a + s] = tuple(h.make(shape, lambda i, e=e, off=off: coords(h, i[e] + off[e], B[e], n[e], dom[e])) for e in range(3))
    return out


class Data:
    """a prescribed state g(v, x, y, z[, t]); uninterpreted in the symbolic run"""

    def __init__(self, h, name, nv, time=True):
        self.h, self.name, self.nv, self.time = h, name, nv, time
        self.calls = []
        if not h.sym:
            self.c = h.rng.normal(size=(nv, 6))

    def value(self, v, x, y, z, t=None):
        h = self.h
        a = (x, y, z) + ((t,) if self.time else ())
        if h.sym:
            return h.uf(self.name, v, *a)
        c = self.c[int(v)]
        return c[5] + np.sin(c[4] + sum(k * q for k, q in zip(c, a)))

    def arr(self, x, y, z, t=None):
        h = self.h
        if h.sym:
            x, y, z = sn.as_sym(x), sn.as_sym(y), sn.as_sym(z)
            fx, fy, fz = x.fn(), y.fn(), z.fn()
            tt = (sn.to_t(t),) if self.time else ()
            h.same_shape("coordinate arrays agree", x, y.shape)
            h.same_shape("coordinate arrays agree", x, z.shape)
            fn = lambda i: tm.app(self.name, (i[0], fx(i[1:]), fy(i[1:]), fz(i[1:])) + tt, "R")
            return sn.SymArray.new((tm.num(self.nv),) + tuple(x.tshape), fn, "f")
        a = (x, y, z) + ((t,) if self.time else ())
        return np.stack([np.broadcast_to(c[5] + np.sin(c[4] + sum(k * q for k, q in zip(c, a))), x.shape) for c in self.c])

    def func(self):
        if self.time:
            return lambda x, y, z, t: self.arr(x, y, z, t)
        return lambda x, y, z: self.arr(x, y, z)


def setting(h, types, nv, gmax=None):
    n = [h.int("n" + d, 1, small=5) for d in "xyz"]
    gw = [h.int("g" + d, 0, small=3 if not h.sym else None) for d in "xyz"]
    for d in range(3):
        if any(t in ("periodic", "outflow", "reflective", "special-case-double-mach-reflection-y=0") for t in types[d]):
            h.assume(h.le(gw[d], n[d]) if h.sym else gw[d] <= n[d])
    return n, gw


def resolve(h, types, vals, u, gw, n, dom, t, v, i):
    """what a padded cell must hold: z rule, then y rule, then x rule (the order of application)"""
    idx = list(i)
    sign = 1
    for d in (2, 1, 0):
        q = idx[d]
        if h.case(q < gw[d]):
            side = 0
        elif h.case(q >= gw[d] + n[d]):
            side = 1
        else:
            continue
        ty = types[d][side]
        if ty == "special-case-double-mach-reflection-y=0":
            x = coords(h, idx[0], gw[0], n[0], dom[0])
            ty = "free" if h.case(x < 1 / 6) else "reflective"
        if ty == "periodic":
            idx[d] = q + n[d] if side == 0 else q - n[d]
        elif ty == "free":
            idx[d] = gw[d] if side == 0 else gw[d] + n[d] - 1
        elif ty in ("outflow", "reflective"):
            idx[d] = 2 * gw[d] - 1 - q if side == 0 else 2 * (gw[d] + n[d]) - 1 - q
            if ty == "reflective" and v == 1 + d:
                sign = -sign
        else:
            g = vals[d][side]
            if isinstance(g, Data):
                xyz = [coords(h, idx[e], gw[e], n[e], dom[e]) for e in range(3)]
                return sign * g.value(v, *xyz, t)
            return sign * g[v]
    return sign * u[(v,) + tuple(idx[d] - gw[d] for d in range(3))]


def check(h, types, nv=5, values=None, B=None, who="apply"):
    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    hs = fvhoe("hydro", "HydroState")(passive_scalars=tuple("s%d" % k for k in range(nv - 5)))
    n, gw = setting(h, types, nv)
    u = h.array("u", [nv] + n)
    u0 = u.copy()
    kw, dom, vals, t = {}, None, [[None, None] for _ in range(3)], h.real("t")
    if values or B is not None:
        dom = []
        for d in "xyz":
            lo = h.real(d + "0")
            dom.append((lo, h.real("h" + d, 0)))
        if B is None:
            B = [h.int("B" + d, 1, small=4) for d in "xyz"]
        for d in range(3):
            h.assume(h.le(gw[d], B[d]) if h.sym else gw[d] <= B[d])
        kw["slab_coords"] = slabs(h, n, B, dom)
        for (d, s), k in (values or {}).items():
            if k == "const":
                vals[d][s] = h.array("c%d%d" % (d, s), [nv])
            else:
                vals[d][s] = Data(h, "g%d%d" % (d, s), nv, time=(k == "func"))
        give = lambda g: g.func() if isinstance(g, Data) else g
        for d, a in enumerate("xyz"):
            kw[a + "_value"] = (give(vals[d][0]), give(vals[d][1]))
    bc = BC(x=tuple(types[0]), y=tuple(types[1]), z=tuple(types[2]), hydro_state=hs, **kw)
    for r in range(2):  # a second application must give the same result (no leftover state)
        out = bc.apply(u, gw=tuple(gw), t=t)
        h.same_shape("padded shape", out, [nv] + [n[d] + 2 * gw[d] for d in range(3)])
        if not h.sym:
            break
    i = h.skolem(tuple(out.shape)[1:]) if h.sym else None
    if h.sym:
        cells = [i]
    else:
        import itertools
        cells = list(np.ndindex(*out.shape[1:]))
        if len(cells) > 250:
            cells = [cells[k] for k in h.rng.choice(len(cells), 250, replace=False)]
    for c in cells:
        for v in range(nv):
            want = resolve(h, types, vals, u0, gw, n, dom, t, v, c)
            h.prove_eq("row %d" % v, out[(v,) + c], want)
    h.forall_eq("state unchanged", u, u0)


P, F, O, R, D = "periodic", "free", "outflow", "reflective", "dirichlet"
COMBOS = [
    ((P, P), (P, P), (P, P)), ((F, F), (F, F), (F, F)), ((O, O), (O, O), (O, O)), ((R, R), (R, R), (R, R)),
    ((F, O), (R, F), (O, R)), ((R, F), (O, R), (F, O)), ((O, R), (F, O), (R, F)),
    ((P, P), (R, R), (F, O)), ((F, R), (P, P), (O, O)), ((R, O), (F, F), (P, P)),
    ((P, P), (P, P), (R, O)), ((P, P), (O, F), (P, P)),
]


def names(c):
    return dict(x="/".join(c[0]), y="/".join(c[1]), z="/".join(c[2]))


def types_of(x, y, z):
    return [tuple(a.split("/")) for a in (x, y, z)]


@ob("C11", "ghost cells of unprescribed sides", ["fvhoe.boundary_conditions.BoundaryCondition.apply", "fvhoe.boundary_conditions._set_periodic_bc",
    "fvhoe.boundary_conditions._set_free_bc", "fvhoe.boundary_conditions._set_symmetric_bc"],
    cases=[dict(names(c), nv=5 + k % 2) for k, c in enumerate(COMBOS)], paths=3000, budget=200, samples=8, cost=3)
def c11(h, x, y, z, nv):
    check(h, types_of(x, y, z), nv)


@ob("C11", "inactive or missing types leave no partial padding", ["fvhoe.boundary_conditions.BoundaryCondition.apply"], samples=3)
def c11_single(h):
    """one type given for both sides; unknown types are refused"""
    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    n = h.int("n", 2, small=4)
    u = h.array("u", [5, n, 1, 1])
    a = BC(x="free", y="periodic", z="periodic").apply(u, gw=(2, 0, 0))
    b = BC(x=("free", "free"), y="periodic", z="periodic").apply(u, gw=(2, 0, 0))
    h.forall_eq("single type means both sides", a, b)
    h.raises("unknown type", ValueError, lambda: BC(x="nonsense").apply(u, gw=(1, 0, 0)))
    h.raises("three types", ValueError, lambda: BC(x=("free", "free", "free")))
    h.raises("list", ValueError, lambda: BC(x=["free", "free"]))


@ob("C11", "too wide ghost zones are refused", ["fvhoe.boundary_conditions.BoundaryCondition.apply"],
    cases=[dict(ty=t, dim=d, side=s) for t in (P, O, R) for d in range(3) for s in (0, 1) if not (t == P and s)], samples=4)
def c11_wide(h, ty, dim, side):
    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    n = [h.int("n" + d, 1, small=3) for d in "xyz"]
    gw = [0, 0, 0]
    gw[dim] = n[dim] + h.int("more", 1, small=3)
    u = h.array("u", [5] + n)
    pair = (ty, ty) if ty == P else ((ty, F) if side == 0 else (F, ty))
    kw = {d: "free" for d in "xyz"}
    kw["xyz"[dim]] = pair
    bc = BC(**kw)
    h.raises("refused", ValueError, lambda: bc.apply(u, gw=tuple(gw)))


C12 = [
    (((D, D), (P, P), (P, P)), {(0, 0): "const", (0, 1): "const"}),
    (((P, P), (D, D), (P, P)), {(1, 0): "const", (1, 1): "func"}),
    (((P, P), (P, P), (D, D)), {(2, 0): "func", (2, 1): "const"}),
    (((D, D), (D, D), (D, D)), {(d, s): "func" for d in range(3) for s in (0, 1)}),
    (((D, F), (R, D), (O, D)), {(0, 0): "func", (1, 1): "func", (2, 1): "func"}),
    (((F, D), (D, R), (D, O)), {(0, 1): "func", (1, 0): "const", (2, 0): "func"}),
    ((("ic", "ic"), (F, "ic"), ("ic", F)), {(0, 0): "ic", (0, 1): "ic", (1, 1): "ic", (2, 0): "ic"}),
    ((("ic", D), ("ic", P.replace("periodic", "free")), (F, "ic")), {(0, 0): "ic", (0, 1): "func", (1, 0): "ic", (2, 1): "ic"}),
    (((D, D), (D, D), (R, F)), {(0, 0): "const", (0, 1): "func", (1, 0): "func", (1, 1): "const"}),
]


@ob("C12", "ghost cells of prescribed sides", ["fvhoe.boundary_conditions.BoundaryCondition.apply", "fvhoe.boundary_conditions.BoundaryCondition.trim_slabs",
    "fvhoe.boundary_conditions._set_dirichlet_bc", "fvhoe.fv.fv_uniform_meshgen"],
    cases=[dict(k=k) for k in range(len(C12))], paths=3000, budget=300, samples=8, cost=5)
def c12(h, k):
    types, values = C12[k]
    check(h, types, 5 + k % 2, values)


@ob("C12", "double Mach bottom boundary", ["fvhoe.boundary_conditions.BoundaryCondition.apply"], cases=[dict(k=k) for k in (0, 1)],
    paths=3000, budget=300, samples=8, cost=4)
def c12_dmr(h, k):
    DM = "special-case-double-mach-reflection-y=0"
    check(h, [((F, F), (DM, F), (P, P)), ((D, O), (DM, D), (F, F))][k], 5 + k, [{}, {(0, 0): "func", (1, 1): "func"}][k],
          B=[h.int("B" + d, 1, small=4) for d in "xyz"])


@ob("C12", "requests wider than the stored coordinates are refused", ["fvhoe.boundary_conditions.BoundaryCondition.trim_slabs"],
    cases=[dict(dim=d, side=s) for d in range(3) for s in (0, 1)], samples=3)
def c12_wide(h, dim, side):
    BC, mesh = fvhoe("boundary_conditions", "BoundaryCondition"), fvhoe("fv", "fv_uniform_meshgen")
    n = [h.int("n" + d, 1, small=3) for d in "xyz"]
    B = [h.int("B" + d, 1, small=3) for d in "xyz"]
    gw = [0, 0, 0]
    gw[dim] = B[dim] + h.int("more", 1, small=3)
    _, sl = mesh(tuple(n), slab_thickness=tuple(B))
    u = h.array("u", [5] + n)
    c = h.array("c", [5])
    kw = {d: "free" for d in "xyz"}
    kw["xyz"[dim]] = (D, F) if side == 0 else (F, D)
    kw["xyz"[dim] + "_value"] = (c, None) if side == 0 else (None, c)
    bc = BC(slab_coords=sl, **kw)
    h.raises("refused", ValueError, lambda: bc.apply(u, gw=tuple(gw), t=0.0))
