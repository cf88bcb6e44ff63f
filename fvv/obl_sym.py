"""Contracts: symmetries (C06 axis permutations, C07 mirror images, C23 shifts).

Relational contracts: each function runs twice, on a problem A and on its image B.  Related arguments must
give related results.  Callees are replaced by arbitrary functions that obey their own relational contract
(proved here on the real callee), so that the symmetry of the whole right-hand side follows by composition:
  BoundaryCondition.apply -> primitives -> face fluxes -> detection, weights, revision -> rate of change.
"""
import itertools

import numpy as np

from .core import ob, fvhoe
from . import sim, symnp as sn, terms as tm
from . import obl_solver as sv, obl_limit as ol, obl_hydro as oh
from .obl_solver import SV, S, D, arr, bound, orig, only_symbolic, uf_w, uf_r, reduce_mod, face_shape, ALLD, solver, call_fluxes, stub_method

PERMS = ((1, 0, 2), (2, 1, 0), (0, 2, 1), (1, 2, 0), (2, 0, 1))
TAG = {"perm": "C06", "mirror": "C07", "shift": "C23"}


def w_(x):
    return x if isinstance(x, (S, int, np.integer)) else S(x)


class Tr:
    """image B of a problem A: axis d of B is axis ax[d] of A, then mirrored or shifted along axis m"""

    def __init__(self, h, kind, n, perm=(0, 1, 2), m=None, s=None):
        self.h, self.kind, self.n, self.ax, self.m, self.s = h, kind, n, tuple(perm), m, s
        self.nB = [n[perm[d]] for d in range(3)]

    def per_axis(self, x):
        """per-direction data of A as B sees it"""
        return type(x)(x[self.ax[d]] for d in range(3)) if isinstance(x, (tuple, list)) else x

    def dims(self, dims):
        return "".join(a for d, a in enumerate("xyz") if "xyz"[self.ax[d]] in dims)

    def place(self, c, one):
        out = [None] * 3
        for d in range(3):
            q = w_(c[d])
            out[self.ax[d]] = one(self.ax[d], q)
        return tuple(out)

    def cell(self, c, size=None):
        """cell of A shown by cell c of B; size: extent of A's array"""
        n = size or self.n
        if self.kind == "mirror":
            return self.place(c, lambda a, q: n[a] - 1 - q if a == self.m else q)
        if self.kind == "shift":
            return self.place(c, lambda a, q: q + self.s if a == self.m else q)
        return self.place(c, lambda a, q: q)

    def face(self, d, j):
        """face of A shown by face j of B in B's direction d"""
        if self.kind == "mirror" and self.ax[d] == self.m:
            return self.place(j, lambda a, q: self.n[a] - q if a == self.m else q)
        return self.cell(j)

    def row(self, v):
        """variable of A behind variable v of B, with its sign"""
        v = int(v)
        a = 1 + self.ax[v - 1] if 1 <= v <= 3 else v
        return (-1 if self.kind == "mirror" and a == 1 + self.m else 1), a

    def fsign(self, d, v):
        s, a = self.row(v)
        return (-s if self.kind == "mirror" and self.ax[d] == self.m else s), a

    def wrapped(self, c, last=0):
        """an index of A within range: whole periods taken off (case distinction)"""
        if self.kind != "shift":
            return c
        out = list(c)
        q = out[self.m]
        lim = self.n[self.m] + last
        if not self.h.case(q < lim):
            out[self.m] = q - self.n[self.m]
        return tuple(out)

    def periods(self, goal):
        """the data of a periodic problem repeats: instances for the cells a goal mentions"""
        out, N = [], sn.to_t(self.n[self.m])
        for t in tm.atoms(goal, lambda s: s.op == "app" and s.args[0] in self.data):
            k = len(t.args) - 3 + self.m
            for e in (N, tm.neg(N)):
                q = tm.app(t.args[0], t.args[1:k] + (tm.add(t.args[k], e),) + t.args[k + 1:], t.sort)
                out.append(tm.eq(tm.tonum(t), tm.tonum(q)) if t.sort == "B" else tm.eq(t, q))
        return out

    data = ("t", "w", "c", "u", "rough")

    def points(self, p):
        """cells worth comparing with p (instances of quantified facts), for arrays of A or B"""
        n = len(p)
        actA = [d for d in range(3) if not isinstance(self.n[d], int)]
        actB = [d for d in range(3) if not isinstance(self.nB[d], int)]
        if n < 3:
            if n != len(actA):
                return []
            out = []
            for act in {tuple(actA), tuple(actB)}:
                full = [tm.ZERO] * 3
                for d, q in zip(act, p):
                    full[d] = q
                for r in self.points(tuple(full)):
                    for to in {tuple(actA), tuple(actB)}:
                        out.append(tuple(r[d] for d in to))
            return out
        lead, c = p[:n - 3], p[n - 3:]
        out = []
        if self.kind == "perm":
            inv = [self.ax.index(a) for a in range(3)]
            out.append(lead + tuple(c[inv[a]] for a in range(3)))
            out.append(lead + tuple(c[self.ax[d]] for d in range(3)))
        elif self.kind == "mirror":
            m = self.m
            tot = sn.to_t(self.size[m])
            out.append(lead + tuple(tm.sub(tm.sub(tot, tm.num(1)), q) if a == m else q for a, q in enumerate(c)))
        else:
            m, s, N = self.m, sn.to_t(self.s), sn.to_t(self.n[self.m])
            for k in (s, tm.sub(s, N), tm.neg(s), tm.sub(N, s)):
                out.append(lead + tuple(tm.add(q, k) if a == m else q for a, q in enumerate(c)))
        return out

    size = None


def signed(s, t):
    return t if s == 1 else (tm.neg(t) if isinstance(t, tm.T) else -t)


def image(h, kind, n, perm=(0, 1, 2), m=None, size=None):
    s = None
    if kind == "shift":
        s = h.int("shift", 0, small=3)
        h.assume(s < n[m])
    tr = Tr(h, kind, n, perm, m, s)
    tr.size = size or n
    if h.sym:
        h.point_map = tr.points
        if kind == "shift":
            h.axioms = tr.periods
    return tr


def pair(h, tr, name, nv, g, gen=None, pred=None):
    """cell data of A and its image, with g ghost cells (of A) on each side"""
    n, size = tr.n, [q + 2 * e for q, e in zip(tr.n, g)]
    gB = tr.per_axis(list(g))
    shB = [nv] + tr.per_axis(size)
    if tr.kind == "shift":
        if h.sym:
            core = lambda v, c: S(tm.app(name, (sn.to_t(v),) + reduce_mod(tuple(sn.to_t(q) for q in c), n), "R"))
        else:
            base = h.array(name, [nv] + list(n), gen=gen, pred=pred)
            core = lambda v, c: base[(v,) + tuple(q % k for q, k in zip(c, n))]
        A = h.make([nv] + size, lambda i: core(i[0], [q - e for q, e in zip(i[1:], g)]))
        B = h.make(shB, lambda i: core(i[0], [q - e for q, e in zip(tr.cell(i[1:]), g)]))
        if h.sym and pred is not None:
            raise NotImplementedError
        return A, B
    A = h.array(name, [nv] + size, gen=gen, pred=pred)

    def at(i):
        if not h.sym or not isinstance(i[0], S) or i[0].t.op == "num":
            s, v = tr.row(i[0] if not isinstance(i[0], S) else i[0].t.args[0])
            return s * A[(v,) + tr.cell(i[1:], size)] if not h.sym else S(signed(s, A.at((tm.num(v),) + tuple(sn.to_t(q) for q in tr.cell(i[1:], size)))))
        t = None
        for v in range(nv - 1, -1, -1):
            s, a = tr.row(v)
            e = signed(s, A.at((tm.num(a),) + tuple(sn.to_t(q) for q in tr.cell(i[1:], size))))
            t = e if t is None else tm.ite(tm.eq(i[0].t, tm.num(v)), e, t)
        return S(t)

    return A, h.make(shB, at)


def kinds(dims_list, perms=PERMS, only=None):
    """cases of the three symmetries, each tagged by the property it belongs to"""
    out = []
    for k, dims in enumerate(dims_list):
        for q, perm in enumerate(perms):
            if len(dims) < 3 and q not in (k % 5, (k + 2) % 5):
                continue
            out.append(dict(kind="perm", dims=dims, perm=perm, m=None))
        for a in dims:
            out.append(dict(kind="mirror", dims=dims, perm=(0, 1, 2), m=D[a]))
            out.append(dict(kind="shift", dims=dims, perm=(0, 1, 2), m=D[a]))
    return out


def by_property(cases):
    """obligations of one kind belong to one property: the decorated body is registered once for each"""
    def deco(reg):
        for kind, prop in TAG.items():
            cs = [c for c in cases if c["kind"] == kind]
            if cs:
                reg(prop, cs)
    return deco


def relational(name, funcs, cases, thorough=None, **kw):
    def deco(fn):
        for kind, prop in TAG.items():
            cs = [c for c in cases if c["kind"] == kind]
            th = [c for c in thorough or [] if c["kind"] == kind]
            if cs:
                ob(prop, name, funcs, cases=cs, thorough=th, **kw)(fn)
        return fn
    return deco


def sized(h, dims, lo=2, small=3):
    return [h.int("n" + a, lo, small=small) if a in dims else 1 for a in "xyz"]


# ------------------------------------------------------------------ pointwise callees
def sgn_rows(h, tr, A, nv):
    """image of pointwise states (no cells moved)"""
    return h.make(A.shape, lambda i: point_row(h, tr, A, i, nv))


def point_row(h, tr, A, i, nv):
    v = i[0]
    if isinstance(v, S) and v.t.op != "num":
        t = None
        for k in range(nv - 1, -1, -1):
            s, a = tr.row(k)
            e = signed(s, A.at((tm.num(a),) + tuple(sn.to_t(q) for q in i[1:])))
            t = e if t is None else tm.ite(tm.eq(v.t, tm.num(k)), e, t)
        return S(t)
    s, a = tr.row(v.t.args[0] if isinstance(v, S) else v)
    return s * A[(a,) + tuple(i[1:])]


def point_cases(perms=PERMS):
    return [dict(kind="perm", perm=p, m=None) for p in perms] + [dict(kind="mirror", perm=(0, 1, 2), m=m) for m in range(3)]


@relational("conversion and sound speed respect the symmetry", ["fvhoe.hydro.compute_primitives", "fvhoe.hydro.compute_conservatives", "fvhoe.hydro.compute_sound_speed"], point_cases(), samples=3)
def prims(h, kind, perm, m):
    tr = Tr(h, kind, [1, 1, 1], perm, m)
    nv = 6
    hs = oh.hydro_state(1)
    n = oh.shape3(h)
    g, fl = oh.gas(h)
    P, C, cs = fvhoe("hydro", "compute_primitives", "compute_conservatives", "compute_sound_speed")
    u = h.array("u", [nv] + n, pred=oh.pos_rho)
    v = sgn_rows(h, tr, u, nv)
    for name, f in (("primitives", P), ("conservatives", C)):
        a, b = f(hs, u, g), f(hs, v, g)
        for k in range(nv):
            s, r = tr.row(k)
            h.forall("%s, row %d" % (name, k), n, lambda i: h.eq(b[(k,) + i], s * a[(r,) + i]))
    a, b = cs(u, g, fl), cs(v, g, fl)
    h.forall("sound speed", n, lambda i: h.eq(a[i], b[i]))


@relational("Riemann solvers respect the symmetry", ["fvhoe.riemann_solvers.*"],
            [dict(c, rs=rs, dim=dim) for c in point_cases() for rs in oh.SOLVERS for k, dim in enumerate("xyz")], samples=12, timeout=30, budget=200, cost=3)
def riemann(h, kind, perm, m, rs, dim):
    f = oh.solver(rs)
    tr = Tr(h, kind, [1, 1, 1], perm, m)
    nv = 6
    hs = oh.hydro_state(1)
    if rs == "hllc":
        oh.stub_sound(h)
    n = [1, 1, 1]
    g, fl = oh.gas(h)
    wl = h.array("wl", [nv] + n, pred=oh.pos_rho_P)
    wr = h.array("wr", [nv] + n, pred=oh.pos_rho_P)
    dB = D[dim]
    dA = tr.ax[dB]
    if rs == "advection_upwind":
        wr[1 + dA] = wl[1 + dA]
    bl, br = sgn_rows(h, tr, wl, nv), sgn_rows(h, tr, wr, nv)
    if kind == "mirror" and dA == m:
        bl, br = br, bl
    i = (0, 0, 0)
    FA = f(hs, (wl, wr), g, "xyz"[dA], fl)
    FB = f(hs, (bl, br), g, dim, fl)
    if rs == "hllc" and kind == "mirror" and dA == m:
        oh.fan(h, wl, wr, g, fl, 1 + dA)
        oh.name_fan(h, hs, wl, wr, g, fl, 1 + dA, (bl, br))
    for k in range(nv):
        s, r = tr.fsign(dB, k)
        h.prove_eq("row %d" % k, FB[(k,) + i], s * FA[(r,) + i])


# ------------------------------------------------------------------ face fluxes
def t_cell(tr, c, size=None):
    return tuple(sn.to_t(q) for q in tr.cell([S(q) if isinstance(q, tm.T) else q for q in c], size))


def rows_of(v, nv, one):
    """one(k) for a row number that may be symbolic"""
    v = sn.to_t(v)
    if v.op == "num":
        return one(int(v.args[0]))
    t = one(nv - 1)
    for k in range(nv - 2, -1, -1):
        t = tm.ite(tm.eq(v, tm.num(k)), one(k), t)
    return t


def w_pair(tr, n, nv, name="W"):
    """an arbitrary field and its image"""
    A = sv.periodic_w(n, name) if tr.kind == "shift" else uf_w(name)

    def B(v, c):
        def one(k):
            s, a = tr.row(k)
            return signed(s, A(tm.num(a), t_cell(tr, c)))
        return rows_of(v, nv, one)
    return A, B


def r_pair(tr, nv):
    """an arbitrary Riemann solver and its image (relational contract proved above on the real ones)"""
    def B(dim, v, wl, wr):
        d = D[dim]
        rows = [None] * nv

        def back(w):
            out = [None] * nv
            for k in range(nv):
                s, a = tr.row(k)
                out[a] = signed(s, w[k])
            return out
        l, r = back(wl), back(wr)
        if tr.kind == "mirror" and tr.ax[d] == tr.m:
            l, r = r, l

        def one(k):
            s, a = tr.fsign(d, k)
            return signed(s, uf_r("xyz"[tr.ax[d]], tm.num(a), l, r))
        return rows_of(v, nv, one)
    return uf_r, B


def sym_lim(limiter):
    """an arbitrary symmetric odd function of the two differences (contract: C16 and below)"""
    return lambda a, b: tm.app("odd:" + limiter, (a, b), "R")


def flux_pair(h, tr, dims, p, n, nv, limiter, **kw):
    """both problems evaluated with related callees; returns the two flux tuples"""
    WA, WB = w_pair(tr, n, nv)
    RA, RB = r_pair(tr, nv)
    lim = sym_lim(limiter) if limiter else None
    dom = [(S(tm.var(a + "0", "R")), S(tm.add(tm.var(a + "0", "R"), tm.var("L" + a, "R")))) for a in "xyz"]
    for a in "xyz":
        h.assume(S(tm.lt(tm.ZERO, tm.var("L" + a, "R"))))
    sA, uA, _, recA, _ = sv.setup(h, dims, p, limiter, nv, W=WA, R=RA, n=n, lim=lim, domain=dom, **kw)
    dtA, outA = call_fluxes(h, sA, uA, p, limiter, 0.0)
    outA = [f.copy() for f in outA]
    dB, pB, nB = tr.dims(dims), tr.per_axis(tuple(p)), tr.nB
    flip = 1 + tr.m if tr.kind == "mirror" else None
    sB, uB, _, recB, _ = sv.setup(h, dB, pB, limiter, nv, W=WB, R=RB, n=nB, lim=lim, domain=tr.per_axis(dom), amap={1 + d: 1 + tr.ax[d] for d in range(3)}, flip=flip, **kw)
    dtB, outB = call_fluxes(h, sB, uB, pB, limiter, 0.0)
    return (sA, uA, recA, outA), (sB, uB, recB, outB)


def compare_fluxes(h, tr, dims, nv, outA, outB, what="flux"):
    for d, a in enumerate("xyz"):
        if a not in tr.dims(dims):
            continue
        dA = tr.ax[d]
        i = h.skolem(face_shape(tr.nB, d, nv)[1:])
        fA = sn.as_sym(outA[dA])
        for guard, j in unwrap(h, tr, tr.face(d, i), face_shape(tr.n, dA, nv)[1:]):
            jt = tuple(sn.to_t(q) for q in j)
            for v in range(nv):
                s, r = tr.fsign(d, v)
                h.prove("%s %s, row %d" % (a, what, v), h.implies(guard, h.eq(outB[d][(v,) + i], S(signed(s, fA.at((tm.num(r),) + jt))))))


def flux_cases(ps, extra=lambda c: {}):
    out = []
    for c in ps:
        for q in kinds([c["dims"]]):
            out.append(dict(q, p=c["p"], **{k: v for k, v in c.items() if k not in ("dims", "p")}))
    return out


SOME_P = [c for k, c in enumerate(sv.p_cases()) if len(c["dims"]) > 1 or k % 2 == 0]


@relational("face fluxes respect the symmetry", sv.RHS, flux_cases(SOME_P), thorough=flux_cases([c for c in sv.p_cases() if c not in SOME_P]), samples=0, abstract=True)
def sym_flux(h, kind, dims, perm, m, p):
    only_symbolic(h)
    n = sv.sizes(h, dims)
    tr = image(h, kind, n, perm, m)
    nv = 6 if sum(p) % 2 else 5
    A, B = flux_pair(h, tr, dims, p, n, nv, None)
    compare_fluxes(h, tr, dims, nv, A[3], B[3])
    # the time step is that of related cells
    (wa, da), (wb, db) = ((q[2]["w"], q[2]["dt"]) for q in (A, B))
    if len(da) != 1 or len(db) != 1 or len(wa) != 1 or len(wb) != 1:
        raise sn.Unsupported("time step evaluated %d, %d times" % (len(da), len(db)))
    h.rec("ghost cells of the time step", list(wb[0]["gw"]) == tr.per_axis(list(wa[0]["gw"])))
    related_cells(h, tr, "cells of the time step", da[0]["w"], db[0]["w"], wa[0]["gw"], nv)
    for q in ("h", "ndim", "CFL", "gamma", "csq_floor"):
        h.prove_eq("time step: " + q, da[0][q], db[0][q])


@relational("slope-limited face fluxes respect the symmetry", sv.LOW, flux_cases(sv.low_cases()), samples=0, abstract=True)
def sym_low(h, kind, dims, perm, m, p, limiter):
    only_symbolic(h)
    n = sv.sizes(h, dims)
    tr = image(h, kind, n, perm, m)
    A, B = flux_pair(h, tr, dims, p, n, 5, limiter)
    compare_fluxes(h, tr, dims, 5, A[3], B[3])


# ------------------------------------------------------------------ averaged primitives
def prim_pair(tr, nv):
    """an arbitrary conversion and its image (relational contract proved above on the real one)"""
    A = lambda v, us: tm.app("PRIM", (v,) + tuple(us), "R")

    def B(v, us):
        w = [None] * nv
        for k in range(nv):
            s, a = tr.row(k)
            w[a] = signed(s, us[k])

        def one(k):
            s, a = tr.row(k)
            return signed(s, A(tm.num(a), w))
        return rows_of(v, nv, one)
    return A, B


@relational("averaged primitives respect the symmetry", sv.PRIMS, [dict(c, fv=k % 3 > 0) for k, c in enumerate(flux_cases(SOME_P))], samples=0, abstract=True)
def sym_prims(h, kind, dims, perm, m, p, fv):
    only_symbolic(h)
    n = sv.sizes(h, dims)
    tr = image(h, kind, n, perm, m)
    nv = 6
    EA, EB = w_pair(tr, n, nv, "EXT")
    PA, PB = prim_pair(tr, nv)
    g = tuple(2 if a in dims else 0 for a in "xyz")
    out = []
    for which in (0, 1):
        h.unstub()
        back = dict(amap={1 + d: 1 + tr.ax[d] for d in range(3)}, flip=1 + tr.m if kind == "mirror" else None) if which else {}
        sv.stub_stencils(h, **back)
        nn = tr.nB if which else n
        sv.stub_bc(h, nn, (EA, EB)[which])
        sv.stub_prim(h, nv, (PA, PB)[which])
        q = tr.per_axis(p) if which else p
        s, u = solver(h, tr.dims(dims) if which else dims, q, nn, nv)
        out.append(s.interpolate_primitives_from_conservatives(u, q, tr.per_axis(g) if which else g, fv, 0.0))
    A, B = out
    gB = tr.per_axis(g)
    i = h.skolem([q + 2 * e for q, e in zip(tr.nB, gB)])
    c = tr.cell([q - e for q, e in zip(i, gB)])
    if kind == "shift":
        # ghost cells continue periodically: compare where the image lies within the array
        if not h.case(c[m] < n[m] + g[m]):
            c = tuple(q - n[m] if e == m else q for e, q in enumerate(c))
    j = tuple(q + e for q, e in zip(c, g))
    for v in range(nv):
        s, r = tr.row(v)
        h.prove_eq("row %d" % v, B[(v,) + i], s * A[(r,) + j])


# ------------------------------------------------------------------ boundaries
NAMES = dict(p="periodic", f="free", o="outflow", r="reflective", d="dirichlet")


def bc_cases():
    sets = [("pp", "ff", "oo"), ("fo", "rr", "pp"), ("of", "ro", "fr"), ("rf", "pp", "or"), ("oo", "rf", "ff"), ("rr", "oo", "rr"), ("ff", "fr", "of"), ("pp", "pp", "pp")]
    out = []
    for k, s in enumerate(sets):
        for q in (k % 5, (k + 3) % 5):
            out.append(dict(kind="perm", perm=PERMS[q], m=None, types=s))
        out.append(dict(kind="mirror", perm=(0, 1, 2), m=k % 3, types=s))
        out.append(dict(kind="mirror", perm=(0, 1, 2), m=(k + 1) % 3, types=s))
        for d in range(3):
            if s[d] == "pp":
                out.append(dict(kind="shift", perm=(0, 1, 2), m=d, types=s))
    # prescribed states: along one direction only for permutations (the corners follow the order of the directions)
    for k, (d, t) in enumerate([(0, "dd"), (1, "dd"), (2, "dd"), (0, "df"), (1, "rd"), (2, "od")]):
        s = tuple(t if e == d else "pp" for e in range(3))
        out.append(dict(kind="perm", perm=PERMS[k % 5], m=None, types=s, one=d))
        out.append(dict(kind="mirror", perm=(0, 1, 2), m=d, types=s))
        out.append(dict(kind="mirror", perm=(0, 1, 2), m=(d + 1) % 3, types=tuple(("dd", "of", "fd")[(e + k) % 3] for e in range(3))))
        out.append(dict(kind="shift", perm=(0, 1, 2), m=(d + 1) % 3, types=s))
    return out


@relational("ghost zones respect the symmetry", ["fvhoe.boundary_conditions.BoundaryCondition.apply", "fvhoe.boundary_conditions._set_*"], bc_cases(), samples=4, timeout=30, paths=400)
def sym_bc(h, kind, perm, m, types, one=None):
    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    AM = fvhoe("array_management", "ArrayManager")
    nv = 6
    hs = fvhoe("hydro", "HydroState")(passive_scalars=("s",))
    n = [h.int("n" + a, 1, small=4) for a in "xyz"]
    g = [h.int("g" + a, 0, small=3) if one is None or one == d else 0 for d, a in enumerate("xyz")]
    for a, b in zip(n, g):
        h.assume(b <= a)
    tr = image(h, kind, n, perm, m)
    gB = tr.per_axis(g)
    u, v = pair(h, tr, "u", nv, [0, 0, 0])
    vals = [[h.array("c%d%d" % (d, k), [nv]) if types[d][k] == "d" else None for k in (0, 1)] for d in range(3)]

    def back(c):
        return None if c is None else h.make([nv], lambda i: bound_row(h, tr, c, i[0], nv))

    kA, kB = {}, {}
    for d, a in enumerate("xyz"):
        kA[a] = tuple(NAMES[t] for t in types[d])
        kA[a + "_value"] = tuple(vals[d])
        e = tr.ax[d]
        swap = -1 if kind == "mirror" and e == m else 1
        kB[a] = tuple(NAMES[t] for t in types[e])[::swap]
        kB[a + "_value"] = tuple(back(c) for c in vals[e])[::swap]
    slab = lambda nn, gg: {a + s: tuple(h.make([gg[e] if e == d else nn[e] + 2 * gg[e] for e in range(3)], lambda i: 0.0) for _ in range(3)) for d, a in enumerate("xyz") for s in "lr"}
    A = BC(slab_coords=slab(n, g), hydro_state=hs, array_manager=AM(), **kA).apply(u, tuple(g), 0.0)
    B = BC(slab_coords=slab(tr.nB, gB), hydro_state=hs, array_manager=AM(), **kB).apply(v, tuple(gB), 0.0)
    size = [q + 2 * e for q, e in zip(n, g)]
    i = h.skolem(tr.per_axis(size))
    j = tr.cell(i, size)
    if kind == "shift" and not h.case(j[m] < size[m]):
        j = tuple(q - n[m] if e == m else q for e, q in enumerate(j))
    for k in range(nv):
        s, r = tr.row(k)
        h.prove_eq("row %d" % k, B[(k,) + i], s * A[(r,) + j])


def bound_row(h, tr, c, v, nv):
    def one(k):
        s, a = tr.row(k)
        return s * c[a]
    if h.sym:
        return S(rows_of(v, nv, lambda k: sn.to_t(one(k))))
    return one(int(v))


# ------------------------------------------------------------------ detection
DET = "smooth_extrema_detection"
DETF = ["fvhoe.smooth_extrema_detection.compute_%dd_smooth_extrema_detector" % k for k in (1, 2, 3)]


def call_detector(u, dims, eps):
    if len(dims) == 1:
        return fvhoe(DET, "compute_1d_smooth_extrema_detector")(u, dim=dims, eps=eps)
    if len(dims) == 2:
        return fvhoe(DET, "compute_2d_smooth_extrema_detector")(u, dims=dims, eps=eps)
    return fvhoe(DET, "compute_3d_smooth_extrema_detector")(u, eps=eps)


def inner_cells(h, tr, dims, n):
    """a cell of B and its image in A, both counted from the first interior cell"""
    i = h.skolem(tr.nB)
    j = tr.cell(i)
    if tr.kind == "shift":
        j = tr.wrapped(j)
    return i, tuple(j)


@relational("smooth extremum detector respects the symmetry", DETF + ["fvhoe.fv.second_order_central_difference"], kinds(["x", "y", "z"]), thorough=kinds(["xy", "yz", "xz"]), samples=4, timeout=60, budget=200, cost=4)
def sym_detector(h, kind, dims, perm, m):
    n = [h.int("n" + a, 1, small=4) if a in dims else 1 for a in "xyz"]
    g = [3 if a in dims else 0 for a in "xyz"]
    tr = image(h, kind, n, perm, m)
    eps = h.real("eps", 0, scale=0.05)
    A, B = pair(h, tr, "c", 4, g, gen=lambda r, s: r.normal(size=s))
    a, b = call_detector(A, dims, eps), call_detector(B, tr.dims(dims), eps)
    i, j = inner_cells(h, tr, dims, n)
    for k in range(4):
        x, y = a[(tr.row(k)[1],) + j], b[(k,) + i]
        ol.margin(h, x - 1)
        h.prove("the same extrema are smooth, row %d" % k, h.iff(h.lt(x, 1), h.lt(y, 1)))


def rough_window(win):
    """the decision of the one-dimensional detector from the seven cells around, blind to orientation and sign (proved above)"""
    ws = [win, win[::-1]]
    ws += [[tm.neg(t) for t in w] for w in ws]
    return tm.app("rough", tuple(min(ws, key=lambda w: [t.id for t in w])), "B")


@relational("multi-dimensional detectors combine the directions evenly", DETF[1:] + [DETF[0] + " (contract)"], kinds(["xy", "xz", "yz", "xyz"]), samples=0, abstract=True, timeout=60)
def sym_detector_nd(h, kind, dims, perm, m):
    only_symbolic(h)
    n = sv.sizes(h, dims)
    g = [3 if a in dims else 0 for a in "xyz"]
    tr = image(h, kind, n, perm, m)
    A, B = pair(h, tr, "c", 4, g)
    eps = h.real("eps", 0)

    def one_d(u, dim, eps=1e-10):
        u, e = sn.as_sym(u), 1 + D[dim]
        f = u.fn()
        sh = [q - 6 if k == e else q for k, q in enumerate(u.shape)]
        return arr(sh, lambda i: tm.ite(rough_window([f(tuple(tm.add(q, tm.num(k)) if d == e else q for d, q in enumerate(i))) for k in range(7)]), tm.ZERO, tm.ONE))

    h.stub(DET, "compute_1d_smooth_extrema_detector", one_d, hard=True)
    a = call_detector(A, dims, eps)
    b = call_detector(B, tr.dims(dims), eps)
    i, j = inner_cells(h, tr, dims, n)
    for k in range(4):
        h.prove("the same extrema are smooth, row %d" % k, h.iff(h.lt(a[(tr.row(k)[1],) + j], 1), h.lt(b[(k,) + i], 1)))


def detect_cases():
    out = []
    for k, c in enumerate(kinds(ALLD)):
        for l, (mode, rng, sed) in enumerate(itertools.product(("global", "local"), ("relative", "absolute"), (False, True))):
            if c["kind"] == "mirror" and rng == "absolute":
                continue
            if len(c["dims"]) == 3 and (l + k) % 4 or len(c["dims"]) == 2 and (l + k) % 2:
                continue
            q = (k + l) % 4
            out.append(dict(c, mode=mode, rng=rng, sed=sed, vars=(None, ("rho",), ("vy", "P"), ("vx", "vz"))[q], pad=(None, "both", "std", "lo")[(q + k) % 4]))
    return out


@relational("troubled cells respect the symmetry", ["fvhoe.slope_limiting.detect_troubled_cells", "fvhoe.smooth_extrema_detection.* (contract)"], detect_cases(), samples=3, timeout=60, budget=300, cost=5, paths=60)
def sym_detect(h, kind, dims, perm, m, mode, rng, sed, vars, pad):
    f = fvhoe("slope_limiting", "detect_troubled_cells")
    n = [h.int("n" + a, 2, small=3 if len(dims) < 3 else 1) if a in dims else 1 for a in "xyz"]
    g = [3 if a in dims else 0 for a in "xyz"]
    tr = image(h, kind, n, perm, m, size=[q + 2 * e for q, e in zip(n, g)])
    w, wB = pair(h, tr, "w", 5, g)
    c, cB = pair(h, tr, "c", 5, g)
    tol, eps = h.real("tol", 0, strict=False, scale=0.1), h.real("eps", 0, scale=0.05)
    PAD = None
    if pad == "std":
        PAD = {"rho": (0.0, np.inf), "P": (0.0, np.inf)}
    elif pad == "both":
        PAD = {"P": (h.real("lo"), h.real("hi", scale=3)), "vx": (h.real("lo2"), h.real("hi2", scale=3))}
    elif pad == "lo":
        PAD = {"rho": (h.real("lo"), np.inf), "vz": (-np.inf, h.real("hi", scale=3))}
    name = {}
    for k in range(5):
        s, r = tr.row(k)
        name[ol.VARS[r]] = (ol.VARS[k], s)
    varsB = None if vars is None else tuple(name[v][0] for v in vars)
    PADB = None if PAD is None else {name[v][0]: (lo, hi) if name[v][1] == 1 else (-hi, -lo) for v, (lo, hi) in PAD.items()}

    def stub(which):
        if not (h.sym and sed and h.use_stubs):
            return
        dd = tr.dims(dims) if which else dims
        off = tr.per_axis(g) if which else g

        def val(i):
            cell = t_cell(tr, i[1:]) if which else i[1:]

            def one(k):
                r = tr.row(k)[1] if which else k
                return tm.ite(tm.app("rough", (tm.num(r),) + (reduce_mod(cell, n) if kind == "shift" else cell), "B"), tm.ZERO, tm.ONE)
            return rows_of(i[0], 5, one)

        def called(u, dims_, eps_):
            h.rec("detector sees the active directions", "".join(sorted(dims_)) == dd)
            h.forall_eq("detector sees the candidate values", u, cB if which else c)
            h.prove_eq("detector uses the given tolerance", eps_, eps)
            return arr([5] + list(tr.nB if which else n), val)

        h.unstub()
        h.stub(DET, "compute_1d_smooth_extrema_detector", lambda u, dim, eps=1e-10: called(u, dim, eps))
        h.stub(DET, "compute_2d_smooth_extrema_detector", lambda u, dims, eps=1e-10: called(u, dims, eps))
        h.stub(DET, "compute_3d_smooth_extrema_detector", lambda u, eps=1e-10: called(u, "xyz", eps))

    kw = dict(NAD_eps=tol, mode=mode, range_type=rng, SED=sed, SED_eps=eps)
    stub(0)
    A = f(w, c, dims=dims, NAD_vars=vars, PAD_bounds=PAD, **kw)
    stub(1)
    B = f(wB, cB, dims=tr.dims(dims), NAD_vars=varsB, PAD_bounds=PADB, **kw)
    if h.sym and mode == "global":
        top, low = (lambda q: np.max(q, axis=(1, 2, 3))), (lambda q: np.min(q, axis=(1, 2, 3)))
        MA, mA, MB, mB = top(w), low(w), top(wB), low(wB)
        mp, facts = [], []
        for k in range(5):
            s, r = tr.row(k)
            for nm, x, y in (("largest", MB[k], MA[r] if s == 1 else -mA[r]), ("smallest", mB[k], mA[r] if s == 1 else -MA[r])):
                mp.append((x, y))
                facts.append(("%s value of row %d" % (nm, k), h.eq(x, y)))
        h.generalize(mp, facts)
    i, j = inner_cells(h, tr, dims, n)
    for what, a, b in zip(("trouble", "range violation", "bound violation"), A, B):
        h.prove_eq(what, b[i], a[j])


# ------------------------------------------------------------------ weights of the faces
def bro_cases(all=False):
    out = []
    for k, c in enumerate(kinds(ALLD)):
        for convex in (False, True):
            if convex and len(c["dims"]) == 3:
                continue
            slow = c["kind"] == "shift" and convex and len(c["dims"]) == 2  # minutes each
            if slow and all != (c["dims"] + str(c["m"]) not in ("xz2", "yz1")):
                continue
            if all and not slow:
                continue
            for l, per in enumerate(itertools.product("01", repeat=3)):
                if any(per[d] == "1" and "xyz"[d] not in c["dims"] for d in range(3)) or c["kind"] == "shift" and per[c["m"]] == "0":
                    continue
                if len(c["dims"]) == 3 and (l + k) % 3 or len(c["dims"]) == 2 and convex and (l + k) % 2 and not slow:
                    continue
                out.append(dict(c, convex=convex, per="".join(per)))
    return out


def flag_pair(h, tr, name):
    """zero or one in every cell, and its image"""
    n = tr.n
    if not h.sym:
        A = ol.bits(h, name, list(n))
        return A, h.make(list(tr.nB), lambda i: A[tuple(q % k for q, k in zip(tr.cell(i), n))])
    at = lambda c: S(tm.tonum(tm.app(name, reduce_mod(c, n) if tr.kind == "shift" else c, "B")))
    return h.make(list(n), lambda i: at(tuple(sn.to_t(q) for q in i))), h.make(list(tr.nB), lambda i: at(t_cell(tr, i)))


@relational("weights of the faces respect the symmetry", ["fvhoe.slope_limiting.broadcast_to_troubled_interfaces", "fvhoe.slope_limiting.convex_*d_broadcast_to_troubled_interfaces (contract)"],
            bro_cases(), thorough=bro_cases(True), samples=2, timeout=60, budget=400, cost=9, paths=400)
def sym_bro(h, kind, dims, perm, m, convex, per):
    f = fvhoe("slope_limiting", "broadcast_to_troubled_interfaces")
    n = [h.int("n" + a, 3, small=4 if len(dims) < 3 else 2) if a in dims else 1 for a in "xyz"]
    tr = image(h, kind, n, perm, m)
    A, B = flag_pair(h, tr, "t")
    if h.sym and convex:
        ol.stub_convex(h)
    P = [q == "1" for q in per]
    PB = tr.per_axis(P)
    a = f(A, dims=dims, convex=convex, **{"periodic_" + q: P[d] for d, q in enumerate("xyz")})
    b = f(B, dims=tr.dims(dims), convex=convex, **{"periodic_" + q: PB[d] for d, q in enumerate("xyz")})
    for d, q in enumerate("xyz"):
        if q not in tr.dims(dims):
            continue
        dA = tr.ax[d]
        i = h.skolem(face_shape(tr.nB, d, 1)[1:])
        j = tr.face(d, i)
        if kind == "shift":
            j = tr.wrapped(j, 1 if dA == m else 0)
        h.prove_eq("weight of the %s faces" % q, b[d][(0,) + i], a[dA][(0,) + tuple(j)])


# ------------------------------------------------------------------ revised fluxes, rate of change, time step
def cell_fn(tr, name, sort="R"):
    """a function of the cell and its image"""
    fit = lambda c: reduce_mod(c, tr.n) if tr.kind == "shift" else tuple(c)
    return (lambda c: tm.app(name, fit(c), sort)), (lambda c: tm.app(name, fit(t_cell(tr, c)), sort))


def t_face(tr, d, j):
    return tuple(sn.to_t(q) for q in tr.face(d, [S(q) if isinstance(q, tm.T) else q for q in j]))


def face_fn(tr, name, nv, rows=True):
    """functions of the faces of each direction and their images"""
    fit = lambda c: reduce_mod(c, tr.n) if tr.kind == "shift" else tuple(c)

    def A(d, i):
        return tm.app(name + "xyz"[d], (i[0],) + fit(i[1:]), "R")

    def B(d, i):
        dA, c = tr.ax[d], fit(t_face(tr, d, i[1:]))
        if not rows:
            return tm.app(name + "xyz"[dA], (i[0],) + c, "R")

        def one(k):
            s, r = tr.fsign(d, k)
            return signed(s, tm.app(name + "xyz"[dA], (tm.num(r),) + c, "R"))
        return rows_of(i[0], nv, one)
    return A, B


def both(h, tr, dims, nv, p, bcs=None, **kw):
    """constructors of the two solvers"""
    dom = []
    for a in "xyz":
        lo = h.real(a + "0")
        dom.append((lo, lo + h.real("L" + a, 0)))
    u, v = pair(h, tr, "u", nv, [0, 0, 0])
    BC = fvhoe("boundary_conditions", "BoundaryCondition")

    def make(which):
        k = dict(kw)
        if bcs is not None:
            types = list(bcs)
            if which:
                types = [tuple(reversed(types[tr.ax[d]])) if tr.kind == "mirror" and tr.ax[d] == tr.m else types[tr.ax[d]] for d in range(3)]
            k["bc"] = BC(**{a: tuple(types[d]) for d, a in enumerate("xyz")})
        for q in ("NAD_vars", "PAD"):
            if which and q in k:
                k[q] = k.pop(q + "B")
            else:
                k.pop(q + "B", None)
        if which:
            return solver(h, tr.dims(dims), tr.per_axis(p), tr.nB, nv, u=v, domain=tr.per_axis(dom), **k)[0]
        return solver(h, dims, p, tr.n, nv, u=u, domain=dom, **k)[0]
    return u, v, make


def unwrap(h, tr, j, size):
    """(condition, index within range) for an index of A; shifts wrap around"""
    if tr.kind != "shift":
        return [(S(tm.TRUE), j)]
    m = tr.m
    inside = j[m] < size[m]
    return [(inside, j), (h.not_(inside), tuple(q - tr.n[m] if e == m else q for e, q in enumerate(j)))]


def related_cells(h, tr, what, a, b, g, rows=None):
    """array b of B is the image of array a of A (g ghost cells of A on each side)"""
    a, b = sn.as_sym(a), sn.as_sym(b)
    size = [q + 2 * e for q, e in zip(tr.n, g)]
    h.same_shape(what + ": extent", b, ([rows] if rows else []) + tr.per_axis(size))
    i = h.skolem(tr.per_axis(size))
    j = tr.cell(i, size)
    for guard, j in unwrap(h, tr, j, size):
        jt = tuple(sn.to_t(q) for q in j)
        if not rows:
            h.prove(what, h.implies(guard, h.eq(b[i], S(a.at(jt)))))
            continue
        for k in range(rows):
            s, r = tr.row(k)
            h.prove("%s, row %d" % (what, k), h.implies(guard, h.eq(b[(k,) + i], S(signed(s, a.at((tm.num(r),) + jt))))))


def revise_sym_cases():
    out = []
    for k, c in enumerate(kinds(ALLD)):
        for l, (convex, force) in enumerate(((False, False), (True, False), (False, True))):
            if convex and len(c["dims"]) == 3 or len(c["dims"]) == 3 and l != k % 3 and c["kind"] == "perm":
                continue
            out.append(dict(c, convex=convex, force=force, per=(k + l) % 2 == 0 or c["kind"] == "shift"))
    return out


@relational("revised fluxes respect the symmetry", [SV + "revise_fluxes", SV + "log_troubles", SV + "euler_equation", SV + "hydrofluxes (contract)", SV + "interpolate_primitives_from_conservatives (contract)",
            "fvhoe.slope_limiting.detect_troubled_cells (contract)", "fvhoe.slope_limiting.broadcast_to_troubled_interfaces (contract)"], revise_sym_cases(), samples=0, abstract=True, paths=120, timeout=30)
def sym_revise(h, kind, dims, perm, m, convex, force, per):
    only_symbolic(h)
    n = sv.sizes(h, dims)
    tr = image(h, kind, n, perm, m)
    nv = 6
    p = tuple((3, 2, 4)[d] if a in dims else 0 for d, a in enumerate("xyz"))
    E = fvhoe("solver", "EulerSolver")
    sl = fvhoe("slope_limiting")
    name = {ol.VARS[tr.row(k)[1]]: (ol.VARS[k], tr.row(k)[0]) for k in range(5)}
    NADv, PAD = ("rho", "vx"), {"rho": (0.0, 7.0), "vy": (-2.0, 3.0)}
    kw = dict(a_posteriori_slope_limiting=True, slope_limiter=("minmod", "moncen")[len(dims) % 2], NAD_mode=("local", "global")[convex], SED=bool(force), convex=convex,
              NAD=h.real("NAD"), SED_tolerance=h.real("sedtol"), NAD_vars=NADv, NAD_varsB=tuple(name[v][0] for v in NADv),
              PAD=PAD, PADB={name[v][0]: (lo, hi) if name[v][1] == 1 else (-hi, -lo) for v, (lo, hi) in PAD.items()})
    bcs = [("periodic", "periodic") if per or kind == "shift" and d == m else (("free", "outflow"), ("reflective", "free"), ("outflow", "reflective"))[d] for d in range(3)]
    u, v, make = both(h, tr, dims, nv, p, bcs, **kw)
    t, dt = h.real("t"), h.real("dt", 0)
    hi, lo = face_fn(tr, "hi", nv), face_fn(tr, "lo", nv)
    th = face_fn(tr, "th", 1, rows=False)
    T, Nm, Pm = (cell_fn(tr, q, s) for q, s in (("T", "B"), ("Nm", "R"), ("Pm", "R")))
    logs = []
    rp = orig(h, E, "interpolate_primitives_from_conservatives")
    rd, rb = orig(h, sl, "detect_troubled_cells"), orig(h, sl, "broadcast_to_troubled_interfaces")
    res = []
    def once(which):
        h.unstub()
        log = dict(w=[], low=[], det=[], bro=[])
        logs.append(log)
        nn, dd = (tr.nB, tr.dims(dims)) if which else (n, dims)

        def prims(self, *a, **k):
            b = dict(bound(rp, (self,) + a, k))
            num = len(log["w"])
            b["u"] = sn.as_sym(b["u"]).copy()
            b["g"] = g = [int(q) for q in b["gw"]]
            log["w"].append(b)
            W = w_pair(tr, n, nv, "w%d" % num)[which]
            return arr([nv] + [q + 2 * e for q, e in zip(nn, g)], lambda i: W(i[0], tuple(tm.sub(q, tm.num(e)) for q, e in zip(i[1:], g))))

        def low(self, b):
            b["u"] = sn.as_sym(b["u"]).copy()
            return 1, tuple(arr(face_shape(nn, d, nv), lambda i, d=d: lo[which](d, i)) if a in dd else self.am("FGH"[d]) for d, a in enumerate("xyz"))

        def detect(*a, **k):
            log["det"].append(dict(bound(rd, a, k)))
            return arr(nn, T[which], "b"), arr(nn, Nm[which]), arr(nn, Pm[which])

        def broad(*a, **k):
            b = dict(bound(rb, a, k))
            b["trouble"] = sn.as_sym(b["trouble"]).copy()
            log["bro"].append(b)
            return tuple(arr(face_shape(nn, d, 1), (lambda i, d=d: th[which](d, i)) if a in dd else (lambda i: tm.ZERO)) for d, a in enumerate("xyz"))

        h.stub_attr(E, "interpolate_primitives_from_conservatives", prims, hard=True)
        stub_method(h, "hydrofluxes", low, log["low"])
        h.stub("slope_limiting", "detect_troubled_cells", detect, hard=True)
        h.stub("slope_limiting", "broadcast_to_troubled_interfaces", broad, hard=True)
        s = make(which)
        for d, a in enumerate("FGH"):
            s.am(a)[...] = arr(face_shape(nn, d, nv), lambda i, d=d: hi[which](d, i))
        s.revise_fluxes(u=v if which else u, F=s.am("F"), G=s.am("G"), H=s.am("H"), dt=dt, force_trouble=force, t=t)
        res.append(s)
    once(0)
    once(1)
    LA, LB = logs
    sA, sB = res
    if len(LA["bro"]) != len(LB["bro"]):
        # one of the two saw trouble and the other none: must be impossible
        h.prove("both problems are limited or none", False)
        return
    if any(len(LA[k]) != len(LB[k]) for k in LA):
        raise sn.Unsupported("the two problems take different calls")
    for a, b in zip(LA["w"], LB["w"]):
        h.rec("degrees of the primitives", tuple(b["p"]) == tr.per_axis(tuple(a["p"])) and list(b["g"]) == tr.per_axis(list(a["g"])) and bool(a["fv_average"]) == bool(b["fv_average"]))
        related_cells(h, tr, "state behind the primitives", a["u"], b["u"], [0, 0, 0], nv)
    g3 = [3 if a in dims else 0 for a in "xyz"]
    for a, b in zip(LA["det"], LB["det"]):
        for q in ("u", "u_candidate"):
            related_cells(h, tr, "detection: " + q, a[q], b[q], g3, 5)
        h.prove("tolerances", h.and_(h.eq(a["NAD_eps"], b["NAD_eps"]), h.eq(a["SED_eps"], b["SED_eps"])))
        h.rec("options of the detection", b["dims"] == tr.dims(a["dims"]) and a["mode"] == b["mode"] and a["range_type"] == b["range_type"] and bool(a["SED"]) == bool(b["SED"])
              and set(b["NAD_vars"]) == {name[v][0] for v in a["NAD_vars"]}
              and {q: tuple(map(float, w)) for q, w in b["PAD_bounds"].items()} == {name[q][0]: tuple(map(float, (l, u_) if name[q][1] == 1 else (-u_, -l))) for q, (l, u_) in a["PAD_bounds"].items()})
    for a, b in zip(LA["low"], LB["low"]):
        related_cells(h, tr, "state of the fallback", a["u"], b["u"], [0, 0, 0], nv)
        h.rec("options of the fallback", tuple(b["p"]) == tr.per_axis(tuple(a["p"])) and a["slope_limiter"] == b["slope_limiter"])
    for a, b in zip(LA["bro"], LB["bro"]):
        related_cells(h, tr, "trouble behind the weights", a["trouble"], b["trouble"], [0, 0, 0])
        h.rec("options of the weights", b["dims"] == tr.dims(a["dims"]) and bool(a["convex"]) == bool(b["convex"])
              and all(bool(b["periodic_" + "xyz"[d]]) == bool(a["periodic_" + "xyz"[tr.ax[d]]]) for d in range(3) if "xyz"[d] in b["dims"]))
    for q in ("mean trouble", "mean NAD mag", "mean PAD mag"):
        related_cells(h, tr, q, sA.am(q), sB.am(q), [0, 0, 0])
    compare_fluxes(h, tr, dims, nv, [sA.am(q) for q in "FGH"], [sB.am(q) for q in "FGH"], "final flux")


@relational("rate of change respects the symmetry", [SV + "f", SV + "hydrodynamics", SV + "euler_equation", SV + "hydrofluxes (contract)", SV + "revise_fluxes (contract)"],
            [dict(c, limit=(k + l) % 2 == 0) for k, c in enumerate(kinds(ALLD)) for l in ((0, 1) if len(c["dims"]) < 3 else (0,))], samples=0, abstract=True)
def sym_rate(h, kind, dims, perm, m, limit):
    only_symbolic(h)
    n = sv.sizes(h, dims)
    tr = image(h, kind, n, perm, m)
    nv = 6
    p = tuple((3, 2, 4)[d] if a in dims else 0 for d, a in enumerate("xyz"))
    u, v, make = both(h, tr, dims, nv, p, a_posteriori_slope_limiting=limit)
    t, dtv = h.real("t"), h.real("dt", 0)
    hi, rv = face_fn(tr, "hi", nv), face_fn(tr, "rev", nv)
    out = []
    def once(which):
        h.unstub()
        nn, dd = (tr.nB, tr.dims(dims)) if which else (n, dims)
        calls, revs = [], []

        def high(self, b):
            h.rec("degrees", tuple(b["p"]) == self.p)
            return dtv, tuple(arr(face_shape(nn, d, nv), lambda i, d=d: hi[which](d, i)) if a in dd else self.am("FGH"[d]) for d, a in enumerate("xyz"))

        def revise(self, b):
            for d, a in enumerate("xyz"):
                if a in dd:
                    self.am("FGH"[d])[...] = arr(face_shape(nn, d, nv), lambda i, d=d: rv[which](d, i))

        stub_method(h, "hydrofluxes", high, calls)
        stub_method(h, "revise_fluxes", revise, revs)
        s = make(which)
        out.append(s.f(t, v if which else u))
        h.rec("fluxes of the active directions only", len(calls) == 1 and len(revs) == int(limit))
    once(0)
    once(1)
    h.prove_eq("step size", out[0][0], out[1][0])
    related_cells(h, tr, "rate of change", out[0][1], out[1][1], [0, 0, 0], nv)


@relational("time step respects the symmetry", ["fvhoe.hydro.hydro_dt", "fvhoe.hydro.compute_sound_speed"], kinds(ALLD), samples=4, timeout=30, budget=100)
def sym_dt(h, kind, dims, perm, m):
    f = fvhoe("hydro", "hydro_dt")
    n = [h.int("n" + a, 2, small=3) if a in dims else 1 for a in "xyz"]
    g = [h.int("g" + a, 0, small=2) if a in dims else 0 for a in "xyz"]
    tr = image(h, kind, n, perm, m, size=[q + 2 * e for q, e in zip(n, g)])
    w, wB = pair(h, tr, "w", 5, g, gen=lambda r, s: r.uniform(0.5, 2, s))
    cfl, gm, fl, hh = h.real("cfl", 0), h.real("gamma", 1), h.real("fl", 0), h.real("h", 0)
    if h.sym:
        # contract of the sound speed: a function of density and pressure
        real = orig(h, fvhoe("hydro"), "compute_sound_speed")

        def cs(*a, **k):
            b = bound(real, a, k)
            q = sn.as_sym(b["w"])
            fn = q.fn()
            return arr(q.shape[1:], lambda i: tm.app("cs", (fn((tm.ZERO,) + i), fn((tm.num(4),) + i), sn.to_t(b["gamma"]), sn.to_t(b["csq_floor"])), "R"))
        h.stub("hydro", "compute_sound_speed", cs)
    kw = dict(h=hh, ndim=len(dims), CFL=cfl, gamma=gm, csq_floor=fl)
    h.prove_eq("the same step", f(w=w, **kw), f(w=wB, **kw))


# ------------------------------------------------------------------ stencils
def stencil_cases():
    out = []
    for k, (op, p) in enumerate(itertools.product("lcra", range(9))):
        d = k % 3
        out.append(dict(kind="perm", perm=PERMS[k % 5], m=None, op=op, p=p, d=d))
        out.append(dict(kind="mirror", perm=(0, 1, 2), m=d, op=op, p=p, d=d))
        out.append(dict(kind="mirror", perm=(0, 1, 2), m=(d + 1) % 3, op=op, p=p, d=d))
    return out


@relational("stencils respect the symmetry", ["fvhoe.fv.conservative_interpolation", "fvhoe.fv.transverse_reconstruction", "fvhoe.fv.stencil_sweep"], stencil_cases(), samples=1)
def sym_stencil(h, kind, perm, m, op, p, d):
    """d: direction of B"""
    f, g = fvhoe("fv", "conservative_interpolation", "transverse_reconstruction")
    r = (p + 1) // 2
    dA = perm[d]
    n = [h.int("n" + a, 2 * r + 1 if e == dA else 1, small=3) for e, a in enumerate("xyz")]
    tr = image(h, kind, n, perm, m)
    A, B = pair(h, tr, "u", 5, [0, 0, 0], gen=lambda r_, s: r_.normal(size=s))
    run = lambda u, axis, pos: g(u, p=p, axis=axis) if op == "a" else f(u, p=p, axis=axis, pos=pos)
    a = run(A, 1 + dA, sv.MIRROR[op] if kind == "mirror" and dA == m else op)
    b = run(B, 1 + d, op)
    size = [q - (2 * r if e == dA else 0) for e, q in enumerate(n)]
    h.same_shape("cells with a complete stencil", b, [5] + tr.per_axis(size))
    i = h.skolem(tr.per_axis(size))
    j = tr.cell(i, size)
    for k in range(5):
        s, q = tr.row(k)
        h.prove_eq("row %d" % k, b[(k,) + i], s * a[(q,) + j])
