"""Independent straight-line reference of the scheme and generators of random problems.

Used as the oracle of the concrete (bounded) conformance checks and to replay failed obligations;
nothing here is imported from the code under contract except by make()."""
from fractions import Fraction as Fr
from functools import lru_cache
import itertools

import numpy as np

from .core import fvhoe


# ------------------------------------------------------------------ gas
def cons(w, gamma):
    u = np.array(w, dtype=float)
    u[1:4] = w[0] * w[1:4]
    u[4] = w[4] / (gamma - 1) + 0.5 * w[0] * (w[1] ** 2 + w[2] ** 2 + w[3] ** 2)
    u[5:] = w[0] * w[5:]
    return u


def prims(u, gamma):
    w = np.array(u, dtype=float)
    w[1:4] = u[1:4] / u[0]
    w[4] = (gamma - 1) * (u[4] - 0.5 * (u[1] ** 2 + u[2] ** 2 + u[3] ** 2) / u[0])
    w[5:] = u[5:] / u[0]
    return w


def euler_flux(w, gamma, d, pressure=True):
    u = cons(w, gamma)
    v = w[1 + d]
    F = v * u
    if pressure:
        F[1 + d] = F[1 + d] + w[4]
        F[4] = F[4] + v * w[4]
    return F


def sound(w, gamma, floor):
    return np.sqrt(np.maximum(gamma * w[4] / w[0], floor))


def riemann(kind, wl, wr, gamma, d, floor):
    if kind == "advection_upwind":
        v = wl[1 + d]
        return np.where(v > 0, euler_flux(wl, gamma, d, False), np.where(v < 0, euler_flux(wr, gamma, d, False), 0.0))
    ul, ur = cons(wl, gamma), cons(wr, gamma)
    cl, cr = sound(wl, gamma, floor), sound(wr, gamma, floor)
    Fl, Fr_ = euler_flux(wl, gamma, d), euler_flux(wr, gamma, d)
    vl, vr = wl[1 + d], wr[1 + d]
    if kind == "llf":
        s = np.maximum(np.abs(vl) + cl, np.abs(vr) + cr)
        return (Fl + Fr_ - s * (ur - ul)) / 2
    c = np.maximum(cl, cr)
    SL, SR = np.minimum(vl, vr) - c, np.maximum(vl, vr) + c
    # contact speed and pressure from the two outer jumps
    a, b = wl[0] * (SL - vl), wr[0] * (SR - vr)
    S = (wr[4] - wl[4] + a * vl - b * vr) / (a - b)
    P = wl[4] + a * (S - vl)

    def star(w, u, Sk, v):
        q = (Sk - v) / (Sk - S)
        us = q * u
        us[1 + d] = q * u[0] * S
        us[4] = ((Sk - v) * u[4] - w[4] * v + P * S) / (Sk - S)
        return us

    FL, FR = Fl + SL * (star(wl, ul, SL, vl) - ul), Fr_ + SR * (star(wr, ur, SR, vr) - ur)
    return np.where(SL > 0, Fl, np.where(S > 0, FL, np.where(SR > 0, FR, Fr_)))


# ------------------------------------------------------------------ stencils
def _solve(A, b):
    n = len(A)
    M = [list(r) + [x] for r, x in zip(A, b)]
    for i in range(n):
        k = next(k for k in range(i, n) if M[k][i] != 0)
        M[i], M[k] = M[k], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    return [r[-1] for r in M]


@lru_cache(None)
def weights(p, kind):
    return tuple(float(w) for w in exact_weights(p, kind))


@lru_cache(None)
def exact_weights(p, kind):
    """kind l, c, r: averages -> point value; kind a: point values -> average.
    Odd degrees are the mean of the two one-sided stencils."""
    r = (p + 1) // 2
    H = Fr(1, 2)
    av = lambda c, k: ((c + H) ** (k + 1) - (c - H) ** (k + 1)) / (k + 1)
    sets = [range(-r, r + 1)] if p % 2 == 0 else [range(-r, r), range(-r + 1, r + 1)]
    out = [Fr(0)] * (2 * r + 1)
    for cells in sets:
        cells = list(cells)
        if kind == "a":
            A = [[Fr(c) ** k for c in cells] for k in range(p + 1)]
            b = [av(Fr(0), k) for k in range(p + 1)]
        else:
            x = {"l": -H, "c": Fr(0), "r": H}[kind]
            A = [[av(Fr(c), k) for c in cells] for k in range(p + 1)]
            b = [x ** k for k in range(p + 1)]
        for c, w in zip(cells, _solve(A, b)):
            out[c + r] += w / len(sets)
    return tuple(out)


def sl(nd, axis, a, b):
    s = [slice(None)] * nd
    s[axis] = slice(a, b)
    return tuple(s)


def lin(a, axis, p, kind):
    ws = weights(p, kind)
    m = a.shape[axis] - len(ws) + 1
    return sum(w * a[sl(a.ndim, axis, k, k + m)] for k, w in enumerate(ws))


def ss(p):
    return (p + 1) // 2


# ------------------------------------------------------------------ boundaries
def extend(cfg, u, g, t):
    """ghost cells direction by direction"""
    a = u
    n, dom = cfg["n"], cfg["dom"]
    hh = widths(cfg)
    lo = [0, 0, 0]  # ghost cells already present
    # the library fills x ghosts over the full padded array first, then y, then z: directions not yet
    # filled do not influence the interior rows that matter, so build direction by direction
    for d in range(3):
        if g[d] == 0:
            continue
        ax = d + 1
        m = a.shape[ax]
        kinds = cfg["bc"][d]
        parts = []
        for s in (0, 1):
            k = kinds[s]
            if k == "periodic":
                idx = (np.arange(-g[d], 0) if s == 0 else np.arange(m, m + g[d])) % m
                parts.append(np.take(a, idx, ax))
            elif k == "free":
                parts.append(np.take(a, [0] * g[d] if s == 0 else [m - 1] * g[d], ax))
            elif k in ("outflow", "reflective"):
                idx = np.arange(g[d])[::-1] if s == 0 else m - 1 - np.arange(g[d])
                b = np.take(a, idx, ax).copy()
                if k == "reflective":
                    b[1 + d] *= -1
                parts.append(b)
            elif k == "dirichlet":
                val = cfg["bcval"][d][s]
                sh = list(a.shape)
                sh[ax] = g[d]
                if isinstance(val, np.ndarray):
                    parts.append(np.broadcast_to(val.reshape(-1, 1, 1, 1), sh).copy())
                else:
                    co = []
                    for e in range(3):
                        if e == d:
                            i = np.arange(-g[d], 0) if s == 0 else np.arange(m, m + g[d])
                        else:
                            i = np.arange(sh[e + 1]) - lo[e]
                        co.append(dom[e][0] + (i + 0.5) * hh[e])
                    X, Y, Z = np.meshgrid(*co, indexing="ij")
                    parts.append(val(x=X, y=Y, z=Z, t=t))
            else:
                raise ValueError(k)
        a = np.concatenate([parts[0], a, parts[1]], axis=ax)
        lo[d] = g[d]
    return a


def widths(cfg):
    return [(b - a) / m for (a, b), m in zip(cfg["dom"], cfg["n"])]


def active(cfg):
    return [not (m == 1 and q == 0) for m, q in zip(cfg["n"], cfg["p"])]


# ------------------------------------------------------------------ reconstruction and fluxes
def averaged_prims(cfg, u, p, extra, t, fv=True):
    k = 2 if fv else 1
    g = [extra[d] + k * ss(p[d]) for d in range(3)]
    a = extend(cfg, u, g, t)
    for d in range(3):
        a = lin(a, d + 1, p[d], "c")
    a = prims(a, cfg["gamma"])
    if fv:
        for d in range(3):
            a = lin(a, d + 1, p[d], "a")
    return a


def limited(a, axis, limiter):
    m = a.shape[axis] - 2
    l, c, r = (a[sl(4, axis, k, k + m)] for k in range(3))
    d1, d2 = c - l, r - c
    same = d1 * d2 > 0
    if limiter == "minmod":
        s = np.where(same, np.sign(d1) * np.minimum(np.abs(d1), np.abs(d2)), 0.0)
    elif limiter == "moncen":
        s = np.where(same, np.sign(d1) * np.minimum(np.minimum(2 * np.abs(d1), 2 * np.abs(d2)), np.abs(d1 + d2) / 2), 0.0)
    else:
        s = (d1 + d2) / 2
    return c - s / 2, c + s / 2


def fluxes(cfg, u, p=None, limiter=None, t=0.0, seen=None):
    """face-averaged fluxes [F, G, H] (None in inactive directions); seen collects the smallest
    density and pressure met on the way"""
    p = cfg["p"] if p is None else p
    act = active(cfg)
    g = [max(1 + ss(p[d]), 2 * ss(p[d])) if act[d] else 0 for d in range(3)]
    w = averaged_prims(cfg, u, p, g, t)
    out = []
    for d in range(3):
        if not act[d]:
            out.append(None)
            continue
        a = w
        for e in range(3):
            if e != d:
                a = lin(a, e + 1, p[e], "c")
        if limiter is not None and p[d] == 1:
            L, R = limited(a, d + 1, limiter)
        else:
            L, R = lin(a, d + 1, p[d], "l"), lin(a, d + 1, p[d], "r")
        m = L.shape[d + 1]
        if seen is not None:
            seen += [float(np.min(q[k])) for q in (L, R) for k in (0, 4)] + [float(np.min(w[k])) for k in (0, 4)]
        f = riemann(cfg["solver"], R[sl(4, d + 1, 0, m - 1)], L[sl(4, d + 1, 1, m)], cfg["gamma"], d, cfg["floor"])
        for e in range(3):
            if e != d:
                f = lin(f, e + 1, p[e], "a")
        for e in range(3):
            want = cfg["n"][e] + (1 if e == d else 0)
            x = (f.shape[e + 1] - want) // 2
            f = f[sl(4, e + 1, x, x + want)]
        out.append(f)
    return out


def timestep(cfg, u, t=0.0):
    """CFL step with the ghost cells the scheme itself uses"""
    if cfg.get("fixed_dt") is not None:
        return cfg["fixed_dt"]
    act = active(cfg)
    P = max(cfg["p"])
    G = max(ss(P) + 1, 2 * ss(P))
    w = averaged_prims(cfg, u, cfg["p"], [G if a else 0 for a in act], t)
    c = sound(w, cfg["gamma"], cfg["floor"])
    return cfg["CFL"] * min(widths(cfg)) / np.max(np.abs(w[1]) + np.abs(w[2]) + np.abs(w[3]) + sum(act) * c)


def divergence(cfg, F):
    hh = widths(cfg)
    out = 0.0
    for d in range(3):
        if F[d] is not None:
            out = out - np.diff(F[d], axis=d + 1) / hh[d]
    return out


# ------------------------------------------------------------------ limiting
def shifted(a, offs):
    """interior (three cells off each active side) shifted by offs"""
    s = [slice(None)]
    for k, n in enumerate(a.shape[1:]):
        if offs[k] is None:
            s.append(slice(None))
        else:
            s.append(slice(3 + offs[k], n - 3 + offs[k]))
    return a[tuple(s)]


def smooth_alpha(w, d, eps):
    """minimum over a cell and its two neighbours of the smoothness indicator along d; raw margin to 1"""
    ax = d + 1
    n = w.shape[ax]
    T = lambda a, k0, k1: a[sl(4, ax, k0, k1)]
    dU = (T(w, 2, n) - T(w, 0, n - 2)) / 2
    m = dU.shape[ax]
    d2 = (T(dU, 2, m) - T(dU, 0, m - 2)) / 2
    dv = d2 / 2
    flat = np.abs(dv) <= eps
    q = np.where(flat, 1.0, dv)
    vL = T(dU, 0, m - 2) - T(dU, 1, m - 1)
    vR = T(dU, 2, m) - T(dU, 1, m - 1)
    one = lambda v, sg: np.where(flat, 1.0, np.where(np.sign(sg * v) == np.sign(q), sg * v / q, 0.0))
    aL = np.where(flat, 1.0, np.where(q < 0, np.maximum(vL, 0), np.minimum(vL, 0)) / -q)
    aR = np.where(flat, 1.0, np.where(q > 0, np.maximum(vR, 0), np.minimum(vR, 0)) / q)
    raw = np.minimum(aL, aR)
    k = raw.shape[ax]
    mn = np.minimum(np.minimum(T(raw, 0, k - 2), T(raw, 1, k - 1)), T(raw, 2, k))
    near = np.where(flat, np.inf, np.minimum(np.abs(aL - 1), np.abs(aR - 1)))
    near = np.minimum(near, np.where(flat | True, np.abs(np.abs(dv) - eps) / (eps + np.max(np.abs(w))), np.inf))
    return mn, float(np.min(near)) if near.size else np.inf


def detect(cfg, w, ws):
    """(trouble, NAD magnitude, PAD magnitude, decision margin)"""
    act = active(cfg)
    L = cfg["lim"]
    w, ws = w[:5], ws[:5]
    offs = list(itertools.product(*[(-1, 0, 1) if a else (None,) for a in act]))
    zero = [0 if a else None for a in act]
    nb = np.stack([shifted(w, o) for o in offs])
    M, m = nb.max(0), nb.min(0)
    x = shifted(ws, zero)
    gM, gm = w.max((1, 2, 3), keepdims=True), w.min((1, 2, 3), keepdims=True)
    eps = L["NAD"]
    if L["NAD_range"] == "relative":
        rng = gM - gm if L["NAD_mode"] == "global" else M - m
        ind = np.minimum(x - m, M - x)
        thr = -eps * rng
    else:
        lo, hi = (gm, gM) if L["NAD_mode"] == "global" else (m, M)
        ind = np.minimum(x - (1 - eps) * lo, (1 + eps) * hi - x)
        thr = 0.0 * ind
    bad = ind < thr
    scale = np.abs(w).max((1, 2, 3), keepdims=True) + 1e-30
    margin = np.min(np.abs(ind - thr) / scale)
    if L["SED"]:
        al = None
        for d in range(3):
            if act[d]:
                a, mg = smooth_alpha(ws[tuple([slice(None)] + [slice(3, -3) if (act[e] and e != d) else slice(None) for e in range(3)])], d, L["SED_tolerance"])
                al = a if al is None else np.minimum(al, a)
                margin = min(margin, mg)
        bad = bad & (al < 1)
    names = ["rho", "vx", "vy", "vz", "P"]
    if L["NAD_vars"] is not None:
        for k, q in enumerate(names):
            if q not in L["NAD_vars"]:
                bad[k] = False
    nad = bad.any(0)
    nadmag = np.where(nad, -ind.min(0), 0.0)
    pad = np.zeros(x.shape[1:])
    PAD = L["PAD"] if L["PAD"] is not None else {"rho": (0.0, np.inf), "P": (0.0, np.inf)}
    for q, (lo, hi) in PAD.items():
        k = names.index(q)
        pad = np.maximum(pad, np.maximum(lo - x[k], x[k] - hi))
        margin = min(margin, float(np.min(np.minimum(np.abs(x[k] - lo), np.abs(hi - x[k])))))
    return (nad | (pad > 0)).astype(float), nadmag, pad, float(margin)


def face_theta(cfg, trouble):
    """blending weight of each face per active direction"""
    act = active(cfg)
    per = [cfg["bc"][d] == ("periodic", "periodic") for d in range(3)]
    n = trouble.shape
    if not cfg["lim"]["convex"]:
        cell = lambda idx: trouble[idx]
        reach = 0
    else:
        reach = 2
    # cell weights on the interior plus one ring
    dims = [d for d in range(3) if act[d]]

    def tr(idx):
        q = []
        for d in range(3):
            i = idx[d]
            if i < 0 or i >= n[d]:
                if per[d] and act[d]:
                    i %= n[d]
                else:
                    return 0.0
            q.append(i)
        return trouble[tuple(q)]

    def theta(idx):
        if reach == 0:
            return tr(idx)
        best = 0.0
        for off in itertools.product(*[range(-2, 3) if act[d] else (0,) for d in range(3)]):
            a = sorted(map(abs, off))
            if max(a) == 0:
                wt = 1.0
            elif sum(a) == 1:
                wt = 0.75
            elif max(a) == 1:
                wt = 0.5
            else:
                wt = 0.25
            best = max(best, wt * tr(tuple(i + o for i, o in zip(idx, off))))
        return best

    out = []
    for d in range(3):
        if not act[d]:
            out.append(None)
            continue
        sh = tuple(n[e] + (1 if e == d else 0) for e in range(3))
        T = np.zeros(sh)
        for idx in np.ndindex(*sh):
            low = tuple(i - (1 if e == d else 0) for e, i in enumerate(idx))
            T[idx] = max(theta(idx), theta(low))
        if per[d]:
            a, b = sl(3, d, 0, 1), sl(3, d, n[d], n[d] + 1)
            mx = np.maximum(T[a], T[b])
            T[a], T[b] = mx, mx
        out.append(T)
    return out


def rhs(cfg, u, t=0.0):
    """dict with dt, dudt, final fluxes, high/low-order fluxes, trouble, magnitudes, decision margin"""
    dt = timestep(cfg, u, t)
    seen = []
    hi = fluxes(cfg, u, t=t, seen=seen)
    res = dict(dt=dt, high=hi, fluxes=hi, margin=np.inf, pos=min(seen))
    if cfg["lim"] is not None:
        us = u + dt * divergence(cfg, hi)
        act = active(cfg)
        g = [3 if a else 0 for a in act]
        w = averaged_prims(cfg, u, cfg["p"], g, t)
        ws = averaged_prims(cfg, us, cfg["p"], g, t)
        tr, nad, pad, margin = detect(cfg, w, ws)
        if cfg["lim"]["force_trouble"]:
            tr = np.ones_like(tr)
        res.update(trouble=tr, NAD=nad, PAD=pad, margin=margin, w=w, ws=ws)
        if tr.any():
            lo = fluxes(cfg, u, p=tuple(int(q > 0) for q in cfg["p"]), limiter=cfg["lim"]["limiter"], t=t)
            th = face_theta(cfg, tr)
            res.update(low=lo, theta=th)
            res["fluxes"] = [None if f is None else (1 - q) * f + q * g_ for f, q, g_ in zip(hi, th, lo)]
    res["dudt"] = divergence(cfg, res["fluxes"])
    return res


# ------------------------------------------------------------------ random problems
class Fields:
    """smooth positive primitive fields of (x, y, z)"""

    def __init__(self, rng, npassive, amp=0.3):
        self.m = 5 + npassive
        self.k = rng.integers(-2, 3, (self.m, 3)) * np.pi + rng.normal(size=(self.m, 3)) * 0.3
        self.ph = rng.uniform(0, 6.28, self.m)
        self.a = rng.uniform(0.1, amp, self.m)
        self.b = np.concatenate([rng.uniform(0.7, 2, 1), rng.normal(size=3), rng.uniform(0.7, 2, 1), rng.normal(size=npassive)])

    def prim(self, x, y, z):
        return np.stack([self.b[v] + self.a[v] * np.sin(self.k[v, 0] * x + self.k[v, 1] * y + self.k[v, 2] * z + self.ph[v]) for v in range(self.m)])


def random_fields(rng, npassive=0):
    return Fields(rng, npassive)


def limiter_opts(rng, convex_ok=True):
    PAD = [None, {"rho": (0.0, np.inf), "P": (0.0, np.inf)}, {"P": (0.8, np.inf), "rho": (0.7, 1.6)}, {"vx": (-0.9, 0.8), "rho": (0.8, np.inf)}][rng.integers(4)]
    return dict(limiter=["minmod", "moncen"][rng.integers(2)], NAD=float(rng.choice([0.0, 1e-5, 1e-2, 0.2])),
                NAD_mode=["global", "local"][rng.integers(2)], NAD_range=["relative", "absolute"][int(rng.uniform() < 0.25)],
                NAD_vars=[None, None, ("rho",), ("P", "vy"), ("rho", "vx", "P")][rng.integers(5)], PAD=PAD,
                SED=bool(rng.uniform() < 0.6), SED_tolerance=float(rng.choice([1e-10, 1e-3])), convex=bool(convex_ok and rng.uniform() < 0.4),
                force_trouble=bool(rng.uniform() < 0.15))


def needed(p):
    P = max(p)
    G = max(ss(P) + 1, 2 * ss(P), 3)
    return [G + 2 * ss(q) for q in p]


def random_cfg(rng, ndim=None, lim=None, bc="periodic", pmax=None, npass=None, solver=None, maxcells=6000, slack=4, dims=None, p=None):
    nd = int(ndim or rng.choice([1, 1, 2, 2, 3]))
    if dims is None:
        dims = sorted(rng.choice(3, nd, replace=False).tolist())
    nd = len(dims)
    top = pmax if pmax is not None else {1: 8, 2: 4, 3: 2}[nd]
    P = [0, 0, 0]
    for d in dims:
        P[d] = int(rng.integers(0, top + 1))
    if p is not None:
        P = list(p)
    need = needed(P)
    n = [1, 1, 1]
    for d in dims:
        n[d] = int(max(need[d], 2) + rng.integers(0, slack + 1))
    dom = [(float(a), float(a + b)) for a, b in zip(rng.normal(size=3).round(3), rng.uniform(0.4, 2, 3).round(3))]
    for d in range(3):
        if d not in dims and rng.uniform() < 0.7:  # thin directions may be the smallest or the largest width
            dom[d] = (0.0, float(rng.choice([1.0, 0.05, 7.0])))
    k = int(rng.integers(0, 3)) if npass is None else npass
    L = None
    if lim if lim is not None else rng.uniform() < 0.5:
        L = limiter_opts(rng, convex_ok=nd < 3)
    cfg = dict(n=tuple(n), p=tuple(P), dom=dom, gamma=float(rng.choice([1.4, 5 / 3, 1.2])), floor=1e-10,
               solver=solver or ["hllc", "llf", "advection_upwind"][rng.choice(3, p=[0.5, 0.35, 0.15])],
               CFL=float(rng.uniform(0.2, 0.8)), bc=[("periodic", "periodic")] * 3, bcval=[(None, None)] * 3,
               lim=L, passives=["a", "s2", "zz"][:k], fixed_dt=None, dims=dims)
    if bc != "periodic":
        kinds = ["periodic", "free", "outflow", "reflective", "dirichlet"] if bc == "any" else list(bc)
        B, V = [], []
        for d in range(3):
            if d not in dims:
                B.append(("periodic", "periodic"))
                V.append((None, None))
                continue
            q = kinds[rng.integers(len(kinds))]
            if q == "periodic":
                B.append((q, q))
                V.append((None, None))
            else:
                ks = [c for c in kinds if c != "periodic"]
                b = (q, ks[rng.integers(len(ks))])
                B.append(b)
                V.append(tuple(boundary_value(rng, cfg) if c == "dirichlet" else None for c in b))
        cfg["bc"], cfg["bcval"] = B, V
    return cfg


def boundary_value(rng, cfg):
    k = len(cfg["passives"])
    f = Fields(rng, k, amp=0.2)
    gam = cfg["gamma"]
    if rng.uniform() < 0.4:
        return cons(f.prim(0.1, 0.2, 0.3), gam)
    om = float(rng.uniform(0.5, 2))

    def val(x, y, z, t):
        w = f.prim(x, y, z)
        w[0] = w[0] * (1 + 0.2 * np.sin(om * t))
        w[1] = w[1] + 0.3 * t
        return cons(w, gam)

    return val


def random_state(rng, cfg, style=None):
    """conserved cell averages of a random positive state"""
    k = len(cfg["passives"])
    m = 5 + k
    n = cfg["n"]
    style = int(rng.integers(4)) if style is None else style
    w = np.empty((m,) + n)
    if style == 0:  # mild noise
        w[0] = rng.uniform(0.9, 1.1, n)
        w[1:4] = rng.normal(size=(3, 1, 1, 1)) * 0.7 + 0.1 * rng.normal(size=(3,) + n)
        w[4] = rng.uniform(0.9, 1.1, n)
    elif style == 1:  # strong noise
        w[0] = np.exp(0.2 * rng.normal(size=n))
        w[1:4] = 0.5 * rng.normal(size=(3,) + n)
        w[4] = np.exp(0.25 * rng.normal(size=n))
    else:  # smooth field plus (style 3) a noisy block
        f = Fields(rng, k)
        hh = widths(cfg)
        co = [cfg["dom"][d][0] + (np.arange(n[d]) + 0.5) * hh[d] for d in range(3)]
        w = f.prim(*np.meshgrid(*co, indexing="ij"))
        w[1:4] *= 0.6
        # break exact degeneracies in directions the wave does not vary along
        w = w * (1 + 0.01 * rng.normal(size=w.shape))
        if style == 3:
            blk = tuple(slice(s, s + max(1, n[d] // 3)) for d, s in enumerate([int(rng.integers(0, n[d])) for d in range(3)]))
            w[(0,) + blk] *= 1.7
            w[(4,) + blk] *= 2.2
    if k and style < 2:
        w[5:] = rng.normal(size=(k, 1, 1, 1)) + 0.3 * rng.normal(size=(k,) + n)
    if cfg["solver"] == "advection_upwind":
        w[1:4] = rng.normal(size=(3, 1, 1, 1)) * np.ones((3,) + n)
    return cons(w, cfg["gamma"])


def make(cfg, u0, **over):
    """the real solver for a configuration, started from conserved cell averages u0"""
    IC = fvhoe("initial_conditions", "InitialCondition")

    class Given(IC):
        def base_ic(self):
            def f(x, y, z):
                return u0[:5] 

            return f

    BC = fvhoe("boundary_conditions", "BoundaryCondition")
    kw = dict(w0=Given(), w0_passives={k: (lambda x, y, z, q=q: u0[5 + q]) for q, k in enumerate(cfg["passives"])} or None,
              nx=cfg["n"][0], ny=cfg["n"][1], nz=cfg["n"][2], px=cfg["p"][0], py=cfg["p"][1], pz=cfg["p"][2],
              x=cfg["dom"][0], y=cfg["dom"][1], z=cfg["dom"][2], CFL=cfg["CFL"], gamma=cfg["gamma"], riemann_solver=cfg["solver"],
              conservative_ic=True, fv_ic=True, fixed_dt=cfg.get("fixed_dt"), progress_bar=False, csq_floor=cfg["floor"])
    if any(b != ("periodic", "periodic") for b in cfg["bc"]) or cfg.get("explicit_bc"):
        kw["bc"] = BC(**{d: b for d, b in zip("xyz", cfg["bc"])}, **{d + "_value": v for d, v in zip("xyz", cfg["bcval"])})
    L = cfg["lim"]
    if L is not None:
        kw.update(a_posteriori_slope_limiting=True, slope_limiter=L["limiter"], force_trouble=L["force_trouble"], NAD=L["NAD"], NAD_mode=L["NAD_mode"],
                  NAD_range=L["NAD_range"], NAD_vars=L["NAD_vars"], PAD=L["PAD"], SED=L["SED"], SED_tolerance=L["SED_tolerance"], convex=L["convex"])
    kw.update(over)
    s = fvhoe("solver", "EulerSolver")(**kw)
    return s


def summary(cfg):
    return {k: (v if k != "bcval" else str(v)) for k, v in cfg.items()}


METHODS = ("euler", "ssprk2", "ssprk3", "rk4")
TABLEAU = {
    "euler": ([[]], [1.0]),
    "ssprk2": ([[], [1.0]], [0.5, 0.5]),
    "ssprk3": ([[], [1.0], [0.25, 0.25]], [1 / 6, 1 / 6, 2 / 3]),
    "rk4": ([[], [0.5], [0.0, 0.5], [0.0, 0.0, 1.0]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
}


def rk_step(cfg, u, t, method, target=None, f=None):
    """reference step: (dt, new state, list of stage rhs dicts)"""
    A, b = TABLEAU[method]
    f = f or (lambda v, tt: rhs(cfg, v, tt))
    st = [f(u, t)]
    dt = st[0]["dt"]
    if target is not None:
        dt = min(dt, target - t)
    for row in A[1:]:
        c = sum(row)
        st.append(f(u + dt * sum(a * s["dudt"] for a, s in zip(row, st)), t + c * dt))
    return dt, u + dt * sum(q * s["dudt"] for q, s in zip(b, st)), st


def ok_state(u, gamma, unit=1.0):
    w = prims(u, gamma)
    return bool(np.all(np.isfinite(u)) and np.all(w[0] > 0.05 * unit) and np.all(w[4] > 0.02 * unit))
