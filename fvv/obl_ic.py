"""Ready-made problems (C26): every point gets the state the problem's description gives it."""
import numpy as np

from .core import ob, fvhoe
from . import symnp as sn, terms as tm

M = "fvhoe.initial_conditions."
EPS = 1e-9  # points this close to a discontinuity may get either side's state


def mesh(h, spread=None):
    n = [h.int("n" + d, 1, small=7) for d in "xyz"]
    lo, hi = spread or (-1.0, 2.0)
    gen = lambda r, s: r.uniform(lo, hi, s) if r.integers(2) else r.uniform(0, 1, s)
    return n, [h.array("c" + d, n, gen=gen) for d in "xyz"]


def state(h, cls, n, X, **kw):
    """(5, nx, ny, nz) primitive variables of the problem, through the interface the solver uses"""
    ic = fvhoe("initial_conditions", cls)(**kw).build_ic(fvhoe("hydro", "HydroState")())
    keep = [x.copy() for x in X]
    out = ic(x=X[0], y=X[1], z=X[2])
    h.same_shape("five variables per point", out, [5] + n)
    for x, k, d in zip(X, keep, "xyz"):
        h.forall("coordinates %s untouched" % d, n, lambda i: h.eq(x[i], k[i]))
    return out, keep


def point(h, n, out, X, want):
    """want(x, y, z) -> [(condition or None, {variable: value})]"""
    names = ["rho", "vx", "vy", "vz", "P"]

    def at(i):
        goals = []
        for cond, vals in want(*[x[i] for x in X]):
            for v, q in vals.items():
                g = h.eq(out[(names.index(v),) + i], q)
                goals.append(g if cond is None else h.implies(cond, g))
        return goals

    h.forall("state of every point", n, at)


def fn(h, name, x):
    return h.uf(name, x) if h.sym else getattr(np, name)(x)


def pair(h, name):
    return (h.real(name + "_1"), h.real(name + "_2"))


def regions(h, inside, outside, a, b):
    return [(inside, a), (outside, b)]


def between(h, x, lo, hi):
    return h.and_(h.lt(lo + EPS, x), h.lt(x, hi - EPS))


def outside(h, x, lo, hi):
    return h.or_(h.lt(x, lo - EPS), h.lt(hi + EPS, x))


DIMS = ("x", "y", "z", "xy", "xz", "yz", "xyz", "zx")


@ob("C26", "sinusoidal density wave", [M + "Sinus.base_ic", M + "InitialCondition.build_ic"], cases=[dict(dims=d) for d in DIMS], samples=6)
def sinus(h, dims):
    n, X = mesh(h)
    rho, P, v = pair(h, "rho"), h.real("P"), [h.real("v" + d) for d in "xyz"]
    out, X = state(h, "Sinus", n, X, dims=dims, rho_min_max=rho, P=P, vx=v[0], vy=v[1], vz=v[2])

    def want(x, y, z):
        r = sum(c for c, d in zip((x, y, z), "xyz") if d in dims)
        s = fn(h, "sin", 2 * np.pi * r)
        return [(None, dict(rho=(rho[1] - rho[0]) * (0.5 * s + 0.5) + rho[0], vx=v[0], vy=v[1], vz=v[2], P=P))]

    point(h, n, out, X, want)


@ob("C26", "square density wave", [M + "Square.base_ic", M + "InitialCondition.build_ic"], cases=[dict(dims=d) for d in DIMS], samples=6)
def square(h, dims):
    n, X = mesh(h)
    rho, P, v = pair(h, "rho"), h.real("P"), [h.real("v" + d) for d in "xyz"]
    out, X = state(h, "Square", n, X, dims=dims, rho_min_max=rho, P=P, vx=v[0], vy=v[1], vz=v[2])

    def want(x, y, z):
        c = [q for q, d in zip((x, y, z), "xyz") if d in dims]
        return [(None, dict(vx=v[0], vy=v[1], vz=v[2], P=P)),
                (h.and_(*[between(h, q, 0.25, 0.75) for q in c]), dict(rho=rho[1])),
                (h.or_(*[outside(h, q, 0.25, 0.75) for q in c]), dict(rho=rho[0]))]

    point(h, n, out, X, want)


@ob("C26", "slotted disk", [M + "SlottedDisk.base_ic", M + "InitialCondition.build_ic"], samples=40)
def disk(h):
    n, X = mesh(h, (0.3, 1.0))
    rho, P = pair(h, "rho"), h.real("P")
    out, X = state(h, "SlottedDisk", n, X, rho_min_max=rho, P=P)

    def want(x, y, z):
        a, b = x - 0.5, y - 0.75
        rsq = a * a + b * b
        slot = h.and_(between(h, a, -0.025, 0.025), h.lt(y, 0.85 - EPS))
        free = h.or_(outside(h, a, -0.025, 0.025), h.lt(0.85 + EPS, y))
        return [(None, dict(vx=0.5 - y, vy=x - 0.5, vz=0, P=P)),
                (h.and_(h.lt(rsq, 0.0225 - EPS), free), dict(rho=rho[1])),
                (h.or_(h.lt(0.0225 + EPS, rsq), slot), dict(rho=rho[0]))]

    point(h, n, out, X, want)


@ob("C26", "normal shock tube", [M + "Shock1D.base_ic", M + "InitialCondition.build_ic"], cases=[dict(dim=d) for d in "xyz"], samples=8)
def shock(h, dim):
    n, X = mesh(h)
    pos, rho, P, v = h.real("pos"), pair(h, "rho"), pair(h, "P"), pair(h, "v")
    out, X = state(h, "Shock1D", n, X, dim=dim, position=pos, rho_left_right=rho, P_left_right=P, v_left_right=v)

    def want(*c):
        r = c["xyz".index(dim)]
        side = lambda k: dict({"v" + d: (v[k] if d == dim else 0) for d in "xyz"}, rho=rho[k], P=P[k])
        return [(h.lt(r, pos - EPS), side(0)), (h.lt(pos + EPS, r), side(1))]

    point(h, n, out, X, want)


@ob("C26", "shock tube of an unknown direction is refused", [M + "Shock1D.base_ic"], samples=1)
def shock_bad(h):
    n, X = mesh(h)
    h.raises("unknown direction", (ValueError, KeyError), lambda: fvhoe("initial_conditions", "Shock1D")(dim="w").build_ic(fvhoe("hydro", "HydroState")())(x=X[0], y=X[1], z=X[2]))


@ob("C26", "double shock tube", [M + "DoubleShock1D.base_ic", M + "InitialCondition.build_ic"], cases=[dict(dim=d) for d in "xyz"], samples=10)
def double(h, dim):
    n, X = mesh(h)
    a = h.real("pos0")
    b = h.real("pos1")
    h.assume(h.lt(a, b))
    tri = lambda q: tuple(h.real("%s_%d" % (q, k)) for k in range(3))
    rho, v, P = tri("rho"), tri("v"), tri("P")
    out, X = state(h, "DoubleShock1D", n, X, dim=dim, positions=(a, b), rhos=rho, vs=v, Ps=P)

    def want(*c):
        r = c["xyz".index(dim)]
        side = lambda k: dict({"v" + d: (v[k] if d == dim else 0) for d in "xyz"}, rho=rho[k], P=P[k])
        return [(h.lt(r, a - EPS), side(0)), (between(h, r, a, b), side(1)), (h.lt(b + EPS, r), side(2))]

    point(h, n, out, X, want)


@ob("C26", "Shu-Osher problem", [M + "ShuOsher1D.base_ic", M + "InitialCondition.build_ic"], cases=[dict(dim=d) for d in "xyz"], samples=10)
def shu(h, dim):
    n, X = mesh(h, (-1, 11))
    out, X = state(h, "ShuOsher1D", n, X, dim=dim)

    def want(*c):
        r = c["xyz".index(dim)]
        side = lambda rho, v, P: dict({"v" + d: (v if d == dim else 0) for d in "xyz"}, rho=rho, P=P)
        return [(h.lt(r, 1 - EPS), side(3.857143, 2.629369, 10.33333)),
                (h.lt(1 + EPS, r), side(1 + 0.2 * fn(h, "sin", 5 * (r - 5)), 0, 1))]

    point(h, n, out, X, want)


@ob("C26", "Kelvin-Helmholtz instability", [M + "KelvinHelmholtz2D.base_ic", M + "InitialCondition.build_ic"], cases=[dict(default=d) for d in (False, True)], samples=15)
def kelvin(h, default):
    n, X = mesh(h)
    sigma, w0 = (0.05 * np.sqrt(2), 0.1) if default else (h.real("sigma", 0.01), h.real("w0"))
    out, X = state(h, "KelvinHelmholtz2D", n, X, **({} if default else dict(sigma=sigma, w0=w0)))

    def want(x, y, z):
        g = lambda c: fn(h, "exp", -((y - c) * (y - c)) / (2 * sigma * sigma))
        vy = w0 * fn(h, "sin", 4 * np.pi * x) * (g(0.25) + g(0.75))
        return [(None, dict(vy=vy, vz=0, P=2.5)),
                (between(h, y, 0.25, 0.75), dict(rho=2, vx=0.5)),
                (outside(h, y, 0.25, 0.75), dict(rho=1, vx=-0.5))]

    point(h, n, out, X, want)


@ob("C26", "double Mach reflection", [M + "DoubleMachReflection2D.base_ic", M + "InitialCondition.build_ic"], samples=20)
def mach(h):
    n, X = mesh(h)
    gam = h.real("gamma", 1)
    out, X = state(h, "DoubleMachReflection2D", n, X, gamma=gam)

    def want(x, y, z):
        s = x - y / float(np.sqrt(3))
        tol = EPS * (1 + h.abs(y))
        side = lambda rho, vx, vy, P: dict(rho=rho, vx=vx, vy=vy, vz=0, P=P)
        return [(h.lt(s, 1 / 6 - tol), side(8, 7.145, -4.125, 116.5)), (h.lt(1 / 6 + tol, s), side(gam, 0, 0, 1))]

    point(h, n, out, X, want)


@ob("C26", "blast in a ball", [M + "ShockTube.base_ic", M + "InitialCondition.build_ic"], cases=[dict(dims=d) for d in ("x", "y", "z", "xy", "zx", "yz", "xyz", "zyx")], samples=12)
def ball(h, dims):
    n, X = mesh(h)
    cen = tuple(h.real("centre_" + d) for d in dims)
    R = h.real("R", 0)
    q = {k: pair(h, k) for k in ("rho", "P", "vx", "vy", "vz")}
    alone = len(dims) == 1 and not h.sym  # a number is accepted for one direction
    out, X = state(h, "ShockTube", n, X, dims=dims, center=cen[0] if alone else cen, radius=R, **{k + "_in_out": v for k, v in q.items()})

    def want(*c):
        rsq = sum((c["xyz".index(d)] - m) * (c["xyz".index(d)] - m) for d, m in zip(dims, cen))
        return [(h.lt(rsq, R * R - EPS), {k: v[0] for k, v in q.items()}), (h.lt(R * R + EPS, rsq), {k: v[1] for k, v in q.items()})]

    point(h, n, out, X, want)
    h.raises("one centre coordinate per direction", ValueError, lambda: fvhoe("initial_conditions", "ShockTube")(dims=dims, center=cen + (0.0,)).build_ic(
        fvhoe("hydro", "HydroState")())(x=X[0], y=X[1], z=X[2]))


@ob("C26", "blast in a box", [M + "ShockTube.base_ic", M + "InitialCondition.build_ic"], cases=[dict(dims=d) for d in ("x", "y", "z", "xy", "xz", "yz", "xyz")], samples=8)
def box(h, dims):
    n, X = mesh(h)
    lim = {d: pair(h, "edge_" + d) for d in dims}
    for d in dims:
        h.assume(h.lt(lim[d][0], lim[d][1]))
    q = {k: pair(h, k) for k in ("rho", "P", "vx", "vy", "vz")}
    out, X = state(h, "ShockTube", n, X, mode="cube", **{d + "_cube": lim[d] for d in dims}, **{k + "_in_out": v for k, v in q.items()})

    def want(*c):
        at = {d: c["xyz".index(d)] for d in dims}
        return [(h.and_(*[between(h, at[d], *lim[d]) for d in dims]), {k: v[0] for k, v in q.items()}),
                (h.or_(*[outside(h, at[d], *lim[d]) for d in dims]), {k: v[1] for k, v in q.items()})]

    point(h, n, out, X, want)
    h.raises("a box needs a direction", ValueError, lambda: fvhoe("initial_conditions", "ShockTube")(mode="cube").build_ic(
        fvhoe("hydro", "HydroState")())(x=X[0], y=X[1], z=X[2]))


@ob("C26", "Athena blast", [M + "AthenaBlast.base_ic", M + "InitialCondition.build_ic"], samples=20)
def athena(h):
    n, X = mesh(h, (-0.15, 0.15))
    out, X = state(h, "AthenaBlast", n, X)

    def want(x, y, z):
        rsq = x * x + y * y
        return [(None, dict(rho=1, vx=0, vy=0, vz=0)), (h.lt(rsq, 0.01 - EPS), dict(P=10)), (h.lt(0.01 + EPS, rsq), dict(P=0.1))]

    point(h, n, out, X, want)


@ob("C26", "Sedov blast", [M + "SedovBlast.base_ic", M + "InitialCondition.build_ic"],
    cases=[dict(dims=d, mode=m) for d in ("x", "y", "z", "xy", "xz", "yz", "xyz") for m in ("corner", "center")], samples=6)
def sedov(h, dims, mode):
    half = [h.int("half" + d, 1, small=3) for d in "xyz"]
    n = [2 * m if d in dims else 1 for m, d in zip(half, "xyz")]
    lo = [h.real("lo" + d) for d in "xyz"]
    w = [h.real("h" + d, 0, scale=0.5) for d in "xyz"]
    X = [h.make(n, (lambda k: lambda i: lo[k] + (i[k] + 0.5) * w[k])(k)) for k in range(3)]
    rho0, E0, E1 = h.real("rho0", 0), h.real("E0", 0), h.real("E1", 0)
    out, _ = state(h, "SedovBlast", n, X, mode=mode, dims=dims, rho0=rho0, E0=E0, E1=E1)
    peak = E1
    for d, q in zip("xyz", w):
        if d in dims:
            peak = peak / (2 * q)

    def at(i):
        hot = []
        for k, d in enumerate("xyz"):
            if d not in dims:
                continue
            hot.append(h.eq(i[k], 0) if mode == "corner" else h.or_(h.eq(i[k], half[k] - 1), h.eq(i[k], half[k])))
        return [h.eq(out[(0,) + i], rho0)] + [h.eq(out[(v,) + i], 0) for v in (1, 2, 3)] + [h.eq(out[(4,) + i], h.ite(h.and_(*hot), peak, E0))]

    h.forall("energy only in the cells around the blast", n, at)
