"""Contracts: equation of state, physical fluxes, Riemann solvers, time-step size."""
import numpy as np

from .core import ob, fvhoe
from . import symnp as sn, terms as tm

V = {"rho": 0, "x": 1, "y": 2, "z": 3, "e": 4}
DIMS = "xyz"
NP = [dict(np_=k) for k in (0, 1, 2)]


def hydro_state(np_):
    HydroState = fvhoe("hydro", "HydroState")
    return HydroState(passive_scalars=tuple("c%d" % i for i in range(np_)))


def shape3(h):
    return [h.int("n%d" % k, 1, small=3) for k in range(3)]


def gas(h):
    return h.real("gamma", 1), h.real("csq_floor", 0)


def pos_rho(idx, v):
    return v > 0 if idx[0] == 0 else None


def pos_rho_P(idx, v):
    return v > 0 if idx[0] in (0, 4) else None


def kinetic(w, i):
    return 0.5 * w[(0,) + i] * (w[(1,) + i] ** 2 + w[(2,) + i] ** 2 + w[(3,) + i] ** 2)


def energy(w, g, i):
    return w[(4,) + i] / (g - 1) + kinetic(w, i)


def flux_spec(w, g, dim, i, np_, pressure=True):
    """physical Euler flux in direction dim at cell i"""
    d = 1 + DIMS.index(dim)
    rho, v, P = w[(0,) + i], w[(d,) + i], w[(4,) + i]
    p = P if pressure else 0 * P
    out = [rho * v]
    for k in (1, 2, 3):
        out.append(rho * v * w[(k,) + i] + (p if k == d else 0))
    out.append((energy(w, g, i) + p) * v)
    for s in range(np_):
        out.append(rho * w[(5 + s,) + i] * v)
    return out


def cons_spec(w, g, i, np_):
    rho = w[(0,) + i]
    return [rho] + [rho * w[(k,) + i] for k in (1, 2, 3)] + [energy(w, g, i)] + [rho * w[(5 + s,) + i] for s in range(np_)]


# ------------------------------------------------------------------ C10
@ob("C10", "primitive to conservative", "fvhoe.hydro.compute_conservatives", cases=NP)
def c10_cons(h, np_):
    f = fvhoe("hydro", "compute_conservatives")
    hs = hydro_state(np_)
    n = shape3(h)
    g, _ = gas(h)
    w = h.array("w", [5 + np_] + n, pred=pos_rho)
    w0 = w.copy()
    u = f(hs, w, g)
    h.same_shape("shape", u, w.shape)
    h.forall("density, momentum, energy and scalar mass of the state", n,
             lambda i: [h.eq(u[(k,) + i], s) for k, s in enumerate(cons_spec(w0, g, i, np_))])
    h.forall_eq("argument unchanged", w, w0)


@ob("C10", "conservative to primitive", "fvhoe.hydro.compute_primitives", cases=NP)
def c10_prim(h, np_):
    f = fvhoe("hydro", "compute_primitives")
    hs = hydro_state(np_)
    n = shape3(h)
    g, _ = gas(h)
    u = h.array("u", [5 + np_] + n, pred=pos_rho)
    u0 = u.copy()
    w = f(hs, u, g)
    h.same_shape("shape", w, u.shape)
    h.forall("the primitives are those whose conservatives are the argument", n,
             lambda i: [h.eq(u0[(k,) + i], s) for k, s in enumerate(cons_spec(w, g, i, np_))])
    h.forall_eq("argument unchanged", u, u0)


@ob("C10", "conversions are mutually inverse",
    ["fvhoe.hydro.compute_primitives", "fvhoe.hydro.compute_conservatives"], cases=NP)
def c10_inv(h, np_):
    P, C = fvhoe("hydro", "compute_primitives", "compute_conservatives")
    hs = hydro_state(np_)
    n = shape3(h)
    g, _ = gas(h)
    w = h.array("w", [5 + np_] + n, pred=pos_rho)
    back = P(hs, C(hs, w, g), g)
    h.forall("primitives recovered", n, lambda i: [h.eq(back[(k,) + i], w[(k,) + i]) for k in range(5 + np_)])
    u = h.array("u", [5 + np_] + n, pred=pos_rho)
    back2 = C(hs, P(hs, u, g), g)
    h.forall("conservatives recovered", n, lambda i: [h.eq(back2[(k,) + i], u[(k,) + i]) for k in range(5 + np_)])


@ob(["C10", "C13"], "floored sound speed", "fvhoe.hydro.compute_sound_speed")
def c10_sound(h):
    f = fvhoe("hydro", "compute_sound_speed")
    n = shape3(h)
    g, fl = gas(h)
    w = h.array("w", [5] + n, pred=pos_rho)
    c = f(w, g, fl)
    h.forall("c^2 = max(gamma P / rho, floor) and c > 0", n, lambda i: [
        h.eq(c[i] * c[i], h.max(g * w[(4,) + i] / w[(0,) + i], fl)), h.lt(0, c[i])])


@ob("C10", "physical flux", "fvhoe.hydro.compute_fluxes", cases=[dict(np_=k, dim=d) for k in (0, 2) for d in DIMS])
def c10_flux(h, np_, dim):
    f, C = fvhoe("hydro", "compute_fluxes", "compute_conservatives")
    hs = hydro_state(np_)
    n = shape3(h)
    g, _ = gas(h)
    w = h.array("w", [5 + np_] + n, pred=pos_rho)
    w0 = w.copy()
    u = C(hs, w, g)
    u0 = u.copy()
    F = f(hs, w, u, g, dim)
    h.same_shape("shape", F, w.shape)
    h.forall("Euler flux", n, lambda i: [h.eq(F[(k,) + i], s) for k, s in enumerate(flux_spec(w0, g, dim, i, np_))])
    G = f(hs, w, u, g, dim, include_pressure=False)
    h.forall("pressureless flux", n,
             lambda i: [h.eq(G[(k,) + i], s) for k, s in enumerate(flux_spec(w0, g, dim, i, np_, False))])
    h.forall_eq("w unchanged", w, w0)
    h.forall_eq("u unchanged", u, u0)


# ------------------------------------------------------------------ C08 / C09
SOLVERS = ("llf", "hllc", "advection_upwind")


def solver(name):
    return fvhoe("riemann_solvers", name)


@ob("C08", "numerical flux of equal states is the physical flux", ["fvhoe.riemann_solvers.*", "fvhoe.hydro.compute_fluxes"],
    cases=[dict(rs=s, dim=d, np_=k) for s in SOLVERS for d in DIMS for k in (0, 1)], cost=3)
def c08(h, rs, dim, np_):
    f = solver(rs)
    hs = hydro_state(np_)
    n = shape3(h)
    g, fl = gas(h)
    w = h.array("w", [5 + np_] + n, pred=pos_rho)
    w0 = w.copy()
    F = f(hs, (w, w), g, dim, fl)
    h.same_shape("shape", F, w.shape)
    h.forall("F(w, w) = f(w)", n,
             lambda i: [h.eq(F[(k,) + i], s) for k, s in enumerate(flux_spec(w0, g, dim, i, np_, rs != "advection_upwind"))])
    h.forall_eq("states unchanged", w, w0)


@ob("C08", "pointwise in the interface", "fvhoe.riemann_solvers.*", cases=[dict(rs=s, dim=d) for s in SOLVERS for d in DIMS])
def c08_local(h, rs, dim):
    """the flux at an interface depends on the two states at that interface alone"""
    f = solver(rs)
    hs = hydro_state(1)
    n = shape3(h)
    g, fl = gas(h)
    wl = h.array("wl", [6] + n, pred=pos_rho)
    wr = h.array("wr", [6] + n, pred=pos_rho)
    F = f(hs, (wl, wr), g, dim, fl)
    i = h.skolem(n)
    one = f(hs, tuple(a[(slice(None),) + tuple(slice(q, q + 1) for q in i)] for a in (wl, wr)), g, dim, fl)
    for k in range(6):
        h.prove_eq("row %d" % k, F[(k,) + i], one[k, 0, 0, 0])


def states(h, n, np_):
    wl = h.array("wl", [5 + np_] + n, pred=pos_rho)
    wr = h.array("wr", [5 + np_] + n, pred=pos_rho)
    return wl, wr


def csound(h, w, g, fl, i):
    return h.sqrt(h.max(g * w[(4,) + i] / w[(0,) + i], fl))


@ob("C09", "llf is the average flux minus half the fastest signal speed times the jump", "fvhoe.riemann_solvers.llf",
    cases=[dict(dim=d, np_=k) for d in DIMS for k in (0, 1)], cost=2)
def c09_llf(h, dim, np_):
    f = solver("llf")
    hs = hydro_state(np_)
    n = shape3(h)
    g, fl = gas(h)
    wl, wr = states(h, n, np_)
    F = f(hs, (wl, wr), g, dim, fl)
    d = 1 + DIMS.index(dim)

    def spec(i):
        s = h.max(h.abs(wl[(d,) + i]) + csound(h, wl, g, fl, i), h.abs(wr[(d,) + i]) + csound(h, wr, g, fl, i))
        fl_, fr_ = flux_spec(wl, g, dim, i, np_), flux_spec(wr, g, dim, i, np_)
        ul, ur = cons_spec(wl, g, i, np_), cons_spec(wr, g, i, np_)
        return [h.eq(F[(k,) + i], 0.5 * (fl_[k] + fr_[k]) - 0.5 * s * (ur[k] - ul[k])) for k in range(5 + np_)]

    h.forall("Rusanov form", n, spec)


@ob("C09", "hllc keeps isolated contacts exactly", "fvhoe.riemann_solvers.hllc", cases=[dict(dim=d, np_=1) for d in DIMS], cost=3)
def c09_contact(h, dim, np_):
    """equal normal velocity and pressure: everything else is advected with its upwind value"""
    f = solver("hllc")
    hs = hydro_state(np_)
    n = shape3(h)
    g, fl = gas(h)
    wl, wr = states(h, n, np_)
    d = 1 + DIMS.index(dim)
    v, P = h.real("v"), h.real("P")
    for a in (wl, wr):
        a[d] = v
        a[4] = P
    F = f(hs, (wl, wr), g, dim, fl)

    def spec(i):
        a, b = flux_spec(wl, g, dim, i, np_), flux_spec(wr, g, dim, i, np_)
        out = []
        for k in range(5 + np_):
            rest = P if k == d else 0
            out.append(h.eq(F[(k,) + i], h.ite(h.lt(0, v), a[k], h.ite(h.lt(v, 0), b[k], rest))))
        return out

    h.forall("upwind contact flux", n, spec)


def stub_sound(h):
    """contract of compute_sound_speed (proved under C10): positive, c^2 >= gamma P / rho, a function of (rho, P)"""

    def c(w, gamma, csq_floor):
        w = sn.as_sym(w)
        f = w.fn()
        g, fl = sn.to_t(gamma), sn.to_t(csq_floor)
        ctx = sn.ctx()

        def fn(idx):
            rho, P = f((tm.ZERO,) + idx), f((tm.num(4),) + idx)
            t = tm.app("csound", (rho, P, g, fl), "R")
            ctx.assume(tm.lt(tm.ZERO, t))
            ctx.assume(tm.le(tm.mul(g, P), tm.mul(rho, tm.mul(t, t))))
            return t

        return sn.SymArray.new(w.tshape[1:], fn, "f")

    h.stub("hydro", "compute_sound_speed", c)


def fan(h, wl, wr, g, fl, d):
    """Davis wave speeds and the speed of the contact, with the lemmas that order them"""
    cs = fvhoe("hydro", "compute_sound_speed")
    i = (0, 0, 0)
    c = h.max(cs(wl, g, fl)[i], cs(wr, g, fl)[i])
    vl, vr = wl[(d,) + i], wr[(d,) + i]
    rl, rr, pl, pr = wl[(0,) + i], wr[(0,) + i], wl[(4,) + i], wr[(4,) + i]
    SL, SR = h.min(vl, vr) - c, h.max(vl, vr) + c
    a, b = rl * (vl - SL), rr * (SR - vr)
    num = a * vl + b * vr + pl - pr
    SM = num / (a + b)
    if h.sym:
        cl, cr = cs(wl, g, fl)[i], cs(wr, g, fl)[i]
        mx, mn = h.max(vl, vr), h.min(vl, vr)
        h.lemma("c >= cl and cr", h.and_(h.le(cl, c), h.le(cr, c)))
        h.lemma("c > 0", h.lt(0, c))
        h.lemma("c <= vl - SL", h.le(c, vl - SL))
        h.lemma("c <= SR - vr", h.le(c, SR - vr))
        for side, r, D, m, p, cc in (("left", rl, vl - SL, a, pl, cl), ("right", rr, SR - vr, b, pr, cr)):
            h.apply("mass flux, " + side, lambda r, c, D: ([h.lt(0, r), h.lt(0, c), h.le(c, D)], h.lt(0, r * D)), r, c, D)
            h.apply("pressure bound, " + side,
                    lambda r, c, D, p, cc, g: ([h.lt(0, r), h.lt(0, c), h.le(c, D), h.lt(0, cc), h.le(cc, c), h.lt(1, g),
                                                h.lt(0, p), h.le(g * p, r * (cc * cc))], h.lt(p, r * D * c)), r, c, D, p, cc, g)
        h.apply("contact left of the right wave",
                lambda a, b, vl, vr, pl, pr, mx, c: ([h.lt(0, a), h.lt(0, b), h.le(vl, mx), h.le(vr, mx), h.lt(0, pr), h.lt(0, c),
                                                      h.lt(pl, a * c)],
                                                     h.lt((a * vl + b * vr + pl - pr) / (a + b), mx + c)), a, b, vl, vr, pl, pr, mx, c)
        h.apply("contact right of the left wave",
                lambda a, b, vl, vr, pl, pr, mn, c: ([h.lt(0, a), h.lt(0, b), h.le(mn, vl), h.le(mn, vr), h.lt(0, pl), h.lt(0, c),
                                                      h.lt(pr, b * c)],
                                                     h.lt(mn - c, (a * vl + b * vr + pl - pr) / (a + b))), a, b, vl, vr, pl, pr, mn, c)
        h.apply("denominator", lambda a, b: ([h.lt(0, a), h.lt(0, b)], h.lt(0, a + b)), a, b)
    return SL, SM, SR


def name_fan(h, hs, wl, wr, g, fl, d, images=(), side=None):
    """goals below see the wave speeds, the contact speed and its pressure as variables with the relations between
    them.  images: (left, right) of the mirrored problem"""
    if not h.sym:
        return
    cs = fvhoe("hydro", "compute_sound_speed")
    i = (0, 0, 0)

    def parts(wl, wr):
        cl, cr = cs(wl, g, fl)[i], cs(wr, g, fl)[i]
        c = h.max(cl, cr)
        vl, vr = wl[(d,) + i], wr[(d,) + i]
        mn, mx = h.min(vl, vr), h.max(vl, vr)
        rl, rr, pl, pr = wl[(0,) + i], wr[(0,) + i], wl[(4,) + i], wr[(4,) + i]
        a, b = rl * (vl - (mn - c)), rr * (mx + c - vr)
        SM = (a * vl + b * vr + pl - pr) / (a + b)
        PS = (a * pr + b * pl + a * b * (vl - vr)) / (a + b)
        return c, mn, mx, SM, PS, a, b, (vl, vr, rl, rr, pl, pr)

    c, mn, mx, SM, PS, a, b, (vl, vr, rl, rr, pl, pr) = parts(wl, wr)
    v = lambda k: h.real("fan_" + k)
    names = [(SM, v("sm")), (PS, v("ps")), (mn, v("mn")), (mx, v("mx")), (c, v("c"))]
    facts = [("gas", h.and_(h.lt(0, rl), h.lt(0, rr), h.lt(1, g))), ("order", h.and_(h.lt(mn - c, SM), h.lt(SM, mx + c))), ("c > 0", h.lt(0, c)),
             ("bounds", h.and_(h.le(mn, vl), h.le(mn, vr), h.le(vl, mx), h.le(vr, mx))),
             ("pressure behind the left wave", h.eq(PS, pl + a * (vl - SM))), ("pressure behind the right wave", h.eq(PS, pr + b * (SM - vr)))]
    if side:  # the contact pressure by the relation across that side's wave
        ok = h.lemma("pressure at the contact, " + side, facts[4 if side == "left" else 5][1])
        if not ok:
            return
        sm, (mn_, mx_, c_) = names[0][1], [q[1] for q in names[2:5]]
        names[1] = (PS, pl + rl * (vl - (mn_ - c_)) * (vl - sm) if side == "left" else pr + rr * (mx_ + c_ - vr) * (sm - vr))
        facts = facts[:4]
    C = fvhoe("hydro", "compute_conservatives")
    names += [(C(hs, w, g)[(4,) + i], v(k)) for k, w in (("EL", wl), ("ER", wr))]
    names.append((SM * PS, names[0][1] * names[1][1]))
    if images:
        names += [(C(hs, w, g)[(4,) + i], v(k)) for k, w in (("ER", images[0]), ("EL", images[1]))
                  if h.lemma("image of the energy", h.eq(C(hs, w, g)[(4,) + i], C(hs, wr if k == "ER" else wl, g)[(4,) + i]))]
        c2, mn2, mx2, SM2, PS2 = parts(*images)[:5]
        ok = [h.lemma("image of the " + k, h.eq(x, y)) for k, x, y in (("contact speed", SM2, -SM), ("contact pressure", PS2, PS), ("slowest velocity", mn2, -mx), ("fastest velocity", mx2, -mn), ("sound speed", c2, c))]
        if all(ok):
            names += [(SM2 * PS2, -names[0][1] * names[1][1]), (SM2, -names[0][1]), (PS2, names[1][1]), (mn2, -names[3][1]), (mx2, -names[2][1]), (c2, names[4][1])]
    h.generalize(names, facts)


@ob("C09", "hllc is the flux of the three-wave fan", "fvhoe.riemann_solvers.hllc",
    cases=[dict(dim=d, np_=k) for d in DIMS for k in (0, 1)], cost=6, timeout=30, budget=300,
    assumes=["hllc is checked against the contract of compute_sound_speed (proved under C10)"])
def c09_fan(h, dim, np_):
    """Rankine-Hugoniot across each wave: F = F_K + S_K (U*_K - U_K) with Davis wave speeds"""
    f = solver("hllc")
    stub_sound(h)
    hs = hydro_state(np_)
    n = [1, 1, 1]
    g, fl = gas(h)
    wl = h.array("wl", [5 + np_] + n, pred=pos_rho_P)
    wr = h.array("wr", [5 + np_] + n, pred=pos_rho_P)
    d = 1 + DIMS.index(dim)
    i = (0, 0, 0)
    if not h.sym and h.sample % 2:
        for a in (wl, wr):
            a[d] *= 0.3
    F = f(hs, (wl, wr), g, dim, fl)
    SL, SM, SR = fan(h, wl, wr, g, fl, d)
    Fl, Fr = flux_spec(wl, g, dim, i, np_), flux_spec(wr, g, dim, i, np_)
    Ul, Ur = cons_spec(wl, g, i, np_), cons_spec(wr, g, i, np_)

    def star(w, U, S_):
        v, r, p = w[(d,) + i], w[(0,) + i], w[(4,) + i]
        q = r * (S_ - v) / (S_ - SM)
        out = [q] + [q * (SM if k == d else w[(k,) + i]) for k in (1, 2, 3)]
        out.append(q * (U[4] / r + (SM - v) * (SM + p / (r * (S_ - v)))))
        return out + [q * w[(5 + s,) + i] for s in range(np_)]

    sl, sr = star(wl, Ul, SL), star(wr, Ur, SR)
    for k in range(5 + np_):
        h.prove("supersonic to the right, row %d" % k, h.implies(h.lt(0, SL), h.eq(F[(k,) + i], Fl[k])))
        h.prove("supersonic to the left, row %d" % k, h.implies(h.lt(SR, 0), h.eq(F[(k,) + i], Fr[k])))
    name_fan(h, hs, wl, wr, g, fl, d, side="left")
    for k in range(5 + np_):
        h.prove("left fan, row %d" % k, h.implies(h.and_(h.lt(SL, 0), h.lt(0, SM)), h.eq(F[(k,) + i], Fl[k] + SL * (sl[k] - Ul[k]))))
    name_fan(h, hs, wl, wr, g, fl, d, side="right")
    for k in range(5 + np_):
        h.prove("right fan, row %d" % k, h.implies(h.and_(h.lt(SM, 0), h.lt(0, SR)), h.eq(F[(k,) + i], Fr[k] + SR * (sr[k] - Ur[k]))))


@ob("C09", "advection solver takes the upwind side", "fvhoe.riemann_solvers.advection_upwind", cases=[dict(dim=d, np_=1) for d in DIMS])
def c09_adv(h, dim, np_):
    f = solver("advection_upwind")
    hs = hydro_state(np_)
    n = shape3(h)
    g, fl = gas(h)
    wl, wr = states(h, n, np_)
    d = 1 + DIMS.index(dim)
    wr[d] = wl[d]  # velocity is continuous
    F = f(hs, (wl, wr), g, dim, fl)

    def spec(i):
        a, b = flux_spec(wl, g, dim, i, np_, False), flux_spec(wr, g, dim, i, np_, False)
        v = wl[(d,) + i]
        return [h.eq(F[(k,) + i], h.ite(h.lt(0, v), a[k], h.ite(h.lt(v, 0), b[k], 0))) for k in range(5 + np_)]

    h.forall("upwind flux without pressure", n, spec)


# ------------------------------------------------------------------ C13
@ob("C13", "time step from the fastest signal", "fvhoe.hydro.hydro_dt", cases=[dict(ndim=k, nv=v) for k in (1, 2, 3) for v in (5, 6)])
def c13(h, ndim, nv):
    f = fvhoe("hydro", "hydro_dt")
    n = shape3(h)
    g, fl = gas(h)
    hh, cfl = h.real("h", 0), h.real("CFL", 0)
    w = h.array("w", [nv] + n, pred=pos_rho)
    w0 = w.copy()
    dt = f(w, hh, ndim, cfl, g, fl)
    c = fvhoe("hydro", "compute_sound_speed")(w0, g, fl)
    speed = np.abs(w0[1]) + np.abs(w0[2]) + np.abs(w0[3]) + ndim * c
    h.forall("dt times every signal speed is at most CFL h", n, lambda i: h.le(dt * speed[i], cfl * hh))
    M = np.max(speed)
    h.prove_eq("dt is the largest such step", dt * M, cfl * hh)
    h.prove("dt > 0", h.lt(0, dt))
    h.forall_eq("argument unchanged", w, w0)


@ob("C13", "advection step", "fvhoe.hydro.advection_dt")
def c13_adv(h):
    f = fvhoe("hydro", "advection_dt")
    hh, cfl = h.real("h", 0), h.real("CFL", 0)
    vx, vy, vz = (h.real(q, 0) for q in ("vx", "vy", "vz"))
    dt = f(hh, vx, vy, vz, cfl)
    h.prove_eq("dt (vx + vy + vz) = CFL h", dt * (vx + vy + vz), cfl * hh)
