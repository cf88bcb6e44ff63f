"""Contracts: variable registry, array store, timer (C22)."""
import itertools

import numpy as np

from .core import ob, fvhoe
from . import symnp as sn, terms as tm

ROWS = {"rho": 0, "vx": 1, "mx": 1, "vy": 2, "my": 2, "vz": 3, "mz": 3, "P": 4, "E": 4}
GROUPS = {"v": [1, 2, 3], "m": [1, 2, 3], "active_scalars": [0, 1, 2, 3, 4]}


def registry(names, ndim=4):
    return fvhoe("hydro", "HydroState")(passive_scalars=names, ndim=ndim)


@ob("C22", "every name selects its row", ["fvhoe.hydro.HydroState.__call__", "fvhoe.hydro.HydroState.__init__"],
    cases=[dict(names=n, ndim=d) for n in ((), ("a",), ("z", "a", "q")) for d in (1, 4)], samples=1)
def rows(h, names, ndim):
    hs = registry(names, ndim)
    nv = 5 + len(names)
    h.rec("number of variables", hs.nvars == nv and hs.includes_passives == bool(names))
    n = [h.int("n%d" % k, 1, small=3) for k in range(3)]
    u = h.array("u", [nv] + n)
    table = dict(ROWS)
    table.update({s: 5 + k for k, s in enumerate(names)})
    for rep in range(2):
        for name, r in table.items():
            got = u[hs(name)]
            h.same_shape(name, got, n)
            h.forall(name, n, lambda i: h.eq(got[i], u[(r,) + i]))
        groups = dict(GROUPS)
        if names:
            groups["passive_scalars"] = list(range(5, nv))
        groups[("P", "rho")] = [4, 0]
        groups[("vz",)] = [3]
        if names:
            groups[(names[-1], "E", names[0])] = [nv - 1, 4, 5]
        for name, rs in groups.items():
            got = u[hs(name)]
            h.same_shape(str(name), got, [len(rs)] + n)
            h.forall(str(name), n, lambda i: [h.eq(got[(k,) + i], u[(r,) + i]) for k, r in enumerate(rs)])
    h.raises("unknown name", ValueError, lambda: hs("nonsense"))
    h.raises("unknown name in a tuple", ValueError, lambda: hs(("rho", "nonsense")))
    h.raises("not a name", ValueError, lambda: hs(3))
    if not names:
        h.raises("no passive group", ValueError, lambda: hs("passive_scalars"))


@ob("C22", "bad scalar lists are refused", ["fvhoe.hydro.HydroState.__init__"], samples=1)
def scalars(h):
    HS = fvhoe("hydro", "HydroState")
    h.raises("duplicate", ValueError, lambda: HS(passive_scalars=("a", "a")))
    for r in list(ROWS) + list(GROUPS) + ["passive_scalars"]:
        h.raises("reserved %s" % r, ValueError, lambda: HS(passive_scalars=("a", r)))
    a, b = HS(passive_scalars=("a", "b")), HS(passive_scalars=("b", "a"))
    for k in range(2):
        h.rec("objects do not share their registries", a("a")[0] == 5 and a("b")[0] == 6 and b("b")[0] == 5 and b("a")[0] == 6)


def bounds(h, n, a, b):
    """range selected by the cut (a, b): 0 means open end, negative counts from the end"""
    if h.case(a == 0):
        lo = 0
    elif h.case(a < 0):
        lo = n + a
    else:
        lo = a
    if h.case(b == 0):
        hi = n
    elif h.case(b < 0):
        hi = n + b
    else:
        hi = b
    return lo, hi


@ob("C22", "cuts select the requested range of the requested axis", ["fvhoe.hydro.HydroState.__call__"],
    cases=[dict(how=w, axis=a, var=v) for w in ("axis", "name") for a in (1, 2, 3) for v in (None, "P", "m")] + [dict(how="axis", axis=0, var=None)],
    paths=400, samples=12)
def cuts(h, how, axis, var):
    hs = registry(("s",))
    n = [6] + [h.int("n%d" % k, 1, small=5) for k in (1, 2, 3)]
    u = h.array("u", n)
    L = n[axis]
    a, b = h.int("a", -6, 6), h.int("b", -6, 6)
    lo, hi = bounds(h, L, a, b)
    h.assume(h.le(0, lo) if h.sym else lo >= 0)
    h.assume(h.le(lo, hi) if h.sym else lo <= hi)
    h.assume(h.le(hi, L) if h.sym else hi <= L)
    kw = dict(axis=axis, cut=(a, b)) if how == "axis" else {"xyz"[axis - 1]: (a, b)}
    got = u[hs(var, **kw)] if var else u[hs(**kw)]
    rows = {None: list(range(6)), "P": 4, "m": [1, 2, 3]}[var]
    m = list(n)
    m[axis] = hi - lo
    m = m[1:] if var == "P" else ([3] + m[1:] if var == "m" else m)
    h.same_shape("shape", got, m)

    def want(i):
        if var == "P":
            full = [4] + list(i)
        elif var == "m":
            return None
        else:
            full = list(i)
        full[axis] = full[axis] + lo
        return u[tuple(full)]

    if var == "m":
        for k in range(3):
            def w3(i):
                full = [k + 1] + list(i)
                full[axis] = full[axis] + lo
                return h.eq(got[(k,) + i], u[tuple(full)])
            h.forall("elements", m[1:], w3)
    else:
        h.forall("elements", m, lambda i: h.eq(got[i], want(i)))


@ob("C22", "reversed and malformed cuts", ["fvhoe.hydro.HydroState.__call__"], samples=2)
def cuts2(h):
    hs = registry(())
    n = [5] + [h.int("n%d" % k, 1, small=4) for k in (1, 2, 3)]
    u = h.array("u", n)
    for ax in (1, 2, 3):
        r = u[hs(axis=ax, cut=(0, 0), step=-1)]
        h.forall("flip axis %d" % ax, n, lambda i: h.eq(r[i], u[tuple(n[d] - 1 - q if d == ax else q for d, q in enumerate(i))]))
    g = u[hs("rho", x=(0, 1), y=(0, 1), z=(0, 1))]
    h.same_shape("three cuts at once", g, (1, 1, 1))
    h.raises("axis out of range", ValueError, lambda: registry((), 2)(axis=2, cut=(0, 1)))
    h.raises("not a tuple", ValueError, lambda: hs(axis=1, cut=3))
    h.raises("wrong length", ValueError, lambda: hs(x=(1, 2, 3)))


@ob("C22", "array store", ["fvhoe.array_management.ArrayManager"], samples=3)
def store(h):
    AM = fvhoe("array_management", "ArrayManager")
    m, other = AM(), AM()
    n = [h.int("n%d" % k, 1, small=4) for k in range(2)]
    a, b = h.array("a", n), h.array("b", n)
    a0, b0 = a.copy(), b.copy()
    m.add("first", a)
    m.add("second", b)
    h.raises("replacing is refused", KeyError, lambda: m.add("first", b))
    h.raises("not an array", TypeError, lambda: m.add("third", [1.0, 2.0]))
    h.raises("missing", KeyError, lambda: m("third"))
    h.raises("missing copy", KeyError, lambda: m.get_numpy("third"))
    h.raises("missing removal", KeyError, lambda: m.remove("third"))
    h.raises("stores are independent", KeyError, lambda: other("first"))
    h.forall_eq("stored array", m("first"), a0)
    h.forall_eq("other stored array", m("second"), b0)
    c = m.get_numpy("first")
    h.forall_eq("copy", c, a0)
    c[...] = 7.0
    h.forall_eq("copies are independent of the store", m("first"), a0)
    m("first")[...] = 2 * m("first")
    h.forall_eq("writing through the handle", m("first"), 2 * a0)
    h.forall_eq("and only there", m("second"), b0)
    d = m.get_numpy("second")
    m("second")[...] = 1.0
    h.forall_eq("earlier copies keep their value", d, b0)
    h.rec("names", set(m.to_dict()["names"]) == {"first", "second"} and not m.to_dict()["using_cupy"])
    m.remove("first")
    h.raises("removed", KeyError, lambda: m("first"))
    m.add("first", b)
    h.forall("name can be used again", n, lambda i: h.eq(m("first")[i], b[i]))


@ob("C22", "array store histories", ["fvhoe.array_management.ArrayManager"], kind="run", samples=60, budget=10)
def store_hist(h):
    AM = fvhoe("array_management", "ArrayManager")
    m, model = AM(), {}
    r = h.rng
    log = []
    for _ in range(40):
        k = "abcd"[r.integers(4)]
        op = int(r.integers(5))
        log.append((op, k))
        h.record["ops"] = list(log)
        if op == 0:
            v = r.normal(size=3)
            if k in model:
                h.raises("add existing", KeyError, lambda: m.add(k, v))
            else:
                m.add(k, v)
                model[k] = v.copy()
        elif k not in model:
            h.raises("missing", KeyError, lambda: [m.remove, m.__call__, m.get_numpy, m.remove][op - 1](k))
        elif op == 1:
            m.remove(k)
            del model[k]
        elif op == 2:
            m(k)[...] += 1.0
            model[k] += 1.0
        elif op == 3:
            g = m.get_numpy(k)
            h.rec("value", np.array_equal(g, model[k]))
            g[...] = -5
        else:
            h.rec("handle", np.array_equal(m(k), model[k]))
        h.rec("all values", all(np.array_equal(m(q), model[q]) for q in model) and list(sorted(m.to_dict()["names"])) == sorted(model))


class Clock:
    def __init__(self, h):
        self.h, self.n, self.now = h, 0, None

    def __enter__(self):
        self.mod = fvhoe("timer")
        if not hasattr(self.mod, "time"):
            raise sn.Unsupported("timer does not use the time module")
        self.old = self.mod.time
        self.mod.time = self
        return self

    def __exit__(self, *a):
        self.mod.time = self.old

    def time(self):
        d = self.h.real("d%d" % self.n, 0)
        self.n += 1
        self.now = d if self.now is None else self.now + d
        return self.now

    perf_counter = monotonic = time


@ob("C22", "timer accumulates per category", ["fvhoe.timer.Timer"], samples=3)
def timer(h):
    T = fvhoe("timer", "Timer")
    with Clock(h) as c:
        t = T(cats=["a", "b"])
        t.add_cat("solo")
        t.add_cat(("c", "d"))
        h.rec("start empty", set(t.cum_time) == {"a", "b", "solo", "c", "d"} and all(v == 0.0 for v in t.cum_time.values()))
        h.raises("duplicate category", ValueError, lambda: t.add_cat("a"))
        h.raises("unknown start", ValueError, lambda: t.start("nope"))
        h.raises("unknown stop", ValueError, lambda: t.stop("nope"))
        h.raises("stop before start", RuntimeError, lambda: t.stop("a"))
        t.start("a"); a0 = c.now
        h.raises("start twice", RuntimeError, lambda: t.start("a"))
        t.start("b"); b0 = c.now
        t.stop("a"); a1 = c.now
        t.start("a"); a2 = c.now
        t.stop("b"); b1 = c.now
        t.stop("a"); a3 = c.now
        h.raises("stop twice", RuntimeError, lambda: t.stop("a"))
        h.prove_eq("interleaved categories, a", t.cum_time["a"], (a1 - a0) + (a3 - a2))
        h.prove_eq("interleaved categories, b", t.cum_time["b"], b1 - b0)
        h.prove_eq("untouched category", t.cum_time["c"], 0)
