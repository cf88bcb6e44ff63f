"""Contracts: plotting and sampling helpers (C25)."""
import numpy as np

from .core import ob, fvhoe
from . import symnp as sn

AX = "xyz"
ROW = {"rho": 0, "vx": 1, "vy": 2, "vz": 3, "P": 4, "dye": 5}
V = "fvhoe.visualization."


def el(h, a, i):
    """element, for index expressions known to be in range"""
    return sn.S(sn.as_sym(a).at(tuple(sn.to_t(k) for k in i))) if h.sym else a[i]


class Store:
    """what the helpers use of a solver"""

    def __init__(self, snapshots, scalars=("dye",)):
        self.snapshots = snapshots
        self.hydro_state = fvhoe("hydro", "HydroState")(passive_scalars=scalars)


def viz(h, name):
    f = fvhoe("visualization", name)
    if h.sym:
        sn.symbolic_int(fvhoe("visualization"))
    return f


def consistent(h, n, tag=""):
    """reported trouble: positive exactly where some violation was reported"""
    nad, pad = h.array("nad" + tag, n), h.array("pad" + tag, n)
    mag = h.array("mag" + tag, n, pred=lambda i, v: 0 < v)
    tr = h.make(n, lambda i: h.ite(h.or_(h.lt(0, el(h, nad, i)), h.lt(0, el(h, pad, i))), el(h, mag, i), 0))
    return {"trouble": tr, "NAD violation magnitude": nad, "PAD violation magnitude": pad}


def snapshot(h, k, n, limited=True, cells=False):
    s = {"t": h.real("t%d" % k), "w": h.array("w%d" % k, [6] + n)}
    for a, m in zip(AX, n):
        if cells:  # equal cells
            s[a] = h.make([m], lambda i, a=a: cells[a][0] + (i[0] + 0.5) * cells[a][1])
        else:
            s[a] = h.array("%s%d" % (a, k), [m])
    if limited:
        s.update(consistent(h, n, str(k)))
    return s


def snapshots(h, count, limited=False, cells=False):
    n = [h.int("n" + a, 1, small=3) for a in AX]
    return n, [snapshot(h, k, n, limited, cells) for k in range(count)]


def nearest(h, name, snaps, n, t):
    """snapshot number n is one of the nearest to t"""
    h.prove(name, h.and_(*[h.le(h.abs(snaps[n]["t"] - t), h.abs(s["t"] - t), 0) for s in snaps]))


def closest(h, arr, c):
    """index of the first entry of a coordinate array nearest to c"""
    i = np.argmin(np.abs(arr - c))
    return i if h.sym else int(i)


def pick(h, snaps, t):
    if t is None:
        return len(snaps) - 1
    best = 0
    for k in range(1, len(snaps)):
        if h.case(h.lt(h.abs(snaps[k]["t"] - t), h.abs(snaps[best]["t"] - t))):
            best = k
    return best


@ob("C25", "nearest snapshot and cells", V + "get_indices_from_coordinates", cases=[dict(count=c, given=g) for c in (1, 2, 3) for g in ("t", "txyz", "y", "tz", "")], samples=12)
def lookup(h, count, given):
    f = viz(h, "get_indices_from_coordinates")
    n, snaps = snapshots(h, count)
    c = {a: h.real("c" + a) if a in given else None for a in "txyz"}
    if c["t"] is not None and not h.sym and h.sample % 3 == 0:
        c["t"] = snaps[h.sample % count]["t"]
    k, idx = f(snaps, c["t"], c["x"], c["y"], c["z"])
    if c["t"] is None:
        h.rec("the last snapshot by default", k in (-1, count - 1))
    else:
        h.rec("snapshot number", 0 <= k < count)
        nearest(h, "nearest snapshot", snaps, k, c["t"])
    h.rec("three indices", len(idx) == 3)
    for a, m, i in zip(AX, n, idx):
        if c[a] is None:
            h.rec("whole axis " + a, i == slice(None))
            continue
        h.prove("index along " + a, h.and_(h.le(0, i), h.lt(i, m)))
        s = snaps[k]
        h.forall("nearest cell along " + a, [m], lambda j, a=a, i=i: h.le(h.abs(s[a][i] - c[a]), h.abs(s[a][j[0]] - c[a]), 0))


@ob("C25", "speed is the length of the velocity", V + "get_velocity_magnitude", cases=[dict(nv=5), dict(nv=7)], samples=8)
def speed(h, nv):
    f = viz(h, "get_velocity_magnitude")
    n = [h.int("n" + a, 1, small=3) for a in AX]
    w = h.array("w", [nv] + n)
    w0 = w.copy()
    out = f(w)
    h.same_shape("one value per cell", out, n)
    h.forall("length", n, lambda i: h.and_(h.le(0, out[i]), h.eq(out[i] * out[i], w0[(1,) + i] * w0[(1,) + i] + w0[(2,) + i] * w0[(2,) + i] + w0[(3,) + i] * w0[(3,) + i])))
    h.forall_eq("argument unchanged", w, w0)


def marked(h, s, mode, tol, i):
    pad, nad = h.lt(0, el(h, s["PAD violation magnitude"], i)), h.lt(tol, el(h, s["NAD violation magnitude"], i))
    return {"all": h.or_(pad, nad), True: h.or_(pad, nad), "NAD": nad, "PAD": pad}[mode]


@ob("C25", "overlaid trouble", V + "plotting_trouble", cases=[dict(mode=m) for m in ("all", "NAD", "PAD", True)], samples=12)
def overlay(h, mode):
    f = viz(h, "plotting_trouble")
    n = [h.int("n" + a, 1, small=3) for a in AX]
    s = consistent(h, n)
    keep = {k: v.copy() for k, v in s.items()}
    tol = h.real("tol", 0, strict=False)
    out = f(s, mode, tol)
    h.same_shape("one mark per cell", out, n)
    h.forall("marks", n, lambda i: h.eq(out[i], h.ite(marked(h, keep, mode, tol, i), 1, 0)))
    for k in keep:
        h.forall_eq("unchanged: " + k, s[k], keep[k])
    if not h.sym:
        h.raises("unknown mode", ValueError, lambda: f(s, "everything", tol))


class Ax:
    """records what is drawn"""

    def __init__(self):
        self.calls = []

    def plot(self, *a, **k):
        self.calls.append(("plot", a, k))
        return ["line"]

    def imshow(self, X, **k):
        self.calls.append(("imshow", (X,), k))
        return "image"

    def contour(self, *a, **k):
        self.calls.append(("contour", a, k))
        return "contours"


def field(h, s, param, tol=None, mode="all", marks=False):
    """value of a plotted quantity in cell i"""
    if param == "v":
        return lambda i: h.sqrt(sum(el(h, s["w"], (r,) + i) * el(h, s["w"], (r,) + i) for r in (1, 2, 3)))
    if param == "trouble" and marks:
        return lambda i: h.ite(marked(h, s, mode, tol, i), 1, 0)
    if param in ("trouble", "NAD", "PAD"):
        key = param if param == "trouble" else param + " violation magnitude"
        return lambda i: el(h, s[key], i)
    return lambda i: el(h, s["w"], (ROW[param],) + i)


@ob("C25", "line plots", V + "plot_1d_slice", samples=10,
    cases=[dict(along=a, param=p, when=w) for a in AX for p, w in (("rho", None), ("vz", "t"), ("dye", "t"), ("v", "t"), ("trouble", "t"))]
    + [dict(along="x", param=p, when=None, mode=m) for p, m in (("trouble", "NAD"), ("trouble", "PAD"), ("P", "all"), ("vy", "all"))])
def lines(h, along, param, when, mode="all"):
    f = viz(h, "plot_1d_slice")
    n, snaps = snapshots(h, 2, limited=param == "trouble")
    c = {a: None if a == along else h.real("c" + a) for a in AX}
    t = h.real("when") if when else None
    tol = h.real("tol", 0, strict=False)
    ax = Ax()
    kw = dict(trouble_mode=mode, tol=tol) if param == "trouble" else {}
    got = f(Store(snaps), ax, param, t=t, color="k", **c, **kw)
    s = snaps[pick(h, snaps, t)]
    h.rec("one line", len(ax.calls) == 1 and ax.calls[0][0] == "plot" and len(ax.calls[0][1]) == 2 and ax.calls[0][2] == {"color": "k"} and got == ["line"])
    xs, ys = ax.calls[0][1]
    m = n[AX.index(along)]
    h.same_shape("coordinates", xs, [m])
    h.same_shape("values", ys, [m])
    at = {a: None if c[a] is None else closest(h, s[a], c[a]) for a in AX}
    val = field(h, s, param, tol, mode, True)
    h.forall("coordinates of the free direction", [m], lambda i: h.eq(xs[i], s[along][i]))
    h.forall("values along it", [m], lambda i: h.eq(ys[i], val(tuple(i[0] if at[a] is None else at[a] for a in AX))))


@ob("C25", "line plots need one free direction", V + "plot_1d_slice", samples=2)
def lines_bad(h):
    f = viz(h, "plot_1d_slice")
    n, snaps = snapshots(h, 1)
    h.raises("no free direction", BaseException, lambda: f(Store(snaps), Ax(), "rho", x=0.0, y=0.0, z=0.0))


@ob("C25", "image plots", V + "plot_2d_slice", samples=8,
    cases=[dict(normal=a, param=p, when=w) for a in AX for p, w in (("rho", None), ("vx", "t"), ("dye", "t"), ("v", None), ("NAD", "t"), ("PAD", None), ("trouble", None))]
    + [dict(normal=a, param="P", when=None, mode=m) for a in AX for m in ("all", "NAD", "PAD", True)])
def images(h, normal, param, when, mode=None):
    f = viz(h, "plot_2d_slice")
    cells = {a: (h.real("x0" + a), h.real("h" + a, 0)) for a in AX}
    n, snaps = snapshots(h, 2 if when else 1, limited=bool(mode) or param in ("NAD", "PAD", "trouble"), cells=cells)
    c = {a: h.real("c" + a) if a == normal else None for a in AX}
    t = h.real("when") if when else None
    tol = h.real("tol", 0, strict=False)
    ax = Ax()
    kw = dict(overlay_trouble=mode, tol=tol) if mode else {}
    got = f(Store(snaps), ax, param, t=t, **c, **kw)
    s = snaps[pick(h, snaps, t)]
    h.rec("one image", len(ax.calls) == 1 and ax.calls[0][0] == "imshow" and got == "image")
    (img,), k = ax.calls[0][1:]
    hor, ver = [a for a in AX if a != normal]
    nh, nv = n[AX.index(hor)], n[AX.index(ver)]
    h.same_shape("columns along the horizontal, rows along the vertical axis", img, [nv, nh])
    at = closest(h, s[normal], c[normal])
    val = field(h, s, param)
    up = k.get("origin", "upper") == "upper"

    def spec(q):
        i, j = q
        cell = tuple({hor: i, ver: j, normal: at}[a] for a in AX)
        shown = img[nv - 1 - j if up else j, i]
        want = val(cell)
        if mode:
            want = h.ite(marked(h, s, mode, tol, cell), np.nan, want)
        return h.eq(shown, want)

    h.forall("value at every cell", [nh, nv], spec)
    ext = k["extent"]
    for a, m, (lo, hi) in ((hor, nh, ext[:2]), (ver, nv, ext[2:])):
        x0, d = cells[a]
        h.prove("%s axis starts in the first cell" % a, h.and_(h.le(x0, lo), h.le(lo, x0 + 0.5 * d)))
        h.prove("%s axis ends in the last cell" % a, h.and_(h.le(x0 + (m - 0.5) * d, hi), h.le(hi, x0 + m * d)))
    h.rec("linear colours", k.get("norm") is None)


@ob("C25", "contour plots", V + "plot_2d_slice", samples=8, cases=[dict(normal=a, levels=lv) for a in AX for lv in (3, [0.25, 0.5])])
def contours(h, normal, levels):
    f = viz(h, "plot_2d_slice")
    n, snaps = snapshots(h, 1)
    c = {a: h.real("c" + a) if a == normal else None for a in AX}
    ax = Ax()
    f(Store(snaps), ax, "P", contour=True, levels=levels, **c)
    s = snaps[0]
    h.rec("one contour plot", len(ax.calls) == 1 and ax.calls[0][0] == "contour" and len(ax.calls[0][1]) == 3)
    X, Y, Z = ax.calls[0][1]
    hor, ver = [a for a in AX if a != normal]
    nh, nv = n[AX.index(hor)], n[AX.index(ver)]
    at = closest(h, s[normal], c[normal])
    cell = lambda i, j: tuple({hor: i, ver: j, normal: at}[a] for a in AX)
    if h.sym:
        h.same_shape("rows", Z, [nv, nh])
        h.forall("value, abscissa and ordinate of a cell", [nh, nv], lambda q: h.and_(
            h.eq(X[nv - 1 - q[1], q[0]], s[hor][q[0]]), h.eq(Y[nv - 1 - q[1], q[0]], s[ver][q[1]]),
            h.eq(Z[nv - 1 - q[1], q[0]], s["w"][(4,) + cell(*q)])))
    else:
        tri = sorted(zip(np.ravel(X), np.ravel(Y), np.ravel(Z)))
        want = sorted((s[hor][i], s[ver][j], s["w"][(4,) + cell(i, j)]) for i in range(nh) for j in range(nv))
        h.prove("value, abscissa and ordinate of a cell", len(tri) == len(want) and all(h.eq(a, b) for p, q in zip(tri, want) for a, b in zip(p, q)))
    got = ax.calls[0][2]["levels"]
    if levels == 3:
        lo, hi = np.min(Z), np.max(Z)
        h.same_shape("number of levels", got, [3])
        for k in range(3):
            h.prove_eq("levels from the smallest to the largest value", got[k], lo + (hi - lo) * 0.5 * k)
    else:
        h.rec("given levels", list(got) == levels)


@ob("C25", "images need two free directions", V + "plot_2d_slice", samples=2)
def images_bad(h):
    f = viz(h, "plot_2d_slice")
    n, snaps = snapshots(h, 1)
    for kw in (dict(x=0.0, y=0.0), dict(y=0.0, z=0.0), dict(x=0.0, z=0.0), dict(x=0.0, y=0.0, z=0.0)):
        h.raises("one free direction", BaseException, lambda: f(Store(snaps), Ax(), "rho", **kw))


@ob("C25", "radial averages", V + "sample_circular_average", samples=12,
    cases=[dict(param=p, when=w) for p, w in (("rho", None), ("v", "t"), ("dye", "t"))])
def radial(h, param, when):
    f = viz(h, "sample_circular_average")
    n, snaps = snapshots(h, 2)
    t = h.real("when") if when else None
    center = tuple(h.real("c" + a) for a in AX)
    r = [h.real("r%d" % k, 0, strict=False) for k in range(3)]
    h.assume(h.and_(h.lt(r[0], r[1]), h.lt(r[1], r[2])))
    radii = np.array(r)
    avg, rad = f(Store(snaps), param, t=t, center=center, radii=radii)
    s = snaps[pick(h, snaps, t)]
    val = field(h, s, param)
    h.same_shape("one mean per bin", avg, [2])
    h.same_shape("one radius per bin", rad, [2])
    dist = h.make(n, lambda i: h.sqrt(sum((el(h, s[a], (i[q],)) - center[q]) * (el(h, s[a], (i[q],)) - center[q]) for q, a in enumerate(AX))))
    for b in range(2):
        inside = lambda i: h.and_(h.lt(r[b], el(h, dist, i)), h.le(el(h, dist, i), r[b + 1], 0))
        tot = lambda fn: np.sum(h.make(n, lambda i: h.ite(inside(i), fn(i), 0)))
        cnt, tv, tr = tot(lambda i: 1), tot(val), tot(lambda i: el(h, dist, i))
        if h.case(h.lt(0, cnt)):
            h.prove_eq("mean of the values in bin %d" % b, avg[b] * cnt, tv)
            h.prove_eq("mean radius of bin %d" % b, rad[b] * cnt, tr)
        else:
            h.prove("empty bin %d is undefined" % b, h.and_(h.eq(avg[b], np.nan), h.eq(rad[b], np.nan)))


@ob("C25", "whole-number bin edges", V + "sample_circular_average", samples=6, kind="run", parts=1)
def radial_int(h):
    f = fvhoe("visualization", "sample_circular_average")
    n, snaps = snapshots(h, 1)
    for edges in (np.array([0, 1, 3, 9]), [0, 1, 3, 9]):
        a = f(snaps, "P", center=(0.1, 0.2, 0.3), radii=edges)
        b = f(snaps, "P", center=(0.1, 0.2, 0.3), radii=np.array(edges, dtype=float))
        for x, y in zip(a, b):
            h.forall_eq("the type of the edges does not matter", np.asarray(x, dtype=float), y)


@ob("C25", "snapshot lists are accepted", [V + "get_snapshot_list", V + "plot_1d_slice", V + "plot_2d_slice"], samples=4, cases=[dict(param=p) for p in ("rho", "vy", "P", "v")])
def lists(h, param):
    n, snaps = snapshots(h, 2)
    cx, cy = h.real("cx"), h.real("cy")
    get = viz(h, "get_snapshot_list")
    h.rec("a list is itself", get(snaps) is snaps and get(Store(snaps)) is snaps)
    h.raises("neither", ValueError, lambda: get(3))
    out = []
    for src in (snaps, Store(snaps)):
        a, b = Ax(), Ax()
        fvhoe("visualization", "plot_1d_slice")(src, a, param, x=cx, y=cy)
        fvhoe("visualization", "plot_2d_slice")(src, b, param, x=cx)
        out.append((a.calls[0][1][1], b.calls[0][1][0]))
    for x, y in zip(*out):
        h.forall_eq("the same data", x, y)


@ob("C25", "field overviews show every field once", "fvhoe.solver.EulerSolver.plot_fields", cases=[dict(dims=d) for d in ("x", "y", "z", "xy", "yz")], samples=0)
def overview(h, dims):
    ES = fvhoe("solver", "EulerSolver")
    import matplotlib.pyplot as plt
    from matplotlib.cm import ScalarMappable

    class Self:
        ndim = len(dims)

    me = Self()
    me.dims = dims
    seen = []

    def draw(ax, param, **kw):
        im = ScalarMappable()
        seen.append((ax, param, kw, im))
        return im

    me.plot_1d_slice = me.plot_2d_slice = draw
    fig, axs = ES.plot_fields(me, y=0.5)
    try:
        cells = list(np.ravel(axs))
        h.rec("every panel once", [id(s[0]) for s in seen] and sorted(id(s[0]) for s in seen) == sorted(map(id, cells)))
        h.rec("arguments passed on", all(s[2] == {"y": 0.5} for s in seen))
        want = ["rho", "P", "v" + dims] if len(dims) == 1 else ["rho", "P", "v", "vx", "vy", "vz"]
        h.rec("every field once", sorted(s[1] for s in seen) == sorted(want), note=str([s[1] for s in seen]))
        if len(dims) == 2:
            lab = {"rho": r"$\rho$", "P": "$P$", "v": "$v$", "vx": "$v_x$", "vy": "$v_y$", "vz": "$v_z$"}
            h.rec("labels match the fields", all(s[3].colorbar is not None and s[3].colorbar.ax.get_ylabel() == lab[s[1]] for s in seen))
    finally:
        plt.close(fig)


@ob("C25", "plots of real runs", ["fvhoe.solver.EulerSolver", V + "plot_1d_slice", V + "plot_2d_slice", V + "sample_circular_average"], kind="run", samples=20, budget=30, parts=3)
def real_runs(h):
    from . import runs, sim

    cfg, u = runs.draw(h, lim=h.sample % 2 == 1, pmax=3)
    s = sim.make(cfg, u.copy())
    runs.quiet(s.run, n=2, log_every_step=True)
    snaps = s.snapshots
    if not all(np.all(np.isfinite(q["w"])) for q in snaps):
        raise runs.Reject()
    ts = [q["t"] for q in snaps]
    r = h.rng
    for t in (None, ts[0], ts[-1], float(r.uniform(-0.2, 1.2) * ts[-1])):
        k = len(ts) - 1 if t is None else int(np.argmin([abs(q - t) for q in ts]))
        q = snaps[k]
        c = {a: float(r.uniform(-0.2, 1.2)) for a in AX}
        at = {a: int(np.argmin(abs(q[a] - c[a]))) for a in AX}
        for a in AX:
            rest = {b: v for b, v in c.items() if b != a}
            sel = tuple(slice(None) if b == a else at[b] for b in AX)
            ax = Ax()
            s.plot_1d_slice(ax, "P", t=t, **rest)
            h.forall_eq("line through the nearest cells", np.asarray(ax.calls[0][1][1]), q["w"][4][sel])
            ax = Ax()
            s.plot_2d_slice(ax, "vy", t=t, **{a: c[a]})
            sel = tuple(at[b] if b == a else slice(None) for b in AX)
            img = np.asarray(ax.calls[0][1][0])
            h.forall_eq("image of the nearest plane", img, q["w"][2][sel].T[::-1])
