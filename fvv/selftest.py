"""Cross-check of the array model against numpy, and of the decision procedures against wrong claims.

    python -m fvv.selftest

Every program below runs twice: on numpy arrays, and on symbolic arrays of symbolic size whose element terms are then
evaluated at the same numbers.  Shapes and all elements must agree.  It also checks that false statements about each
kind of reasoning step (normal forms, linear stencil operators, quantified facts, case splits, solver) are not accepted.
"""
import itertools
import math
import sys

import numpy as np

from . import harness, symnp as sn, terms as tm, core  # noqa: F401


class Skip(Exception):
    pass


def ev(t, env):
    """value of a term; env: variables and arrays by name"""
    op, a = t.op, t.args
    if op == "num":
        return a[0]
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "var":
        if a[0] not in env:
            raise Skip(a[0])
        return env[a[0]]
    if op == "sum":
        return a[0] + sum(k * ev(x, env) for x, k in a[1])
    if op == "mul":
        return math.prod(ev(x, env) for x in a)
    if op == "inv":
        return 1 / ev(a[0], env)
    if op == "ite":
        return ev(a[1] if ev(a[0], env) else a[2], env)
    if op in ("le", "lt", "eq"):
        v = ev(a[0], env)
        return v <= 0 if op == "le" else v < 0 if op == "lt" else v == 0
    if op == "not":
        return not ev(a[0], env)
    if op == "and":
        return all(ev(x, env) for x in a)
    if op == "or":
        return any(ev(x, env) for x in a)
    if op in ("max", "min"):
        return (max if op == "max" else min)(ev(x, env) for x in a)
    if op == "abs":
        return abs(ev(a[0], env))
    if op == "idiv":
        return ev(a[0], env) // ev(a[1], env)
    if op == "app":
        name, args = a[0], [ev(x, env) for x in a[1:]]
        if name in env:
            idx = tuple(int(q) for q in args)
            arr = env[name]
            if any(not 0 <= i < n for i, n in zip(idx, arr.shape)):
                raise IndexError("%s%s outside %s" % (name, idx, arr.shape))
            return arr[idx].item()
        if name in ("sqrt", "sin", "cos", "tan", "exp"):
            return getattr(math, name)(args[0])
        raise Skip(name)
    raise Skip(op)


PROGS = {
    "broadcast": lambda a, b, v, w, f, n, m: a + 2.0 * b - v[:, None] / w,
    "slice": lambda a, b, v, w, f, n, m: a[:, 1:, ...] - a[:, :-1, ...],
    "slice2": lambda a, b, v, w, f, n, m: a[1:, 2:-1, ::-1],
    "negative": lambda a, b, v, w, f, n, m: a[-1, -2:, -1:],
    "reverse": lambda a, b, v, w, f, n, m: b[::-1, ::-1],
    "fancy": lambda a, b, v, w, f, n, m: a[np.array([2, 0])] * a[np.arange(1, 3)],
    "newaxis": lambda a, b, v, w, f, n, m: b[np.newaxis, :, 0][0],
    "where": lambda a, b, v, w, f, n, m: np.where(f, b, np.where(b > 0, -b, 3.0)),
    "minmax": lambda a, b, v, w, f, n, m: np.maximum(np.minimum(a[0], a[1]), b),
    "abs": lambda a, b, v, w, f, n, m: np.abs(b) + np.sign(a[0]),
    "sqrt": lambda a, b, v, w, f, n, m: np.sqrt(w[0]) * np.square(b),
    "sum0": lambda a, b, v, w, f, n, m: np.sum(a * w, axis=0),
    "max0": lambda a, b, v, w, f, n, m: np.max(a, axis=0) - np.min(a, axis=0, keepdims=True)[0],
    "any0": lambda a, b, v, w, f, n, m: np.any(a > 0, axis=0),
    "logic": lambda a, b, v, w, f, n, m: np.logical_or(f, np.logical_and(b > 0, ~f)),
    "zeros_like": lambda a, b, v, w, f, n, m: put(np.zeros_like(a), (slice(None), slice(1, None)), a[:, :-1]),
    "inplace": lambda a, b, v, w, f, n, m: put(b.copy(), (slice(0, 2),), 7.0),
    "aug": lambda a, b, v, w, f, n, m: aug(b.copy(), (slice(1, -1), slice(None)), b[1:-1] * 2),
    "addout": lambda a, b, v, w, f, n, m: acc(np.zeros_like(b), [b, 2 * b, -0.5 * b]),
    "pad": lambda a, b, v, w, f, n, m: edges(np.pad(b, [(2, 2), (1, 1)], mode="empty")),
    "concat": lambda a, b, v, w, f, n, m: np.concatenate([b, b[:1], b], axis=0),
    "stack": lambda a, b, v, w, f, n, m: np.stack([b, 2 * b]),
    "transpose": lambda a, b, v, w, f, n, m: np.transpose(a, (2, 0, 1)),
    "T": lambda a, b, v, w, f, n, m: b.T,
    "moveaxis": lambda a, b, v, w, f, n, m: np.moveaxis(a, 0, -1),
    "roll": lambda a, b, v, w, f, n, m: np.roll(b, 1, axis=0),
    "flip": lambda a, b, v, w, f, n, m: np.flip(b, axis=1),
    "reshape": lambda a, b, v, w, f, n, m: v.reshape(-1, 1, 1) + v.reshape(1, -1, 1),
    "linspace": lambda a, b, v, w, f, n, m: np.linspace(0.5, 2.5, n + 1),
    "mesh": lambda a, b, v, w, f, n, m: np.meshgrid(v, 2 * v, indexing="ij")[1],
    "arange": lambda a, b, v, w, f, n, m: np.arange(n) * 2,
    "full": lambda a, b, v, w, f, n, m: np.full((n, m), 2.5),
    "ones": lambda a, b, v, w, f, n, m: np.ones((n, 2)) * v[:, None],
    "view": lambda a, b, v, w, f, n, m: through_view(b.copy()),
    "alias": lambda a, b, v, w, f, n, m: alias(b.copy()),
    "int_index": lambda a, b, v, w, f, n, m: put(np.zeros((n, m)), (0, slice(None)), b[-1]),
    "list_index": lambda a, b, v, w, f, n, m: put(b.copy(), ([0, -1],), np.maximum(b[:1], b[-1:])),
    "bool_sum": lambda a, b, v, w, f, n, m: np.where(f, 1, 0) + f,
    "power": lambda a, b, v, w, f, n, m: b ** 2 - b ** 3 / w[0],
    "expand": lambda a, b, v, w, f, n, m: np.expand_dims(b, 0) + a,
    "squeeze": lambda a, b, v, w, f, n, m: np.squeeze(a[:1], axis=0),
    "swap": lambda a, b, v, w, f, n, m: np.swapaxes(a, 1, 2),
    "rot90": lambda a, b, v, w, f, n, m: np.rot90(b, 1),
    "einsum_free": lambda a, b, v, w, f, n, m: (a * w).sum(axis=0),
}


def aliasing(make):
    """write through the result of make(x), then read the argument; and the other way round"""
    def prog(a, b, v, w, f, n, m):
        x, z = b.copy(), b.copy()
        y = make(x)
        y[...] = 9.0
        q = make(z)
        z[...] = 5.0
        return np.concatenate([x.reshape(1, n, m), z.reshape(1, n, m), (np.zeros_like(x) + first(q)).reshape(1, n, m)])
    return prog


def first(q):
    return q[(0,) * q.ndim]


for _nm, _mk in {
    "array": lambda x: np.array(x),
    "asarray": lambda x: np.asarray(x),
    "array_nocopy": lambda x: np.array(x, copy=None),
    "copy": lambda x: np.copy(x),
    "mcopy": lambda x: x.copy(),
    "flip": lambda x: np.flip(x, axis=0),
    "flip2": lambda x: np.flip(x),
    "fliplr": lambda x: np.fliplr(x),
    "transpose": lambda x: np.transpose(x),
    "T": lambda x: x.T,
    "mtranspose": lambda x: x.transpose(1, 0),
    "swapaxes": lambda x: np.swapaxes(x, 0, 1),
    "mswap": lambda x: x.swapaxes(0, 1),
    "moveaxis": lambda x: np.moveaxis(x, 0, 1),
    "rollaxis": lambda x: np.rollaxis(x, 1),
    "expand": lambda x: np.expand_dims(x, 0),
    "newaxis": lambda x: x[None],
    "squeeze": lambda x: np.squeeze(x[None], axis=0),
    "msqueeze": lambda x: x[None].squeeze(0),
    "rot90": lambda x: np.rot90(x),
    "atleast": lambda x: np.atleast_3d(x),
    "atleast2": lambda x: np.atleast_2d(x),
    "reshape1": lambda x: x.reshape(1, *x.shape),
    "npreshape": lambda x: np.reshape(x, (1,) + x.shape),
    "astype": lambda x: x.astype(float),
    "astype_nocopy": lambda x: x.astype(float, copy=False),
    "roll": lambda x: np.roll(x, 1, axis=0),
    "where": lambda x: np.where(x > 0, x, 0.0),
    "take": lambda x: np.take(x, [0, 1], axis=0),
    "takeslice": lambda x: x[[0, 1]],
    "slices": lambda x: x[1:, ::-1],
    "step": lambda x: x[::2],
    "row": lambda x: x[0],
    "rows": lambda x: x[0:1],
    "ellipsis": lambda x: x[...],
    "pos": lambda x: +x,
    "plus0": lambda x: x + 0,
    "abs": lambda x: abs(x),
    "maximum": lambda x: np.maximum(x, x),
    "concat": lambda x: np.concatenate([x]),
    "stack": lambda x: np.stack([x]),
    "pad": lambda x: np.pad(x, 1, mode="constant"),
    "broadcast": lambda x: np.broadcast_to(x, (2,) + x.shape).copy(),
    "clip": lambda x: np.clip(x, -1, 1),
    "mclip": lambda x: x.clip(-1, 1),
    "zeros_like": lambda x: np.zeros_like(x),
    "full_like": lambda x: np.full_like(x, 2.0),
    "negative": lambda x: np.negative(x),
    "vstack": lambda x: np.vstack([x, x]),
    "repeat": lambda x: np.repeat(x, 2, axis=0),
    "tile": lambda x: np.tile(x, (2, 1)),
    "hstack": lambda x: np.hstack([x, x]),
    "split": lambda x: np.split(x, [1], axis=0)[1],
    "diff": lambda x: np.diff(x, axis=0),
    "nan_to_num": lambda x: np.nan_to_num(x),
    "delete": lambda x: np.delete(x, 0, axis=0),
    "insert0": lambda x: np.append(x, x, axis=0),
    "gradient": lambda x: np.gradient(x, axis=0),
    "cumsum": lambda x: np.cumsum(x, axis=0),
    "fmax": lambda x: np.fmax(x, 0),
    "ravel": lambda x: x[0].ravel(),
    "flatten": lambda x: x[0].flatten(),
    "iter": lambda x: list(x[:3])[1] if not hasattr(x, "tshape") else x[1],
    "unpack": lambda x: [x[k] for k in range(3)][2],
}.items():
    PROGS["alias " + _nm] = aliasing(_mk)

PROGS.update({
    "clip": lambda a, b, v, w, f, n, m: np.clip(b, 0, 2) + b.clip(-1, None) + np.clip(b, w[0] * 0, w[0]),
    "diff": lambda a, b, v, w, f, n, m: np.diff(a, axis=1),
    "select": lambda a, b, v, w, f, n, m: np.select([b > 1, b < -1], [b, -b], default=0.5),
    "choose2": lambda a, b, v, w, f, n, m: np.where(f, b > 0, b < 0),
    "mask_put": lambda a, b, v, w, f, n, m: put(b.copy(), f, 0.0),
    "mask_mul": lambda a, b, v, w, f, n, m: b * f + b * ~f * 2,
    "sumaxes": lambda a, b, v, w, f, n, m: np.sum(a, axis=(0,)) + a.sum(0),
    "sumall": lambda a, b, v, w, f, n, m: np.sum(a[:, 0, 0]) + v * 0,
    "meanax": lambda a, b, v, w, f, n, m: np.mean(a, axis=0),
    "prod0": lambda a, b, v, w, f, n, m: np.prod(a, axis=0),
    "hypot": lambda a, b, v, w, f, n, m: np.hypot(a[0], a[1]),
    "norm": lambda a, b, v, w, f, n, m: np.linalg.norm(a, axis=0),
    "dot": lambda a, b, v, w, f, n, m: np.einsum("kij,kij->ij", a, w),
    "einsum2": lambda a, b, v, w, f, n, m: np.einsum("i,ij->ij", v, b),
    "tensordot": lambda a, b, v, w, f, n, m: np.tensordot(np.array([1.0, 2.0, 3.0]), a, axes=1),
    "outer": lambda a, b, v, w, f, n, m: np.multiply.outer(v, v),
    "reduce_max": lambda a, b, v, w, f, n, m: np.maximum.reduce([a[0], a[1], a[2]]),
    "reduce_add": lambda a, b, v, w, f, n, m: np.add.reduce(a, axis=0),
    "pysum": lambda a, b, v, w, f, n, m: sum(c * a[k] for k, c in enumerate([0.5, 1.0, 2.0])),
    "pymax": lambda a, b, v, w, f, n, m: np.maximum(np.maximum(a[0], a[1]), a[2]),
    "divide": lambda a, b, v, w, f, n, m: np.divide(b, w[0]) + np.true_divide(1, w[1]) + np.reciprocal(w[2]),
    "mult": lambda a, b, v, w, f, n, m: np.multiply(b, 2) - np.subtract(1, b) + np.power(b, 2),
    "copysign": lambda a, b, v, w, f, n, m: np.copysign(w[0], a[0] + 0.5),
    "heaviside": lambda a, b, v, w, f, n, m: np.heaviside(b, 0.5),
    "fabs": lambda a, b, v, w, f, n, m: np.fabs(b),
    "ix": lambda a, b, v, w, f, n, m: a[1, 2:, 1],
    "ell": lambda a, b, v, w, f, n, m: a[..., 1:] - a[..., :-1],
    "slicetuple": lambda a, b, v, w, f, n, m: a[(slice(None), slice(1, None), slice(None, -1))],
    "npslice": lambda a, b, v, w, f, n, m: a[np.s_[:, 1:-1]],
    "s0": lambda a, b, v, w, f, n, m: b[n - 2 :, : m - 1],
    "swrap": lambda a, b, v, w, f, n, m: np.concatenate([b[-2:], b, b[:2]]),
    "padwrap": lambda a, b, v, w, f, n, m: np.pad(b, [(2, 2), (0, 0)], mode="wrap"),
    "padedge": lambda a, b, v, w, f, n, m: np.pad(b, [(2, 1), (0, 0)], mode="edge"),
    "padsym": lambda a, b, v, w, f, n, m: np.pad(b, [(2, 2), (0, 0)], mode="symmetric"),
    "padconst": lambda a, b, v, w, f, n, m: np.pad(b, [(2, 2), (1, 0)], mode="constant", constant_values=3.0),
    "padconst0": lambda a, b, v, w, f, n, m: np.pad(b, ((1, 1), (0, 0))),
    "roll_neg": lambda a, b, v, w, f, n, m: np.roll(b, -1, axis=1) + np.roll(b, (1, 2), axis=(0, 1)),
    "comp": lambda a, b, v, w, f, n, m: np.logical_xor(f, b > 0),
    "isclose": lambda a, b, v, w, f, n, m: b == a[0],
    "ufunc_where": lambda a, b, v, w, f, n, m: np.where(w[0] != 1, b / w[0], 0),
    "out": lambda a, b, v, w, f, n, m: acc2(np.zeros_like(b), b),
    "astype_int": lambda a, b, v, w, f, n, m: f.astype(int) * 2 + (b > 0).astype(float),
    "mesh3": lambda a, b, v, w, f, n, m: np.meshgrid(v, v[:2], v[1:], indexing="ij")[2],
    "indices": lambda a, b, v, w, f, n, m: b[:, [0]] + b[:, :1],
    "sign": lambda a, b, v, w, f, n, m: np.sign(b) * np.minimum(np.abs(b), 2),
    "nested_set": lambda a, b, v, w, f, n, m: nested(np.zeros((n + 2, m))),
    "loop_axis": lambda a, b, v, w, f, n, m: loop_axis(a),
    "ternary": lambda a, b, v, w, f, n, m: np.where((b > 0) & (b < 3) | ~f, b, -b),
    "zerosint": lambda a, b, v, w, f, n, m: put(np.zeros((n, m), dtype=int), (slice(1, None),), f[1:]),
    "float_idx": lambda a, b, v, w, f, n, m: np.arange(n)[:, None] * np.ones((1, m)) + 0.5,
    "mod": lambda a, b, v, w, f, n, m: (np.arange(n) + 3) % n,
    "argmin": lambda a, b, v, w, f, n, m: np.argmin(a, axis=0),
    "count": lambda a, b, v, w, f, n, m: np.count_nonzero(a > 0, axis=0),
    "empty_put": lambda a, b, v, w, f, n, m: put(put(np.empty((2, n, m)), 0, b), 1, -b),
    "logical_reduce": lambda a, b, v, w, f, n, m: np.logical_or.reduce(a > 1, axis=0),
    "alltrue": lambda a, b, v, w, f, n, m: np.all(a > -3, axis=0),
    "ptp": lambda a, b, v, w, f, n, m: np.ptp(a, axis=0),
    "broadcast_to": lambda a, b, v, w, f, n, m: np.broadcast_to(v[:, None], (n, m)) + b,
    "full_like": lambda a, b, v, w, f, n, m: np.full_like(b, 3.0) - np.ones_like(b),
    "matmulfree": lambda a, b, v, w, f, n, m: (np.array([1.0, -1.0, 2.0])[:, None, None] * a).sum(axis=0),
    "float_pow": lambda a, b, v, w, f, n, m: np.float_power(w[0], 2),
    "floor": lambda a, b, v, w, f, n, m: -(-np.arange(n) // 2),
})


def acc2(out, b):
    np.multiply(b, 2, out=out)
    np.subtract(out, 1, out=out)
    out -= b
    return out


def nested(x):
    inner = x[1:-1]
    inner[0] = 1.0
    inner[-1] += 2.0
    x[0] = inner[1]
    return x


def loop_axis(a):
    out = np.zeros_like(a)
    for axis in range(1, 3):
        lo, hi = [slice(None)] * 3, [slice(None)] * 3
        lo[axis], hi[axis] = slice(None, -1), slice(1, None)
        out[tuple(lo)] += a[tuple(hi)] - a[tuple(lo)]
        out[tuple(hi)] = np.maximum(out[tuple(hi)], a[tuple(lo)])
    return out


def put(x, idx, val):
    x[idx] = val
    return x


def aug(x, idx, val):
    x[idx] *= val
    return x


def acc(out, xs):
    for x in xs:
        np.add(out, x, out=out)
    return out


def edges(x):
    x[:2] = x[2:4]
    x[-2:] = x[2:4]
    x[:, :1] = x[:, 1:2]
    x[:, -1:] = x[:, -2:-1]
    return x


def through_view(x):
    y = x[1:, :]
    y[...] = 2 * y
    x[0, :] = 5.0
    return y + x[1:]


def alias(x):
    y = x[:-1]
    z = y[1:]
    z *= 3.0
    x[...] = x + 1
    return z


def compare(name, fn, rng):
    n, m = int(rng.integers(4, 8)), int(rng.integers(3, 7))
    A = dict(a=rng.integers(-4, 5, (3, n, m)).astype(float), b=rng.integers(-4, 5, (n, m)).astype(float), v=rng.integers(-4, 5, n).astype(float),
             w=rng.integers(1, 6, (3, n, m)).astype(float), f=rng.integers(0, 2, (n, m)).astype(bool))
    sn.uninstall()
    want = np.asarray(fn(*[A[k].copy() for k in "abvwf"], n, m))
    env = dict(A)
    sn.install()
    todo, hit = [[]], 0
    try:
        while todo:
            prefix = todo.pop()
            ctx = sn.Ctx(prefix)
            sn.set_ctx(ctx)
            h = harness.SymH(ctx, 10)
            N, M = h.int("n", 4), h.int("m", 3)
            env[sn.to_t(N).args[0]], env[sn.to_t(M).args[0]] = n, m
            args = [h.array("a", [3, N, M]), h.array("b", [N, M]), h.array("v", [N]), h.array("w", [3, N, M]), h.array("f", [N, M], kind="b")]
            out = sn.as_sym(fn(*args, N, M))
            todo.extend(ctx.taken[:i] + [not ctx.taken[i]] for i in range(len(prefix), len(ctx.taken)) if i not in ctx.forced)
            if not all(ev(c, env) for c in ctx.pc):
                continue
            hit += 1
            shape = tuple(int(ev(q, env)) for q in out.tshape)
            assert shape == want.shape, "%s: shape %s, numpy %s" % (name, shape, want.shape)
            f = out.fn()
            for idx in itertools.product(*map(range, shape)):
                got = ev(f(tuple(tm.num(i) for i in idx)), env)
                assert abs(float(got) - float(want[idx])) < 1e-9, "%s%s: %s, numpy %s" % (name, idx, got, want[idx])
    finally:
        sn.set_ctx(None)
        sn.uninstall()
    return hit


def false_claims():
    """statements that must not be accepted"""
    def claims(h):
        n = h.int("n", 2)
        a, b = h.array("a", [n]), h.array("b", [n])
        x, y = h.real("x"), h.real("y", 0)
        h.forall("shift", [n - 1], lambda i: h.eq(a[i[0] + 1], a[i[0]]))
        h.prove_eq("product", x * y + x, x * (y + 2))
        h.prove("order", h.lt(x, y))
        h.forall("max", [n], lambda i: h.eq(np.maximum(a, b)[i], a[i]))
        h.prove("reduction", h.le(np.max(a), a[0], 0))
        h.forall("update", [n], lambda i: h.eq(put(a.copy(), (slice(1, None),), 0.0)[i], 0))
        h.forall("choice", [n], lambda i: h.eq(np.where(a > 0, a, 0)[i], a[i]))
        h.prove_eq("root", np.sqrt(y), y)

    def paths(h):
        x, y = h.real("x", 0), h.real("y", 0)
        k = 0
        if x + y < 0:  # settled by the solver, no fork
            k = 1
        if x < y:
            k += 2
        if x * x + y * y < 0:
            k += 4
        h.prove("every path", h.lt(x, y))
        h.rec("no other path", k in (0, 2))

    out = harness.explore(claims) + harness.explore(paths)
    sn.uninstall()
    seen = [(r[0], r[1]) for r in out if r[0] in ("every path", "no other path")]
    assert sorted(seen) == [("every path", "proved"), ("every path", "refuted"), ("no other path", "proved"), ("no other path", "proved")], seen
    bad = [r[0] for r in out if r[1] == "proved" and r[0] in ("shift", "product", "order", "max", "reduction", "update", "choice", "root")]
    assert not bad, "accepted: %s" % bad
    names = {r[0] for r in out if r[1] in ("refuted", "unknown")}
    return len(names)


def main():
    rng = np.random.default_rng(core.SEED)
    bad = 0
    done = unsupported = 0
    for name, fn in PROGS.items():
        for _ in range(3):
            try:
                done += 1 if compare(name, fn, rng) else 0
            except sn.Unsupported as e:
                unsupported += 1
                print("  %s: not modelled (%s)" % (name, e))
                break
            except Exception as e:
                bad += 1
                print("MISMATCH %s: %s: %s" % (name, type(e).__name__, e))
                break
    k = false_claims()
    print("selftest: %d programs agree with numpy (%d not modelled), %d false claims rejected, %d mismatches" % (done, unsupported, k, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
