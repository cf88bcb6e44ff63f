"""Interned first-order terms over Int / Real / Bool with a light normal form.

The engine's verification conditions are terms of this language.  Sums are kept
as linear combinations over atoms, products as sorted factor lists, so that a
large class of equalities becomes identity of interned terms; everything else
is translated to z3 (``to_z3``).
"""
from fractions import Fraction
import itertools
import math

INF = float("inf")


class T:
    __slots__ = ("op", "args", "sort", "id", "holes", "depth")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):  # deterministic order for sorting
        return self.id < o.id


_table = {}
_counter = itertools.count()
EMPTY = frozenset()


def _sub(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _sub(a)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_counter)
        h, d = EMPTY, 0
        for s in _sub(args):
            if s.holes:
                h = h | s.holes
            if s.depth > d:
                d = s.depth
        if op == "hole":
            h = frozenset([t])
        if op == "op":
            h = h - frozenset(args[2])
            d += 1
        t.holes, t.depth = h, d
        _table[key] = t
    return t


def norm(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def num(x, sort=None):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if math.isinf(x):
            return mk("num", (x,), "R")
        x = snap(x)
    x = norm(x)
    if sort is None:
        sort = "I" if isinstance(x, int) else "R"
    # one node per value: the sort of a constant is irrelevant
    return mk("num", (x,), "I" if isinstance(x, int) else "R")


_snapc = {}


def snap(x):
    """simplest rational that rounds to the float x"""
    r = _snapc.get(x)
    if r is None:
        if x == int(x) and abs(x) < 2**53:
            r = int(x)
        else:
            r = _simplest(x)
        _snapc[x] = r
    return r


def _simplest(x):
    # Stern-Brocot search through continued fraction convergents and semi-convergents
    if x < 0:
        return -_simplest(-x)
    lo, hi = 0, 64
    exact = Fraction(x)
    # try decimal first (0.1, 1e-10, ...)
    d = Fraction(repr(x))
    best = None
    f = exact
    for den in (10, 100, 1000, 10**4, 10**6, 10**8, 10**10, 10**12):
        c = f.limit_denominator(den)
        if float(c) == x:
            best = c
            break
    if best is None:
        best = d
    if best.denominator > d.denominator:
        best = d
    return norm(best)


def var(name, sort):
    return mk("var", (name,), sort)


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
ZERO = num(0)
ONE = num(1)


def isnum(t):
    return t.op == "num"


def lin(t):
    """(const, {atom: coef})"""
    if t.op == "num":
        return t.args[0], {}
    if t.op == "sum":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def from_lin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    c = norm(c)
    if isinstance(c, float):  # inf absorbs
        return num(c)
    if not d:
        return num(c)
    if c == 0 and len(d) == 1:
        ((a, k),) = d.items()
        if k == 1:
            return a
    items = tuple(sorted(((a, norm(k)) for a, k in d.items()), key=lambda p: p[0].id))
    sort = "I"
    if not isinstance(c, int):
        sort = "R"
    else:
        for a, k in items:
            if a.sort != "I" or not isinstance(k, int):
                sort = "R"
                break
    return mk("sum", (c, items), sort)


def add(*ts):
    c, d = 0, None
    for t in ts:
        if t.op == "num":
            v = t.args[0]
            if isinstance(v, float) and isinstance(c, float) and v != c:
                raise ArithmeticError("inf - inf")
            c = v if isinstance(v, float) else (c if isinstance(c, float) else c + v)
        else:
            c2, d2 = (t.args[0], t.args[1]) if t.op == "sum" else (0, ((t, 1),))
            if not isinstance(c, float):
                c = c + c2
            if d is None:
                d = {}
            for a, k in d2:
                d[a] = d.get(a, 0) + k
    return from_lin(c, d or {})


def scale(k, t):
    k = norm(k)
    if k == 0:
        return ZERO
    if k == 1:
        return t
    c, d = lin(t)
    if isinstance(c, float):
        return num(c if k > 0 else -c)
    return from_lin(c * k, {a: v * k for a, v in d.items()})


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, scale(-1, b))


def _primitive(t):
    """t = k * t' with the leading coefficient of t' equal to 1"""
    if t.op == "num":
        return t.args[0], ONE
    if t.op == "sum":
        k = t.args[1][0][1]
        if k == 1:
            return 1, t
        return k, scale(Fraction(1) / k if not isinstance(k, float) else 1 / k, t)
    return 1, t


def _factors(t):
    if t.op == "mul":
        return list(t.args)
    return [t]


def mul(a, b):
    if a.op == "num":
        if isinstance(a.args[0], float):
            return _mulinf(a.args[0], b)
        return scale(a.args[0], b)
    if b.op == "num":
        if isinstance(b.args[0], float):
            return _mulinf(b.args[0], a)
        return scale(b.args[0], a)
    ka, a1 = _primitive(a)
    kb, b1 = _primitive(b)
    fs = sorted(_factors(a1) + _factors(b1), key=lambda x: x.id)
    sort = "I" if all(f.sort == "I" for f in fs) else "R"
    return scale(ka * kb, mk("mul", tuple(fs), sort))


def _mulinf(v, t):
    if t.op == "num":
        x = t.args[0]
        if x == 0:
            raise ArithmeticError("inf * 0")
        return num(v if x > 0 else -v)
    raise ArithmeticError("inf * symbolic")


def inv(t):
    if t.op == "num":
        x = t.args[0]
        if isinstance(x, float):
            return ZERO
        if x == 0:
            return mk("inv", (ZERO,), "R")
        return num(Fraction(1) / x)
    k, p = _primitive(t)
    fs = []
    for f in _factors(p):
        fs.append(f.args[0] if f.op == "inv" else mk("inv", (f,), "R"))
    out = fs[0]
    if len(fs) > 1:
        out = mk("mul", tuple(sorted(fs, key=lambda x: x.id)), "R")
    return scale(Fraction(1) / k, out)


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    if isinstance(n, int) and n >= 0:
        out = ONE
        for _ in range(n):
            out = mul(out, a)
        return out
    if isinstance(n, int):
        return inv(power(a, -n))
    if n == 0.5:
        return app("sqrt", (a,), "R")
    return app("pow", (a, num(n)), "R")


# ---------------------------------------------------------------- booleans
def _cmp(op, t):
    """t <op> 0 , op in lt le eq"""
    if t.op == "num":
        v = t.args[0]
        r = v < 0 if op == "lt" else v <= 0 if op == "le" else v == 0
        return TRUE if r else FALSE
    if t.sort == "I" and op in ("lt", "le"):
        c, d = lin(t)
        if op == "lt":  # integers: t < 0  <=>  t + 1 <= 0
            c, op = c + 1, "le"
        g = 0
        for k in d.values():
            g = math.gcd(g, abs(k))
        if g > 1:
            d = {a: k // g for a, k in d.items()}
            c = -((-c) // g)  # ceil
            t = from_lin(c, d)
        else:
            t = from_lin(c, d)
        return mk("le", (t,), "B")
    c, d = lin(t)
    k = next(iter(sorted(d.items(), key=lambda p: p[0].id)))[1]
    if op == "eq":
        f = Fraction(1) / k
    else:
        f = Fraction(1) / abs(k)
    if f != 1:
        t = scale(f, t)
    return mk(op, (t,), "B")


def lt(a, b):
    if a.op == "num" and isinstance(a.args[0], float) or b.op == "num" and isinstance(b.args[0], float):
        return _infcmp(a, b, strict=True)
    return _cmp("lt", sub(a, b))


def le(a, b):
    if a.op == "num" and isinstance(a.args[0], float) or b.op == "num" and isinstance(b.args[0], float):
        return _infcmp(a, b, strict=False)
    return _cmp("le", sub(a, b))


def _infcmp(a, b, strict):
    va = a.args[0] if a.op == "num" else 0
    vb = b.args[0] if b.op == "num" else 0
    return TRUE if (va < vb if strict else va <= vb) else FALSE


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" or b.sort == "B":
        a, b = tobool(a), tobool(b)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    for u, v in ((a, b), (b, a)):
        if u.op == "num" and isinstance(u.args[0], float):
            return TRUE if (v.op == "num" and v.args[0] == u.args[0]) else FALSE
    return _cmp("eq", sub(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return _cmp("le", neg(a.args[0]))
    if a.op == "le":
        return _cmp("lt", neg(a.args[0]))
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return mk("not", (a,), "B")


def _bool_nary(op, unit, zero, ts):
    out = []
    seen = set()
    for t in ts:
        t = tobool(t)
        for s in t.args if t.op == op else (t,):
            if s is zero:
                return zero
            if s is unit or s in seen:
                continue
            seen.add(s)
            out.append(s)
    for s in out:
        if not_(s) in seen:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, tuple(sorted(out, key=lambda x: x.id)), "B")


def and_(*ts):
    return _bool_nary("and", TRUE, FALSE, ts)


def or_(*ts):
    return _bool_nary("or", FALSE, TRUE, ts)


def implies(a, b):
    return or_(not_(a), b)


def tobool(t):
    if t.sort == "B":
        return t
    if t.op == "ite":
        return or_(and_(t.args[0], tobool(t.args[1])), and_(not_(t.args[0]), tobool(t.args[2])))
    return not_(eq(t, ZERO))


def tonum(t):
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    return t


def ite(c, a, b):
    c = tobool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B" or b.sort == "B":
        if a.sort == "B" and b.sort == "B":
            return or_(and_(c, a), and_(not_(c), b))
        a, b = tonum(a), tonum(b)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    n = not_(c)
    if n.id < c.id:
        c, a, b = n, b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), "I" if a.sort == b.sort == "I" else "R")


def min_(*ts):
    return _minmax("min", *ts)


def max_(*ts):
    return _minmax("max", *ts)


def _minmax(op, *ts):
    fs = []
    for t in map(tonum, ts):
        m = neg(t) if t.op == "sum" and len(t.args[1]) == 1 else None
        if m is not None and m.op == ("max" if op == "min" else "min"):
            fs += [neg(x) for x in m.args]  # min(-x, -y) = -max(x, y)
        else:
            fs += list(t.args) if t.op == op else [t]
    inf = INF if op == "min" else -INF
    nums = [t.args[0] for t in fs if t.op == "num"]
    rest = {t for t in fs if t.op != "num"}
    # drop arguments that differ from another by a constant
    best = {}
    for t in sorted(rest, key=lambda x: x.id):
        c, d = lin(t)
        key = frozenset(d.items())
        if key in best and not isinstance(c, float) and not isinstance(best[key][0], float):
            o = best[key][0]
            if (op == "min" and c < o) or (op == "max" and c > o):
                best[key] = (c, t)
        else:
            best[key if key not in best else (key, t.id)] = (c, t)
    keep = [t for _, t in best.values()]
    out = keep
    if nums:
        v = min(nums) if op == "min" else max(nums)
        if v == -inf:
            return num(v)
        if v != inf or not out:
            out.append(num(v))
    if len(out) == 1:
        return out[0]
    sort = "I" if all(t.sort == "I" for t in out) else "R"
    if _orient(out):
        return neg(mk("max" if op == "min" else "min", tuple(sorted((neg(x) for x in out), key=lambda x: x.id)), sort))
    return mk(op, tuple(sorted(out, key=lambda x: x.id)), sort)


def _orient(ts):
    """is this set of terms the negated one of the two orientations"""
    best, sg, tie = None, 0, False
    for t in ts:
        if t.op == "num":
            continue
        c, d = lin(t)
        it = sorted(d.items(), key=lambda q: q[0].id)
        key = [(a.id, abs(k)) for a, k in it] + [(-1, abs(c))]
        if best is None or key < best:
            best, sg, tie = key, it[0][1], False
        elif key == best:
            tie = True
    return best is not None and not tie and sg < 0


def abs_(a):
    if a.op == "num":
        return num(abs(a.args[0]))
    if a.op == "abs":
        return a
    k, p = _primitive(a)
    return scale(abs(k), mk("abs", (p,), a.sort if p.sort == "I" else "R"))


def sign(a):
    if a.op == "num":
        v = a.args[0]
        return num((v > 0) - (v < 0))
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), num(-1), ZERO))


def app(name, args, sort):
    if name == "sqrt" and args[0].op == "num":
        v = args[0].args[0]
        if isinstance(v, float):
            return args[0]
        f = Fraction(v)
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return num(Fraction(a, b))
    if name.startswith("odd:"):
        # an arbitrary symmetric odd function of two numbers
        a, b = args
        if add(a, b) is ZERO:
            return ZERO
        p, q = sorted((a, b), key=lambda t: t.id), sorted((neg(a), neg(b)), key=lambda t: t.id)
        if [t.id for t in q] < [t.id for t in p]:
            return neg(mk("app", (name,) + tuple(q), sort))
        args = p
    return mk("app", (name,) + tuple(args), sort)


def floordiv(a, k):
    if a.op == "num":
        return num(a.args[0] // k)
    return mk("idiv", (a, num(k)), "I")


# ------------------------------------------------- linear stencil operators
def hole(axis, level):
    return mk("hole", (axis, level), "I")


def opterm(mono, body_fn):
    """Apply the commutative monomial of linear, shift-invariant, mean-preserving
    operators ``mono`` (tuple of (kind, axis)) to the array element function
    body_fn(shift dict axis -> T)."""
    mono = tuple(sorted(mono))
    if not mono:
        return body_fn({})
    axes = sorted({a for _, a in mono})
    tmp = {a: hole(a, "tmp%d" % next(_tmp)) for a in axes}
    body = body_fn(tmp)
    return _close(mono, tmp, body)


_tmp = itertools.count()


def _close(mono, tmp, body):
    if body.sort == "B":
        body = tonum(body)
    live = [a for a, h in tmp.items() if h in body.holes]
    mono = tuple(m for m in mono if m[1] in live)
    if not mono:
        return body
    tmp = {a: tmp[a] for a in live}
    # linearity
    if body.op == "sum":
        c, d = lin(body)
        return add(num(c), *[scale(k, _close(mono, tmp, a)) for a, k in d.items()])
    hs = set(tmp.values())
    if body.op == "mul":
        free = [f for f in body.args if not (f.holes & hs)]
        if free:
            rest = [f for f in body.args if f.holes & hs]
            o = ONE
            for f in rest:
                o = mul(o, f)
            o = _close(mono, tmp, o)
            for f in free:
                o = mul(o, f)
            return o
    # operators along different axes commute and merge
    if body.op == "op":
        m2, b2, h2 = body.args
        ax2 = {h.args[0] for h in h2}
        if not (ax2 & set(tmp)):
            t2 = {h.args[0]: hole(h.args[0], "tmp%d" % next(_tmp)) for h in h2}
            b2 = subst(b2, {h: t2[h.args[0]] for h in h2})
            return _close(tuple(sorted(mono + m2)), {**tmp, **t2}, b2)
    level = body.depth
    ren = {h: hole(a, level) for a, h in tmp.items()}
    old, body = body, subst(body, ren)
    if body.op == "sum" and old.op != "sum":
        return _close(mono, {a: ren[h] for a, h in tmp.items()}, body)
    return mk("op", (mono, body, tuple(sorted(ren.values(), key=lambda h: h.args[0]))), "R")


# --------------------------------------------------------------- traversal
def rebuild(t, f, memo):
    """rebuild t with f applied to sub-terms (f may return None to recurse)"""
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        r = _rebuild(t, lambda s: rebuild(s, f, memo))
    memo[t] = r
    return r


def _rebuild(t, g):
    o = t.op
    if o in ("num", "var", "true", "false", "hole"):
        return t
    if o == "sum":
        return add(num(t.args[0]), *[scale(k, g(a)) for a, k in t.args[1]])
    if o == "mul":
        out = ONE
        for a in t.args:
            out = mul(out, g(a))
        return out
    if o == "inv":
        return inv(g(t.args[0]))
    if o in ("lt", "le", "eq"):
        return _cmp(o, g(t.args[0]))
    if o == "not":
        return not_(g(t.args[0]))
    if o == "and":
        return and_(*[g(a) for a in t.args])
    if o == "or":
        return or_(*[g(a) for a in t.args])
    if o == "ite":
        return ite(g(t.args[0]), g(t.args[1]), g(t.args[2]))
    if o in ("min", "max"):
        return _minmax(o, *[g(a) for a in t.args])
    if o == "abs":
        return abs_(g(t.args[0]))
    if o == "idiv":
        return floordiv(g(t.args[0]), t.args[1].args[0])
    if o == "app":
        return app(t.args[0], tuple(g(a) for a in t.args[1:]), t.sort)
    if o == "op":
        mono, body, holes = t.args
        nb = g(body)
        if nb is body:
            return t
        return _close(mono, {h.args[0]: h for h in holes}, nb)
    raise NotImplementedError(o)


def subst(t, m):
    keys = set(m)

    def f(s):
        if s in keys:
            return m[s]
        if s.op in ("num", "var", "true", "false", "hole"):
            return s
        return None

    return rebuild(t, f, {})


def atoms(t, pred, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    st = [t]
    while st:
        s = st.pop()
        if s in seen:
            continue
        seen.add(s)
        if pred(s):
            out.add(s)
        st.extend(_sub(s.args))
    return out


def size(t):
    n, seen, st = 0, set(), [t]
    while st:
        s = st.pop()
        if s in seen:
            continue
        seen.add(s)
        n += 1
        st.extend(_sub(s.args))
    return n


def show(t, depth=6):
    if depth == 0:
        return "…"
    o = t.op
    d = depth - 1
    if o == "num":
        return str(t.args[0])
    if o == "var":
        return t.args[0]
    if o == "hole":
        return "δ%s.%s" % t.args
    if o == "sum":
        s = " + ".join(("%s*" % k if k != 1 else "") + show(a, d) for a, k in t.args[1])
        return "(%s%s)" % (s, " + %s" % t.args[0] if t.args[0] != 0 else "")
    if o == "mul":
        return "*".join(show(a, d) for a in t.args)
    if o == "inv":
        return "1/%s" % show(t.args[0], d)
    if o in ("lt", "le", "eq"):
        return "(%s %s 0)" % (show(t.args[0], d), {"lt": "<", "le": "<=", "eq": "=="}[o])
    if o == "app":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d) for a in t.args[1:]))
    if o == "op":
        return "Op[%s](%s)" % (" ".join("%s@%s" % m for m in t.args[0]), show(t.args[1], d))
    return "%s(%s)" % (o, ", ".join(show(a, d) if isinstance(a, T) else str(a) for a in t.args))


# ------------------------------------------------- polynomial normal form
def poly(t, memo=None, limit=4000):
    """dict monomial(tuple sorted atoms) -> coef ; atoms are everything that is not + * const"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "num":
        r = {(): t.args[0]} if t.args[0] != 0 else {}
    elif t.op == "sum":
        r = {}
        if t.args[0] != 0:
            r[()] = t.args[0]
        for a, k in t.args[1]:
            for m, c in poly(a, memo, limit).items():
                v = r.get(m, 0) + c * k
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
    elif t.op == "mul":
        r = {(): 1}
        for a in t.args:
            r = polymul(r, poly(a, memo, limit), limit)
    else:
        r = {(t,): 1}
    memo[t] = r
    return r


class TooBig(Exception):
    pass


def polymul(p, q, limit=4000):
    if len(p) * len(q) > limit * 50:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > limit:
        raise TooBig()
    return r


def from_poly(p):
    ts = []
    for m, c in p.items():
        o = num(c)
        for a in m:
            o = mul(o, a)
        ts.append(o)
    return add(*ts) if ts else ZERO


def expand(t):
    return from_poly(poly(t))


# -------------------------------------------- rational functions (over atoms)
def ratio(t, memo=None, limit=4000):
    """(numerator poly, denominator poly) treating non-arithmetic terms as atoms.
    Only valid where every inverted sub-term is nonzero."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "num":
        r = ({(): t.args[0]} if t.args[0] != 0 else {}, {(): 1})
    elif t.op == "sum":
        n, d = ({(): t.args[0]} if t.args[0] != 0 else {}), {(): 1}
        for a, k in t.args[1]:
            n2, d2 = ratio(a, memo, limit)
            n2 = {m: c * k for m, c in n2.items()}
            if d == d2:
                n = _padd(n, n2)
            else:
                n = _padd(polymul(n, d2, limit), polymul(n2, d, limit))
                d = polymul(d, d2, limit)
        r = (n, d)
    elif t.op == "mul":
        n, d = {(): 1}, {(): 1}
        for a in t.args:
            n2, d2 = ratio(a, memo, limit)
            n, d = polymul(n, n2, limit), polymul(d, d2, limit)
        r = (n, d)
    elif t.op == "inv":
        n, d = ratio(t.args[0], memo, limit)
        r = (d, n)
    else:
        r = ({(t,): 1}, {(): 1})
    memo[t] = r
    return r


def _padd(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def eliminate(n, e):
    """the polynomial n with one atom eliminated by e = 0 (e linear in it with a constant coefficient); None if there is none"""
    for m, c in e.items():
        if len(m) != 1:
            continue
        x = m[0]
        if any(x in m2 for m2 in e if m2 is not m and m2 != m):
            continue
        if not any(x in m2 for m2 in n):
            continue
        val = {m2: -k / Fraction(c) for m2, k in e.items() if m2 != m}
        groups = {}
        for m2, k in n.items():
            j = sum(1 for a in m2 if a is x)
            groups.setdefault(j, {})[tuple(a for a in m2 if a is not x)] = k
        out = {}
        for j, q in groups.items():
            for _ in range(j):
                q = polymul(q, val)
            out = _padd(out, q)
        return out
    return None


def rational_zero(t, eqs=()):
    """is t identically zero as a rational function of its atoms?  (sqrt(x)^2 -> x)
    eqs: polynomials known to be zero"""
    try:
        n, _ = ratio(t)
        for e in eqs:
            n2 = eliminate(n, e)
            n = n if n2 is None else n2
        for _ in range(6):
            n2 = _reduce_sqrt(n)
            if n2 is None:
                break
            n = n2
        return not n
    except TooBig:
        return False


def _reduce_sqrt(n):
    """replace sqrt(x)^2 by x (valid for x >= 0); None if nothing to do.  x must be
    polynomial; if rational the numerator is cleared"""
    target = None
    for m in n:
        for a, b in zip(m, m[1:]):
            if a is b and a.op == "app" and a.args[0] == "sqrt":
                target = a
                break
        if target:
            break
    if target is None:
        return None
    xn, xd = ratio(target.args[1])
    # multiply everything by xd^k as needed
    groups = {}
    for m, c in n.items():
        k = sum(1 for a in m if a is target)
        rest = tuple(a for a in m if a is not target)
        groups.setdefault(k, {})[rest] = c
    kmax = max(groups) // 2
    out = {}
    for k, p in groups.items():
        q, r = divmod(k, 2)
        for _ in range(q):
            p = polymul(p, xn)
        for _ in range(kmax - q):
            p = polymul(p, xd)
        if r:
            p = polymul(p, {(target,): 1})
        out = _padd(out, p)
    return out
