"""Symbolic numpy: duck-typed scalars and arrays of symbolic shape that the real fvhoe
functions run on unchanged.  Every array is a view (affine index map) of a buffer whose
contents are an element function  index terms -> term ; writes replace the element
function (functional update), so aliasing, views and in-place operations behave as in
numpy.  Element values are mathematical reals."""
import itertools
import math
import sys
import numpy as np
from scipy import ndimage

from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE
from . import prover


class Unsupported(Exception):
    """the code left the fragment the engine models: result undecided, never a violation"""


class PathAbort(Exception):
    pass


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prefix=()):
        self.pc = []  # everything assumed on this path
        self.prefix = list(prefix)
        self.taken = []
        self.forced = set()
        self.branches = 0
        self.isolver = prover.z3.Solver()
        self.isolver.set("timeout", 1000)
        self.icache = {}
        self.univ = []  # universally quantified facts (ndim, shape, fn, name)
        self.points = []  # skolem index tuples
        self.fresh_n = {}
        self.reductions = {}
        self.sums = set()
        self.probe_depth = 0
        self.lemmas_used = set()
        self.max_branches = 60

    def fresh(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return "%s#%d" % (base, n)

    def assume(self, t):
        t = tm.tobool(t)
        if t is TRUE:
            return
        self.pc.append(t)
        for s in t.args if t.op == "and" else (t,):
            if _int_only(s):
                self.isolver.add(prover.to_z3(s))
        self.icache = {k: v for k, v in self.icache.items() if v is not None}
        if t is FALSE:
            raise PathAbort()

    def decide(self, c):
        """True / False if the integer part of the path condition settles c, else None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.icache:
            return self.icache[c]
        r = None
        if _int_only(c):
            for h in tm.atoms(c, lambda s: s.op == "hole"):
                pass
            z = prover.to_z3(c)
            t0 = _now()
            if self.isolver.check(prover.z3.Not(z)) == prover.z3.unsat:
                r = True
            elif self.isolver.check(z) == prover.z3.unsat:
                r = False
            prover.STATS["z3_s"] += _now() - t0
        else:
            for h in self.pc:
                if h is c:
                    r = True
                elif h is tm.not_(c):
                    r = False
        self.icache[c] = r
        return r

    def branch(self, c):
        c = tm.tobool(c)
        d = self.decide(c)
        if d is not None:
            return d
        i = len(self.taken)
        if i - len(self.forced) >= self.max_branches:
            raise Unsupported("too many branches")
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            # feasibility of the two sides
            rt, _ = prover.check_sat(self.pc + [c], 400)
            rf, _ = prover.check_sat(self.pc + [tm.not_(c)], 400)
            if rt == "unsat" and rf == "unsat":
                raise PathAbort()
            if rt == "unsat" or rf == "unsat":
                v = rf == "unsat"
                self.forced.add(i)  # recorded, so that a replayed prefix stays aligned, but not a fork
            else:
                v = True
        self.taken.append(v)
        self.assume(c if v else tm.not_(c))
        return v

    def ite(self, c, a, b):
        """conditional on thunks, pruned by the path condition"""
        d = self.decide(c)
        if d is True:
            return a()
        if d is False:
            return b()
        return tm.ite(c, a(), b())


def _now():
    import time

    return time.time()


_iocache = {}


def _int_only(t):
    r = _iocache.get(t)
    if r is None:
        if t.op in ("num", "var", "hole", "app", "op", "inv"):
            r = t.sort in ("I",) and not (t.op == "num" and isinstance(t.args[0], float))
            if t.op == "var" and t.sort == "B":
                r = True
            if t.op == "app" and r:
                r = all(_int_only(a) for a in t.args[1:])
        elif t.op in ("true", "false"):
            r = True
        else:
            r = all(_int_only(a) for a in tm._sub(t.args))
        _iocache[t] = r
    return r


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("no symbolic context")
    return CTX


def set_ctx(c):
    NANS[0] = False
    global CTX
    CTX = c


# ------------------------------------------------------------------ scalars
def is_sym(x):
    return type(x) is S or type(x) is SymArray


# an opaque token: stored and copied; arithmetic on values that may be it is refused (see _nonan)
NAN = tm.var("NaN", "R")
NANS = [False]


def to_t(x):
    """python / numpy scalar or S -> T"""
    if type(x) is S:
        return x.t
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (int, np.integer)):
        return tm.num(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            NANS[0] = True
            return NAN
        return tm.num(x)
    if type(x) is SymArray and x.ndim == 0:
        return x.at(())
    if type(x) is np.ndarray and x.ndim == 0:
        return to_t(x.item())
    from fractions import Fraction

    if isinstance(x, Fraction):
        return tm.num(x)
    raise Unsupported("scalar of type %s" % type(x).__name__)


def wrap(t):
    return S(t)


def _scalar_like(x):
    return type(x) is S or isinstance(x, (bool, int, float, np.generic))


def out_int(t):
    return t.args[0] if t.op == "num" else S(t)


def _b2n(t):
    return tm.tonum(t)


def _arith(f):
    def g(a, b):
        return f(_b2n(a), _b2n(b))

    return g


OPS = {
    "add": _arith(tm.add),
    "subtract": _arith(tm.sub),
    "multiply": _arith(tm.mul),
    "divide": _arith(tm.div),
    "true_divide": _arith(tm.div),
    "negative": lambda a: tm.neg(_b2n(a)),
    "positive": lambda a: a,
    "absolute": lambda a: tm.abs_(_b2n(a)),
    "fabs": lambda a: tm.abs_(_b2n(a)),
    "hypot": lambda a, b: OPS["sqrt"](tm.add(tm.mul(_b2n(a), _b2n(a)), tm.mul(_b2n(b), _b2n(b)))),
    "square": lambda a: tm.mul(_b2n(a), _b2n(a)),
    "sqrt": lambda a: tm.app("sqrt", (a,), "R"),
    "sin": lambda a: tm.app("sin", (a,), "R"),
    "cos": lambda a: tm.app("cos", (a,), "R"),
    "tan": lambda a: tm.app("tan", (a,), "R"),
    "exp": lambda a: tm.app("exp", (a,), "R"),
    "reciprocal": lambda a: tm.inv(a),
    "sign": lambda a: tm.sign(_b2n(a)),
    "minimum": _arith(tm.min_),
    "maximum": _arith(tm.max_),
    "fmin": _arith(tm.min_),
    "fmax": _arith(tm.max_),
    "less": _arith(tm.lt),
    "less_equal": _arith(tm.le),
    "greater": _arith(lambda a, b: tm.lt(b, a)),
    "greater_equal": _arith(lambda a, b: tm.le(b, a)),
    "equal": lambda a, b: tm.eq(a, b) if (a.sort == "B") == (b.sort == "B") else tm.eq(_b2n(a), _b2n(b)),
    "not_equal": lambda a, b: tm.not_(OPS["equal"](a, b)),
    "logical_and": lambda a, b: tm.and_(tm.tobool(a), tm.tobool(b)),
    "logical_or": lambda a, b: tm.or_(tm.tobool(a), tm.tobool(b)),
    "logical_not": lambda a: tm.not_(tm.tobool(a)),
    "logical_xor": lambda a, b: tm.not_(tm.eq(tm.tobool(a), tm.tobool(b))),
    "bitwise_and": lambda a, b: tm.and_(_needbool(a), _needbool(b)),
    "bitwise_or": lambda a, b: tm.or_(_needbool(a), _needbool(b)),
    "bitwise_xor": lambda a, b: tm.not_(tm.eq(_needbool(a), _needbool(b))),
    "invert": lambda a: tm.not_(_needbool(a)),
    "isfinite": lambda a: TRUE,
    "isnan": lambda a: FALSE,
    "isinf": lambda a: FALSE,
}


def _nonan(f):
    def g(*a):
        if NANS[0] and any(tm.atoms(x, lambda s: s is NAN) for x in a):
            raise Unsupported("arithmetic on NaN")
        return f(*a)

    return g


OPS = {k: _nonan(f) for k, f in OPS.items()}


def _needbool(a):
    if a.sort != "B":
        raise Unsupported("bitwise operation on numbers")
    return a


def _power(a, b):
    b = to_t(b)
    if b.op != "num":
        raise Unsupported("symbolic exponent")
    v = b.args[0]
    if isinstance(v, int):
        return tm.power(_b2n(a), v)
    if v == tm.Fraction(1, 2):
        return tm.app("sqrt", (a,), "R")
    return tm.app("pow", (a, b), "R")


OPS["power"] = _power
OPS["float_power"] = _power


def _floordiv(a, b):
    if b.op != "num" or not isinstance(b.args[0], int) or a.sort != "I" or b.args[0] <= 0:
        raise Unsupported("floor division")
    return tm.floordiv(a, b.args[0])


OPS["floor_divide"] = _floordiv


def _mod(a, b):
    if b.op == "num":
        return tm.sub(a, tm.mul(b, _floordiv(a, b)))
    raise Unsupported("mod")


OPS["remainder"] = _mod


def _ceil(a):
    if a.op == "num":
        return tm.num(math.ceil(a.args[0]))
    if a.sort == "I":
        return a
    raise Unsupported("ceil")


OPS["ceil"] = _ceil
OPS["floor"] = lambda a: tm.num(math.floor(a.args[0])) if a.op == "num" else (a if a.sort == "I" else _uns("floor"))


def _uns(m):
    raise Unsupported(m)


def _bin(name, swap=False):
    f = OPS[name]

    def g(self, o):
        if type(o) is SymArray or isinstance(o, np.ndarray):
            a, b = (o, self) if swap else (self, o)
            return ufunc_call(name, [a, b])
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return NotImplemented
        b = to_t(o)
        return S(f(b, self.t) if swap else f(self.t, b))

    return g


class S:
    """symbolic scalar"""

    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    __add__, __radd__ = _bin("add"), _bin("add", True)
    __sub__, __rsub__ = _bin("subtract"), _bin("subtract", True)
    __mul__, __rmul__ = _bin("multiply"), _bin("multiply", True)
    __truediv__, __rtruediv__ = _bin("divide"), _bin("divide", True)
    __pow__ = _bin("power")
    __floordiv__ = _bin("floor_divide")
    __mod__ = _bin("remainder")
    __lt__, __le__ = _bin("less"), _bin("less_equal")
    __gt__, __ge__ = _bin("greater"), _bin("greater_equal")
    __and__, __rand__ = _bin("bitwise_and"), _bin("bitwise_and", True)
    __or__, __ror__ = _bin("bitwise_or"), _bin("bitwise_or", True)
    __xor__ = _bin("bitwise_xor")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return _bin("equal")(self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return _bin("not_equal")(self, o)

    def __hash__(self):
        return hash(("S", self.t.id))

    def __neg__(self):
        return S(OPS["negative"](self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return S(OPS["absolute"](self.t))

    def __invert__(self):
        return S(OPS["invert"](self.t))

    def __bool__(self):
        return ctx().branch(self.t)

    def _const(self):
        if self.t.op == "num":
            return self.t.args[0]
        if self.t.sort == "B":
            return 1 if ctx().branch(self.t) else 0
        raise Unsupported("symbolic value %s used where python needs a number" % tm.show(self.t, 3))

    def __index__(self):
        v = self._const()
        if isinstance(v, int):
            return v
        raise TypeError("not an integer")

    def __int__(self):
        return int(self._const())

    def __float__(self):
        return float(self._const())

    def __round__(self, n=None):
        raise Unsupported("round")

    def __ceil__(self):
        return S(_ceil(self.t))

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        return np.dtype(bool) if self.t.sort == "B" else np.dtype(float)

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        if k is None or (isinstance(k, tuple) and all(x is None for x in k)):
            n = 1 if k is None else len(k)
            t = self.t
            return SymArray.new((ONE,) * n, lambda i: t, kind_of(t))
        raise IndexError("scalar")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return _array_function(func, args, kw)

    def __repr__(self):
        return "S(%s)" % tm.show(self.t, 4)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def kind_of(t):
    return {"B": "b", "I": "i", "R": "f"}[t.sort]


# ------------------------------------------------------------------- arrays
class Buffer:
    __slots__ = ("shape", "elem", "kind", "tag", "bid", "name", "writes")
    _ids = itertools.count()

    def __init__(self, shape, elem, kind, name=None):
        self.shape, self.kind, self.name = shape, kind, name
        self.elem = memo(elem)
        self.tag = None
        self.bid = next(Buffer._ids)
        self.writes = 0


def memo(f):
    cache = {}

    def g(idx):
        r = cache.get(idx)
        if r is None:
            r = f(idx)
            cache[idx] = r
        return r

    return g


class SymArray:
    __array_priority__ = 1000

    def __init__(self, buf, maps, shape):
        self.buf, self.maps, self.tshape = buf, maps, tuple(shape)

    # -- construction
    @staticmethod
    def new(shape, fn, kind="f", name=None):
        shape = tuple(to_t(s) for s in shape)
        b = Buffer(shape, fn, kind, name)
        return SymArray(b, tuple(("ax", k, ZERO, 1) for k in range(len(shape))), shape)

    @staticmethod
    def from_np(a):
        a = np.asarray(a)
        if a.dtype == object:
            flat = {i: to_t(a[i]) for i in np.ndindex(*a.shape)}
        else:
            flat = None
        const = None
        if flat is None and a.size and a.size < 10**6 and np.all(a == a.flat[0]):
            const = to_t(a.flat[0].item())

        def fn(idx):
            if const is not None:
                return const
            if all(i.op == "num" for i in idx):
                k = tuple(i.args[0] for i in idx)
                return flat[k] if flat is not None else to_t(a[k].item())
            if a.size > 4096:
                raise Unsupported("symbolic index into a large concrete array")
            free = [d for d, i in enumerate(idx) if i.op != "num"]
            out = None
            for k in itertools.product(*[range(a.shape[d]) for d in free]):
                kk = [i.args[0] if i.op == "num" else None for i in idx]
                c = TRUE
                for d, v in zip(free, k):
                    kk[d] = v
                    c = tm.and_(c, tm.eq(idx[d], tm.num(v)))
                v = flat[tuple(kk)] if flat is not None else to_t(a[tuple(kk)].item())
                if out is None:
                    out = v
                else:
                    dd = ctx().decide(c)
                    if dd is True:
                        return v
                    if dd is False:
                        continue
                    out = tm.ite(c, v, out)
            return out

        kind = {"b": "b", "i": "i", "u": "i"}.get(a.dtype.kind, "f")
        if a.dtype == object:
            kind = "f"
        return SymArray.new(tuple(tm.num(s) for s in a.shape), fn, kind)

    # -- reading
    def bidx(self, idx):
        out = []
        for m in self.maps:
            if m[0] == "fix":
                out.append(m[1])
            else:
                _, k, start, step = m
                out.append(tm.add(start, tm.scale(step, idx[k])))
        return tuple(out)

    def at(self, idx):
        return self.buf.elem(self.bidx(tuple(idx)))

    def fn(self):
        """snapshot of the current contents"""
        elem = self.buf.elem
        bidx = self.bidx
        if self.is_plain():
            return elem
        return lambda idx: elem(bidx(idx))

    def is_plain(self):
        return (
            len(self.maps) == len(self.tshape)
            and all(m[0] == "ax" and m[1] == k and m[2] is ZERO and m[3] == 1 for k, m in enumerate(self.maps))
        )

    # -- numpy attributes
    @property
    def __class__(self):
        return np.ndarray

    @property
    def shape(self):
        return tuple(out_int(s) for s in self.tshape)

    @property
    def ndim(self):
        return len(self.tshape)

    @property
    def size(self):
        o = ONE
        for s in self.tshape:
            o = tm.mul(o, s)
        return out_int(o)

    @property
    def dtype(self):
        return np.dtype({"f": float, "i": int, "b": bool}[self.buf.kind])

    @property
    def base(self):
        return None

    @property
    def T(self):
        return self.transpose()

    def __len__(self):
        s = self.tshape[0]
        if s.op == "num":
            return s.args[0]
        raise Unsupported("len of symbolic extent")

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if all(s is ONE for s in self.tshape):
            return bool(S(self.at((ZERO,) * self.ndim)))
        raise Unsupported("truth value of an array")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if all(s is ONE for s in self.tshape):
            return S(self.at((ZERO,) * self.ndim))
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def copy(self, order=None):
        return SymArray.new(self.tshape, self.fn(), self.buf.kind)

    __copy__ = copy

    def __deepcopy__(self, m):
        return self.copy()

    def astype(self, dt, order=None, casting=None, subok=True, copy=True):
        if not copy and _dkind(dt) == self.buf.kind:
            return self
        return _astype(self, dt)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        raise Unsupported("tolist")

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __repr__(self):
        return "SymArray(%s)" % (self.shape,)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return _reshape(self, shape)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(range(self.ndim))[::-1]
        axes = [a % self.ndim for a in axes]
        inv = {a: k for k, a in enumerate(axes)}
        maps = tuple(m if m[0] == "fix" else ("ax", inv[m[1]], m[2], m[3]) for m in self.maps)
        return SymArray(self.buf, maps, tuple(self.tshape[a] for a in axes))

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def squeeze(self, axis=None):
        return F["squeeze"](self, axis)

    def ravel(self, *a):
        return _reshape(self, (-1,))

    def flatten(self, *a):
        return _reshape(self, (-1,)).copy()

    def sum(self, axis=None, **kw):
        return F["sum"](self, axis=axis, **kw)

    def max(self, axis=None, **kw):
        return F["max"](self, axis=axis, **kw)

    def min(self, axis=None, **kw):
        return F["min"](self, axis=axis, **kw)

    def any(self, axis=None, **kw):
        return F["any"](self, axis=axis, **kw)

    def all(self, axis=None, **kw):
        return F["all"](self, axis=axis, **kw)

    def mean(self, axis=None, **kw):
        return F["mean"](self, axis=axis, **kw)

    def argmin(self, axis=None, **kw):
        return F["argmin"](self, axis=axis, **kw)

    def argmax(self, axis=None, **kw):
        return F["argmax"](self, axis=axis, **kw)

    def prod(self, axis=None, **kw):
        return F["prod"](self, axis=axis, **kw)

    def clip(self, lo=None, hi=None, **kw):
        return F["clip"](self, lo, hi)

    # -- indexing
    def __getitem__(self, key):
        kind, r = _index(self, key)
        if kind == "view":
            if r.ndim == 0 and not _has_ellipsis(key):
                return S(r.at(()))
            return r
        return r()  # fancy copy

    def __setitem__(self, key, val):
        # boolean mask assignment
        k1 = key[0] if isinstance(key, tuple) and len(key) == 1 else key
        if type(k1) is SymArray and k1.buf.kind == "b":
            if k1.ndim != self.ndim:
                raise Unsupported("partial mask")
            if not (_scalar_like(val) or (type(val) is SymArray and val.ndim == 0)):
                raise Unsupported("mask assignment of an array")
            self[...] = F["where"](k1, val, self.copy())
            return
        _setitem(self, key, val)

    # -- operators
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return _array_function(func, args, kw)

    def __neg__(self):
        return ufunc_call("negative", [self])

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return ufunc_call("absolute", [self])

    def __invert__(self):
        return ufunc_call("invert", [self])

    __eq__ = lambda a, b: ufunc_call("equal", [a, b])
    __ne__ = lambda a, b: ufunc_call("not_equal", [a, b])


def _has_ellipsis(key):
    ks = key if isinstance(key, tuple) else (key,)
    return any(k is Ellipsis for k in ks)


def _mkop(name, dunder):
    def f(self, o):
        if o is None or isinstance(o, str):
            return NotImplemented
        return ufunc_call(name, [self, o])

    def rf(self, o):
        return ufunc_call(name, [o, self])

    def inplace(self, o):
        r = ufunc_call(name, [self, o])
        _setitem(self, Ellipsis, r)
        return self

    setattr(SymArray, "__%s__" % dunder, f)
    setattr(SymArray, "__r%s__" % dunder, rf)
    setattr(SymArray, "__i%s__" % dunder, inplace)


for _n, _d in [
    ("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("divide", "truediv"), ("power", "pow"),
    ("floor_divide", "floordiv"), ("bitwise_and", "and"), ("bitwise_or", "or"), ("bitwise_xor", "xor"),
    ("remainder", "mod"),
]:
    _mkop(_n, _d)
for _n, _d in [("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge")]:
    setattr(SymArray, "__%s__" % _d, (lambda n: lambda a, b: ufunc_call(n, [a, b]))(_n))


def as_sym(x):
    if type(x) is SymArray:
        return x
    if type(x) is S:
        t = x.t
        return SymArray.new((), lambda i: t, kind_of(t))
    if isinstance(x, np.ndarray):
        return SymArray.from_np(x)
    if isinstance(x, (list, tuple)):
        if any(is_sym(e) or isinstance(e, (list, tuple)) for e in x):
            return F["stack"]([as_sym(e) for e in x])
        return SymArray.from_np(np.array(x))
    t = to_t(x)
    return SymArray.new((), lambda i: t, kind_of(t))


def dim_eq(a, b):
    if a is b:
        return True
    c = tm.eq(a, b)
    return ctx().branch(c) if c not in (TRUE, FALSE) else c is TRUE


def bcast_shape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if e is ONE:
                continue
            if d is ONE:
                d = e
            elif dim_eq(d, e):
                continue
            elif e.op != "num" and dim_eq(e, ONE):
                continue
            elif d.op != "num" and dim_eq(d, ONE):
                d = e
            else:
                raise ValueError(
                    "operands could not be broadcast together with shapes %s"
                    % " ".join(str(tuple(tm.show(x) for x in s)) for s in shapes)
                )
        out.append(d)
    return tuple(out)


def bfn(a, nd, oshape=None):
    """element function of a broadcast to nd dims"""
    f = a.fn()
    off = nd - a.ndim
    # an extent counts as broadcast when it is 1 and the output's is not the same term
    keep = [
        not (s is ONE or (oshape is not None and s is not oshape[off + k] and ctx().decide(tm.eq(s, ONE)) is True))
        for k, s in enumerate(a.tshape)
    ]
    if off == 0 and all(keep):
        return f
    return lambda idx: f(tuple(idx[off + k] if keep[k] else ZERO for k in range(a.ndim)))


BOOL_OUT = {
    "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
    "logical_not", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_xor", "invert", "isfinite", "isnan", "isinf",
}


def ufunc_call(name, inputs):
    f = OPS.get(name)
    if f is None:
        raise Unsupported("ufunc %s" % name)
    if all(_scalar_like(x) for x in inputs):
        return S(f(*[to_t(x) for x in inputs]))
    arrs = [as_sym(x) for x in inputs]
    shape = bcast_shape([a.tshape for a in arrs])
    fs = [bfn(a, len(shape), shape) for a in arrs]
    if name in BOOL_OUT:
        kind = "b"
    elif name in ("divide", "true_divide", "sqrt", "hypot", "sin", "cos", "tan", "exp", "reciprocal"):
        kind = "f"
    else:
        kind = "f" if any(a.buf.kind == "f" for a in arrs) else "i"
    if len(fs) == 1:
        f0 = fs[0]
        fn = lambda idx: f(f0(idx))
    else:
        f0, f1 = fs
        fn = lambda idx: f(f0(idx), f1(idx))
    r = SymArray.new(shape, fn, kind)
    if r.ndim == 0:
        return S(r.at(()))
    return r


def _array_ufunc(ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    kw.pop("casting", None)
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    if method == "reduce":
        if isinstance(inputs[0], (list, tuple)):
            inputs = [F["stack"](inputs[0])]
        name = {"add": "sum", "maximum": "max", "minimum": "min", "logical_or": "any", "logical_and": "all",
                "multiply": "prod"}.get(ufunc.__name__)
        if name is None or out is not None:
            raise Unsupported("%s.reduce" % ufunc.__name__)
        kw.setdefault("axis", 0)
        return F[name](inputs[0], **{k: v for k, v in kw.items() if k in ("axis", "keepdims")})
    if method == "outer":
        a, b = (as_sym(x) for x in inputs)
        return ufunc_call(ufunc.__name__, [a[(Ellipsis,) + (None,) * b.ndim], b])
    if method != "__call__" or kw:
        raise Unsupported("ufunc method %s %s" % (method, list(kw)))
    r = ufunc_call(ufunc.__name__, list(inputs))
    if where is not True:
        if out is None:
            raise Unsupported("where= without out=")
        o = out[0] if isinstance(out, tuple) else out
        r = F["where"](where, r, o.copy())
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if type(o) is not SymArray:
            raise Unsupported("out= a concrete array")
        shp = bcast_shape([o.tshape, as_sym(r).tshape])
        if len(shp) != o.ndim:
            raise ValueError("non-broadcastable output operand")
        _setitem(o, Ellipsis, r)
        return o
    return r


# ----------------------------------------------------------------- indexing
def _norm_slice(s, L):
    """-> start T, step int, length T"""
    c = ctx()
    step = s.step
    if step is None:
        step = 1
    step = int(step)
    if step == 0:
        raise ValueError("slice step cannot be zero")

    def clampidx(x, lo, hi):
        # python slice semantics: negative -> + L, clamp to [lo, hi]
        x = to_t(x)
        if x.sort != "I":
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        if c.branch(tm.lt(x, ZERO)):
            x = tm.add(x, L)
            if c.branch(tm.lt(x, lo)):
                x = lo
        elif c.branch(tm.lt(hi, x)):
            x = hi
        return x

    if step > 0:
        start = ZERO if s.start is None else clampidx(s.start, ZERO, L)
        stop = L if s.stop is None else clampidx(s.stop, ZERO, L)
        if c.branch(tm.le(start, stop)):
            n = tm.sub(stop, start)
        else:
            n = ZERO
        if step > 1:
            n = tm.floordiv(tm.add(n, tm.num(step - 1)), step)
    else:
        Lm = tm.sub(L, ONE)
        start = Lm if s.start is None else clampidx(s.start, tm.num(-1), Lm)
        stop = tm.num(-1) if s.stop is None else clampidx(s.stop, tm.num(-1), Lm)
        if c.branch(tm.le(stop, start)):
            n = tm.sub(start, stop)
        else:
            n = ZERO
        if step < -1:
            n = tm.floordiv(tm.add(n, tm.num(-step - 1)), -step)
    return start, step, n


def _is_fancy(k):
    if isinstance(k, list):
        return True
    if type(k) is SymArray:
        raise Unsupported("symbolic fancy index")
    return isinstance(k, np.ndarray) and k.ndim >= 1


def _index(a, key):
    """-> ("view", SymArray) or ("copy", thunk)"""
    if not isinstance(key, tuple):
        key = (key,)
    # normalise 0-d arrays / numpy ints
    key = tuple(int(k) if (isinstance(k, np.integer) or (type(k) is np.ndarray and k.ndim == 0)) else k for k in key)
    n_used = sum(1 for k in key if k is not None and k is not Ellipsis)
    if n_used > a.ndim:
        raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (a.ndim, n_used))
    if not any(k is Ellipsis for k in key):
        key = key + (Ellipsis,)
    fancy = [k for k in key if k is not None and k is not Ellipsis and _is_fancy(k)]
    if fancy:
        if len(fancy) > 1:
            raise Unsupported("several fancy indices")
        pos = next(i for i, k in enumerate(key) if k is not None and k is not Ellipsis and _is_fancy(k))
        arr = np.asarray(key[pos])
        if arr.dtype == bool:
            arr = np.nonzero(arr)[0]
        if arr.ndim != 1:
            raise Unsupported("fancy index rank")
        if any(isinstance(k, (int, S)) and not isinstance(k, bool) for k in key) and pos != 0:
            raise Unsupported("mixed fancy and integer index")
        L = [int(x) for x in arr]
        # basic index with the fancy axis kept whole
        k2 = key[:pos] + (slice(None),) + key[pos + 1 :]
        _, v = _index(a, k2)
        # which view axis is it?
        ax = 0
        for k in key[:pos]:
            if k is Ellipsis:
                ax += a.ndim - n_used
            elif isinstance(k, slice) or k is None:
                ax += 1
        n = v.tshape[ax]
        LL = []
        for x in L:
            if n.op == "num":
                if not -n.args[0] <= x < n.args[0]:
                    raise IndexError("index %d is out of bounds for axis with size %s" % (x, n.args[0]))
                LL.append(tm.num(x % n.args[0]))
            else:
                LL.append(tm.num(x) if x >= 0 else tm.add(n, tm.num(x)))

        def thunk():
            f = v.fn()

            def fn(idx):
                i = idx[ax]
                if i.op == "num":
                    return f(idx[:ax] + (LL[i.args[0]],) + idx[ax + 1 :])
                out = None
                for q, x in enumerate(LL):
                    e = f(idx[:ax] + (x,) + idx[ax + 1 :])
                    out = e if out is None else ctx().ite(tm.eq(i, tm.num(q)), lambda: e, lambda: out)
                return out

            return SymArray.new(v.tshape[:ax] + (tm.num(len(LL)),) + v.tshape[ax + 1 :], fn, a.buf.kind)

        thunk.view, thunk.axis, thunk.list = v, ax, LL
        return "copy", thunk
    newmap = {}  # a-axis -> ("fix", t) or ("ax", newaxis, start, step)
    shape = []
    ax = 0
    c = ctx()
    for k in key:
        if k is None:
            shape.append(ONE)
        elif k is Ellipsis:
            for _ in range(a.ndim - n_used):
                newmap[ax] = ("ax", len(shape), ZERO, 1)
                shape.append(a.tshape[ax])
                ax += 1
        elif isinstance(k, slice):
            L = a.tshape[ax]
            if k == slice(None) if not (is_sym(k.start) or is_sym(k.stop)) else False:
                newmap[ax] = ("ax", len(shape), ZERO, 1)
                shape.append(L)
            else:
                st, step, n = _norm_slice(k, L)
                newmap[ax] = ("ax", len(shape), st, step)
                shape.append(n)
            ax += 1
        elif isinstance(k, (bool, np.bool_)):
            raise Unsupported("boolean index")
        elif isinstance(k, (int, S)):
            L = a.tshape[ax]
            t = to_t(k)
            if t.sort != "I":
                raise IndexError("only integers, slices (`:`), ellipsis (`...`) ... are valid indices")
            if c.branch(tm.lt(t, ZERO)):
                t = tm.add(t, L)
            if not c.branch(tm.and_(tm.le(ZERO, t), tm.lt(t, L))):
                raise IndexError("index out of bounds")
            newmap[ax] = ("fix", t)
            ax += 1
        else:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis and integer arrays are valid indices, got %r" % (k,))
    maps = []
    for m in a.maps:
        if m[0] == "fix":
            maps.append(m)
        else:
            _, k, start, step = m
            nm = newmap[k]
            if nm[0] == "fix":
                maps.append(("fix", tm.add(start, tm.scale(step, nm[1]))))
            else:
                maps.append(("ax", nm[1], tm.add(start, tm.scale(step, nm[2])), step * nm[3]))
    return "view", SymArray(a.buf, tuple(maps), tuple(shape))


def _setitem(a, key, val):
    kind, r = _index(a, key)
    if kind == "copy":
        v, ax, LL = r.view, r.axis, r.list
        val = as_sym(val) if not _scalar_like(val) else val
        full = v.tshape[:ax] + (tm.num(len(LL)),) + v.tshape[ax + 1 :]
        if type(val) is SymArray:
            shp = bcast_shape([full, val.tshape])
            if len(shp) > len(full):
                raise ValueError("shape mismatch")
            vf = bfn(val, len(full), full)
        for q, x in enumerate(LL):
            maps = []
            for m in v.maps:
                if m[0] == "ax" and m[1] == ax:
                    maps.append(("fix", tm.add(m[2], tm.scale(m[3], x))))
                elif m[0] == "ax":
                    maps.append(("ax", m[1] - (1 if m[1] > ax else 0), m[2], m[3]))
                else:
                    maps.append(m)
            sub = SymArray(v.buf, tuple(maps), v.tshape[:ax] + v.tshape[ax + 1 :])
            if type(val) is SymArray:
                qq = tm.num(q)
                piece = SymArray.new(sub.tshape, (lambda qq: lambda idx: vf(idx[:ax] + (qq,) + idx[ax:]))(qq), val.buf.kind)
            else:
                piece = val
            _write(sub, piece)
        return
    _write(r, val)


def _write(view, val):
    buf = view.buf
    if _scalar_like(val):
        t = to_t(val)
        vf = lambda idx: t
        vkind = kind_of(t)
    else:
        val = as_sym(val)
        if val.ndim > view.ndim:
            # numpy drops leading ones
            extra = val.ndim - view.ndim
            if not all(s is ONE for s in val.tshape[:extra]):
                raise ValueError("could not broadcast input array from shape %s into shape %s" % (val.shape, view.shape))
            val = val[(0,) * extra] if val.ndim > extra else S(val.at((ZERO,) * extra))
            val = as_sym(val)
        for k in range(val.ndim):
            s, d = val.tshape[val.ndim - 1 - k], view.tshape[view.ndim - 1 - k]
            if s is ONE:
                continue
            if not dim_eq(s, d):
                if s.op != "num" and dim_eq(s, ONE):
                    continue
                raise ValueError("could not broadcast input array from shape %s into shape %s" % (val.shape, view.shape))
        vf = bfn(val, view.ndim, view.tshape)
        vkind = val.buf.kind
    if buf.kind in ("b",):
        conv = tm.tobool
    elif vkind == "b":
        conv = tm.tonum
    elif buf.kind == "i" and vkind == "f":
        raise Unsupported("float stored in an integer array")
    else:
        conv = lambda t: t
    old = buf.elem
    maps, shape = view.maps, view.tshape
    nview = view.ndim
    if _covers(view):
        inv = {}
        for bk, m in enumerate(maps):
            if m[0] == "ax":
                inv[m[1]] = (bk, m[2], m[3])

        def fnw(bidx):
            idx = []
            for k in range(nview):
                if k in inv:
                    bk, st, step = inv[k]
                    d = tm.sub(bidx[bk], st)
                    idx.append(d if step == 1 else tm.neg(d))
                else:
                    idx.append(ZERO)
            return conv(vf(tuple(idx)))

        buf.elem = memo(fnw)
        buf.writes += 1
        buf.tag = None
        if nview == len(maps) and all(m[0] == "ax" and m[2] is ZERO and m[3] == 1 and m[1] == k for k, m in enumerate(maps)):
            if type(val) is SymArray and val.is_plain() and val.buf.tag is not None:
                buf.tag = val.buf.tag
        return

    def fn(bidx):
        c = ctx()
        cond = TRUE
        idx = [ZERO] * nview
        for bk, m in enumerate(maps):
            b = bidx[bk]
            if m[0] == "fix":
                e = tm.eq(b, m[1])
                d = c.decide(e)
                if d is False:
                    return old(bidx)
                if d is None:
                    cond = tm.and_(cond, e)
            else:
                _, k, st, step = m
                n = shape[k]
                if step == 1:
                    q = tm.sub(b, st)
                elif step == -1:
                    q = tm.sub(st, b)
                else:
                    d0 = tm.scale(1 if step > 0 else -1, tm.sub(b, st))
                    q = tm.floordiv(d0, abs(step))
                    e = tm.eq(tm.scale(abs(step), q), d0)
                    d = c.decide(e)
                    if d is False:
                        return old(bidx)
                    if d is None:
                        cond = tm.and_(cond, e)
                if not (n is buf.shape[bk] and (step == 1 and st is ZERO or step == -1 and st is tm.sub(n, ONE))):
                    # (an axis the view covers entirely needs no test: accesses are checked against the buffer)
                    for e in (tm.le(ZERO, q), tm.lt(q, n)):
                        d = c.decide(e)
                        if d is False:
                            return old(bidx)
                        if d is None:
                            cond = tm.and_(cond, e)
                idx[k] = q
        nv = conv(vf(tuple(idx)))
        if cond is TRUE:
            return nv
        return tm.ite(cond, nv, old(bidx))

    buf.elem = memo(fn)
    buf.writes += 1
    buf.tag = None


def _covers(view):
    """does the view syntactically cover the whole buffer?"""
    for bk, m in enumerate(view.maps):
        if m[0] != "ax":
            return False
        _, k, st, step = m
        n, L = view.tshape[k], view.buf.shape[bk]
        if n is not L:
            return False
        if step == 1 and st is ZERO:
            continue
        if step == -1 and st is tm.sub(L, ONE):
            continue
        return False
    return True


# ------------------------------------------------------- numpy functions
F = {}


def impl(*names):
    def d(f):
        for n in names or (f.__name__,):
            F[n] = f
        return f

    return d


def _array_function(func, args, kw):
    name = func.__name__
    f = F.get(name)
    if f is None:
        raise Unsupported("numpy.%s" % name)
    return f(*args, **kw)


def _dkind(dtype, default="f"):
    if dtype is None:
        return default
    k = np.dtype(dtype).kind
    return {"b": "b", "i": "i", "u": "i", "f": "f"}.get(k) or _uns("dtype %s" % dtype)


def _like_shape(a, shape):
    return as_sym(a).tshape if shape is None else _tshape(shape)


def _tshape(shape):
    if isinstance(shape, (int, S, np.integer)):
        shape = (shape,)
    return tuple(to_t(s) for s in shape)


def const_array(shape, v, kind="f"):
    t = to_t(v)
    if kind == "b":
        t = tm.tobool(t)
    else:
        t = tm.tonum(t)
    return SymArray.new(shape, lambda idx: t, kind)


def mem_array(shape, kind="f", label="mem"):
    """uninitialised memory: arbitrary contents"""
    name = ctx().fresh(label)
    sort = {"f": "R", "i": "I", "b": "B"}[kind]
    return SymArray.new(shape, lambda idx: tm.app(name, idx, sort) if idx else tm.var(name, sort), kind)


@impl()
def zeros_like(a, dtype=None, order=None, subok=True, shape=None, **k):
    a_ = as_sym(a)
    return const_array(_like_shape(a, shape), 0, _dkind(dtype, a_.buf.kind))


@impl()
def ones_like(a, dtype=None, order=None, subok=True, shape=None, **k):
    a_ = as_sym(a)
    return const_array(_like_shape(a, shape), 1, _dkind(dtype, a_.buf.kind))


@impl()
def full_like(a, fill_value, dtype=None, order=None, subok=True, shape=None, **k):
    a_ = as_sym(a)
    r = const_array(_like_shape(a, shape), 0, _dkind(dtype, a_.buf.kind))
    r[...] = fill_value
    return r


@impl()
def empty_like(a, dtype=None, order=None, subok=True, shape=None, **k):
    a_ = as_sym(a)
    return mem_array(_like_shape(a, shape), _dkind(dtype, a_.buf.kind))


@impl()
def where(c, *xy):
    if len(xy) != 2:
        raise Unsupported("one-argument where")
    x, y = xy
    if all(_scalar_like(v) for v in (c, x, y)):
        return S(tm.ite(tm.tobool(to_t(c)), to_t(x), to_t(y)))
    arrs = [as_sym(v) for v in (c, x, y)]
    shape = bcast_shape([a.tshape for a in arrs])
    fc, fx, fy = (bfn(a, len(shape), shape) for a in arrs)
    kind = "f"
    if arrs[1].buf.kind == arrs[2].buf.kind:
        kind = arrs[1].buf.kind
    elif "f" not in (arrs[1].buf.kind, arrs[2].buf.kind):
        kind = "i"

    def fn(idx):
        return ctx().ite(tm.tobool(fc(idx)), lambda: fx(idx), lambda: fy(idx))

    r = SymArray.new(shape, fn, kind)
    return S(r.at(())) if r.ndim == 0 else r


@impl()
def copy(a, **k):
    return as_sym(a).copy()


@impl("asarray", "asanyarray")
def _asarray(a, dtype=None, copy=None, **k):
    r = as_sym(a)
    return r.copy() if copy else r


@impl("ascontiguousarray")
def _contiguous(a, dtype=None, **k):
    _uns("ascontiguousarray copies or not depending on the layout")


@impl("array")
def _array(a, dtype=None, copy=True, **k):
    r = as_sym(a)
    if dtype is not None and type(a) is SymArray and _dkind(dtype) != a.buf.kind:
        return _astype(r, dtype)
    return r.copy() if copy and type(a) is SymArray else r


def _astype(a, dt):
    k = _dkind(dt)
    f = a.fn()
    if k == "b":
        return SymArray.new(a.tshape, lambda i: tm.tobool(f(i)), "b")
    if k == "i" and a.buf.kind == "f":
        raise Unsupported("float to int cast")
    return SymArray.new(a.tshape, lambda i: tm.tonum(f(i)), k)


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    out = []
    for x in axis:
        if not -nd <= x < nd:
            raise np.exceptions.AxisError(x, nd)
        out.append(x % nd)
    return tuple(sorted(out))


def _only(k, allowed=("where", "initial", "weights", "out", "returned")):
    """keyword arguments that change the result are not modelled"""
    for q, v in k.items():
        if v is not np._NoValue and v is not None and not (q == "where" and v is True):
            raise Unsupported("reduction with " + q)


def _reduce(name, a, axis, keepdims, fold, single=False):
    a = as_sym(a)
    axes = _axes(axis, a.ndim)
    if name in ("max", "min"):
        for k in axes:
            if a.tshape[k].op != "num" and ctx().branch(tm.le(a.tshape[k], ZERO)):
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    f = a.fn()
    conc = [k for k in axes if a.tshape[k].op == "num"]
    symb = [k for k in axes if a.tshape[k].op != "num"]
    rest = [k for k in range(a.ndim) if k not in axes]
    keepdims = bool(keepdims) if keepdims is not np._NoValue else False

    def inner(ridx, sidx):
        """fold over concrete axes at fixed remaining / symbolic indices"""
        out = None
        for q in itertools.product(*[range(a.tshape[k].args[0]) for k in conc]):
            idx = [None] * a.ndim
            for k, v in zip(conc, q):
                idx[k] = tm.num(v)
            for k, v in zip(symb, sidx):
                idx[k] = v
            for k, v in zip(rest, ridx):
                idx[k] = v
            e = f(tuple(idx))
            out = e if out is None else fold(out, e)
        if out is None:
            if name in ("max", "min"):
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            out = {"sum": ZERO, "prod": ONE, "any": FALSE, "all": TRUE}[name]
        return out

    if name in ("max", "min") and any(a.tshape[k].op == "num" and a.tshape[k].args[0] == 0 for k in axes):
        raise ValueError("zero-size array to reduction operation")
    if not symb:
        value = lambda ridx: inner(ridx, ())
    else:
        value = _symbolic_reduction(name, a, symb, rest, inner)
    if name in ("any", "all"):
        kind = "b"
    else:
        kind = "f" if a.buf.kind == "f" else "i"
    shape = tuple(a.tshape[k] for k in rest)
    if keepdims:
        kshape = tuple(ONE if k in axes else a.tshape[k] for k in range(a.ndim))
        return SymArray.new(kshape, lambda idx: value(tuple(idx[k] for k in rest)), kind)
    if not rest:
        return S(value(()))
    return SymArray.new(shape, value, kind)


REDUCTION_HOOK = None


def _nonneg(e):
    if e.op == "num":
        return e.args[0] >= 0
    return e.op == "ite" and _nonneg(e.args[1]) and _nonneg(e.args[2])


def _symbolic_reduction(name, a, symb, rest, inner):
    """reduction over symbolic extents: a fresh symbol constrained by its contract
    (bound for every index, attained at a witness index)"""
    c = ctx()
    base = c.fresh(name)
    cache = {}

    def value(ridx):
        if ridx in cache:
            return cache[ridx]
        # constant along the reduced axes?
        c.probe_depth += 1
        try:
            probe = tuple(tm.var("probe!%d!%d" % (c.probe_depth, k), "I") for k in range(len(symb)))
            e = inner(ridx, probe)
        finally:
            c.probe_depth -= 1
        if tm.atoms(e, lambda s: s in set(probe)) and e.sort != "B":
            try:
                x = tm.expand(e)
                e = e if tm.atoms(x, lambda s: s in set(probe)) else x
            except tm.TooBig:
                pass
        if not (tm.atoms(e, lambda s: s in set(probe))):
            if name in ("max", "min", "mean", "any", "all"):
                cache[ridx] = e
                return e
            if name == "sum":
                n = ONE
                for k in symb:
                    n = tm.mul(n, a.tshape[k])
                cache[ridx] = tm.mul(n, tm.tonum(e))
                return cache[ridx]
        if name in ("sum", "prod", "mean"):
            e = tm.tonum(e)
        # the same function over the same range has the same reduction
        key = (name, e, tuple(a.tshape[k] for k in symb), probe)
        if key in c.reductions:
            cache[ridx] = c.reductions[key]
            return cache[ridx]
        nm = base + "@" + ",".join(tm.show(r, 3) for r in ridx)
        if name in ("sum", "prod", "mean"):
            v = tm.var(nm, "R")
            cache[ridx] = c.reductions[key] = v
            c.sums.add(v)  # not fully axiomatised: a model that uses it is no counterexample
            if name in ("sum", "mean") and _nonneg(e):
                c.assume(tm.le(ZERO, v))
            return v
        shp = tuple(a.tshape[k] for k in symb)
        wit = tuple(tm.var("%s_w%d" % (nm, i), "I") for i in range(len(symb)))
        inr = tm.and_(*[tm.and_(tm.le(ZERO, w), tm.lt(w, s)) for w, s in zip(wit, shp)])
        ew = inner(ridx, wit)
        if name in ("max", "min"):
            v = tm.var(nm, "R")
            c.assume(inr)
            c.assume(tm.eq(v, ew))
            c.points.append(wit)
            bound = (lambda e: tm.le(e, v)) if name == "max" else (lambda e: tm.le(v, e))
            c.univ.append((len(symb), shp, lambda idx: bound(inner(ridx, idx)), nm))
        else:
            v = tm.var(nm, "B")
            c.points.append(wit)
            if name == "any":
                c.assume(tm.implies(v, tm.and_(inr, tm.tobool(ew))))
                c.univ.append((len(symb), shp, lambda idx: tm.implies(tm.tobool(inner(ridx, idx)), v), nm))
            else:
                c.assume(tm.implies(tm.not_(v), tm.and_(inr, tm.not_(tm.tobool(ew)))))
                c.univ.append((len(symb), shp, lambda idx: tm.implies(v, tm.tobool(inner(ridx, idx))), nm))
        cache[ridx] = c.reductions[key] = v
        return v

    if REDUCTION_HOOK is not None:
        r = REDUCTION_HOOK(name, a, symb, rest, inner)
        if r is not None:
            return r
    return value


@impl("sum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _only(dict(k, out=out))
    return _reduce("sum", a, axis, keepdims, lambda x, y: tm.add(_b2n(x), _b2n(y)))


@impl("prod")
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _only(dict(k, out=out))
    return _reduce("prod", a, axis, keepdims, lambda x, y: tm.mul(_b2n(x), _b2n(y)))


@impl("max", "amax")
def _max(a, axis=None, out=None, keepdims=False, **k):
    _only(dict(k, out=out))
    return _reduce("max", a, axis, keepdims, lambda x, y: tm.max_(x, y))


@impl("min", "amin")
def _min(a, axis=None, out=None, keepdims=False, **k):
    _only(dict(k, out=out))
    return _reduce("min", a, axis, keepdims, lambda x, y: tm.min_(x, y))


@impl("any")
def _any(a, axis=None, out=None, keepdims=False, **k):
    _only(dict(k, out=out))
    return _reduce("any", ufunc_call("logical_not", [ufunc_call("logical_not", [as_sym(a)])]), axis, keepdims, lambda x, y: tm.or_(x, y))


@impl("all")
def _all(a, axis=None, out=None, keepdims=False, **k):
    _only(dict(k, out=out))
    return _reduce("all", ufunc_call("logical_not", [ufunc_call("logical_not", [as_sym(a)])]), axis, keepdims, lambda x, y: tm.and_(x, y))


@impl("mean", "average")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    _only(k)
    a = as_sym(a)
    keepdims = bool(keepdims) if keepdims is not np._NoValue else False
    axes = _axes(axis, a.ndim)
    n = 1
    empty = False
    for x in axes:
        if a.tshape[x].op == "num":
            n *= a.tshape[x].args[0]
        else:
            empty = ctx().branch(tm.le(a.tshape[x], ZERO)) or empty
    if n == 0 or empty:
        # not a number: some value nothing is known about
        nm = ctx().fresh("nan")
        rest = tuple((ONE if k in axes else a.tshape[k]) for k in range(a.ndim) if keepdims or k not in axes)
        return SymArray.new(rest, lambda i: tm.app(nm, tuple(i), "R"), "f") if rest else S(tm.var(nm, "R"))
    if all(a.tshape[x].op == "num" for x in axes):
        return _sum(a, axis, keepdims=keepdims) / n
    conc = tuple(x for x in axes if a.tshape[x].op == "num")
    if conc:
        a = _sum(a, conc, keepdims=True) / n
    return _reduce("mean", a, axis, keepdims, lambda x, y: _uns("mean"), single=True)


def _reshape(a, shape):
    a = as_sym(a)
    shape = list(shape)
    nontriv = [s for s in a.tshape if s is not ONE]
    ts = [None if (isinstance(s, (int, np.integer)) and s == -1) else to_t(s) for s in shape]
    tgt = [t for t in ts if t is not ONE]
    if None in tgt:
        others = [t for t in tgt if t is not None]
        # -1 must absorb exactly one (or zero) axis
        if len(tgt) == len(nontriv):
            j = tgt.index(None)
            ts[ts.index(None)] = nontriv[j]
            tgt[j] = nontriv[j]
        elif len(tgt) == len(nontriv) + 1:
            j = ts.index(None)
            ts[j] = ONE
            tgt.remove(None)
        elif not others and all(t.op == "num" for t in nontriv):
            n = 1
            for t in nontriv:
                n *= t.args[0]
            ts[ts.index(None)] = tm.num(n)
            return _reshape_general(a, tuple(ts))
        else:
            raise Unsupported("reshape")
    if len(tgt) != len(nontriv) or not all(x is y or dim_eq(x, y) for x, y in zip(nontriv, tgt)):
        if all(t.op == "num" for t in nontriv + tgt):
            return _reshape_general(a, tuple(ts))
        # symbolic extents that may be one
        raise Unsupported("reshape of symbolic extents")
    src = [k for k, s in enumerate(a.tshape) if s is not ONE]
    dst = [k for k, t in enumerate(ts) if t is not ONE]
    # as a view
    maps = []
    newpos = dict(zip(src, dst))
    for m in a.maps:
        if m[0] == "fix":
            maps.append(m)
        elif m[1] in newpos:
            maps.append(("ax", newpos[m[1]], m[2], m[3]))
        else:
            maps.append(("fix", m[2]))
    return SymArray(a.buf, tuple(maps), tuple(ts))


def _reshape_general(a, ts):
    n1 = n2 = 1
    for t in a.tshape:
        n1 *= t.args[0]
    for t in ts:
        n2 *= t.args[0]
    if n1 != n2:
        raise ValueError("cannot reshape array of size %d into shape %s" % (n1, ts))
    f = a.fn()
    s1 = [t.args[0] for t in a.tshape]
    s2 = [t.args[0] for t in ts]

    def fn(idx):
        if not all(i.op == "num" for i in idx):
            raise Unsupported("symbolic index through reshape")
        flat = int(np.ravel_multi_index([i.args[0] for i in idx], s2))
        return f(tuple(tm.num(int(q)) for q in np.unravel_index(flat, s1)))

    return SymArray.new(ts, fn, a.buf.kind)


@impl()
def reshape(a, shape=None, order="C", **k):
    if shape is None:
        shape = k.get("newshape")
    return _reshape(a, shape if isinstance(shape, (tuple, list)) else (shape,))


@impl()
def transpose(a, axes=None):
    return as_sym(a).transpose(*(axes or ()))


@impl()
def swapaxes(a, x, y):
    return as_sym(a).swapaxes(x, y)


@impl()
def moveaxis(a, source, destination):
    a = as_sym(a)
    src = [s % a.ndim for s in ([source] if isinstance(source, int) else source)]
    dst = [s % a.ndim for s in ([destination] if isinstance(destination, int) else destination)]
    order = [n for n in range(a.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(*order)


@impl()
def expand_dims(a, axis):
    a = as_sym(a)
    if isinstance(axis, int):
        axis = (axis,)
    nd = a.ndim + len(axis)
    axis = {x % nd for x in axis}
    return a[tuple(None if k in axis else slice(None) for k in range(nd))]


@impl()
def squeeze(a, axis=None):
    a = as_sym(a)
    if axis is None:
        axis = [k for k, s in enumerate(a.tshape) if s is ONE]
    elif isinstance(axis, int):
        axis = [axis % a.ndim]
    return a[tuple(0 if k in axis else slice(None) for k in range(a.ndim))]


@impl()
def flip(a, axis=None):
    a = as_sym(a)
    ax = _axes(axis, a.ndim)
    return a[tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim))]


@impl()
def rot90(a, k=1, axes=(0, 1)):
    a = as_sym(a)
    p, q = (x % a.ndim for x in axes)
    for _ in range(k % 4):
        a = flip(swapaxes(a, p, q), p)
    return a


def _arg(name, a, axis):
    """index of the first smallest / largest element"""
    a = as_sym(a)
    if axis is not None or a.ndim != 1:
        if a.ndim == 1 and axis in (0, -1):
            pass
        else:
            raise Unsupported("%s along an axis" % name)
    f, L, c = a.fn(), a.tshape[0], ctx()
    less = (lambda x, y: tm.lt(x, y)) if name == "argmin" else (lambda x, y: tm.lt(y, x))
    if L.op == "num":
        n = L.args[0]
        if n == 0:
            raise ValueError("attempt to get %s of an empty sequence" % name)
        best = 0
        for k in range(1, n):
            if c.branch(less(f((tm.num(k),)), f((tm.num(best),)))):
                best = k
        return best
    probe = tm.var("argprobe!", "I")
    key = (name, f((probe,)), L, probe)
    if key not in c.reductions:
        v = tm.var(c.fresh(name), "I")
        c.assume(tm.and_(tm.le(ZERO, v), tm.lt(v, L)))
        c.points.append((v,))
        c.univ.append((1, (L,), lambda idx: tm.and_(tm.not_(less(f(idx), f((v,)))), tm.implies(tm.lt(idx[0], v), less(f((v,)), f(idx)))), v.args[0]))
        c.reductions[key] = v
    return S(c.reductions[key])


@impl()
def argmin(a, axis=None, out=None, **k):
    return _arg("argmin", a, axis)


@impl()
def argmax(a, axis=None, out=None, **k):
    return _arg("argmax", a, axis)


@impl()
def diff(a, n=1, axis=-1, **k):
    a = as_sym(a)
    ax = axis % a.ndim
    for _ in range(n):
        hi = tuple(slice(1, None) if q == ax else slice(None) for q in range(a.ndim))
        lo = tuple(slice(None, -1) if q == ax else slice(None) for q in range(a.ndim))
        a = a[hi] - a[lo]
    return a


@impl()
def clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))
    r = a
    if lo is not None:
        r = ufunc_call("maximum", [r, lo])
    if hi is not None:
        r = ufunc_call("minimum", [r, hi])
    if out is not None:
        _setitem(out, Ellipsis, r)
        return out
    return r


@impl()
def take(a, indices, axis=None, **k):
    a = as_sym(a)
    if axis is None:
        raise Unsupported("take without axis")
    ax = axis % a.ndim
    key = [slice(None)] * a.ndim
    key[ax] = int(indices) if np.ndim(indices) == 0 else np.asarray(indices)
    return a[tuple(key)]


@impl()
def broadcast_to(a, shape, **k):
    a = as_sym(a)
    ts = _tshape(shape)
    bs = bcast_shape([a.tshape, ts])
    return SymArray.new(bs, bfn(a, len(bs), bs), a.buf.kind)


@impl()
def stack(arrays, axis=0, **k):
    arrs = [as_sym(x) for x in arrays]
    shp = arrs[0].tshape
    for b in arrs[1:]:
        if len(b.tshape) != len(shp) or not all(dim_eq(p, q) for p, q in zip(shp, b.tshape)):
            raise ValueError("all input arrays must have the same shape")
    ax = axis % (len(shp) + 1)
    fs = [x.fn() for x in arrs]

    def fn(idx):
        i = idx[ax]
        rest = idx[:ax] + idx[ax + 1 :]
        if i.op == "num":
            return fs[i.args[0]](rest)
        out = fs[0](rest)
        for q in range(1, len(fs)):
            v = fs[q](rest)
            out = tm.ite(tm.eq(i, tm.num(q)), v, out)
        return out

    kind = "f" if any(x.buf.kind == "f" for x in arrs) else arrs[0].buf.kind
    return SymArray.new(shp[:ax] + (tm.num(len(arrs)),) + shp[ax:], fn, kind)


@impl()
def concatenate(arrays, axis=0, **k):
    arrs = [as_sym(x) for x in arrays]
    nd = arrs[0].ndim
    ax = axis % nd
    for b in arrs[1:]:
        if b.ndim != nd or not all(dim_eq(p, q) for d, (p, q) in enumerate(zip(arrs[0].tshape, b.tshape)) if d != ax):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    fs = [x.fn() for x in arrs]
    starts = [ZERO]
    for x in arrs:
        starts.append(tm.add(starts[-1], x.tshape[ax]))

    def fn(idx):
        i = idx[ax]

        def go(q):
            v = lambda: fs[q](idx[:ax] + (tm.sub(i, starts[q]),) + idx[ax + 1 :])
            if q == len(fs) - 1:
                return v()
            return ctx().ite(tm.lt(i, starts[q + 1]), v, lambda: go(q + 1))

        return go(0)

    kind = "f" if any(x.buf.kind == "f" for x in arrs) else arrs[0].buf.kind
    return SymArray.new(arrs[0].tshape[:ax] + (starts[-1],) + arrs[0].tshape[ax + 1 :], fn, kind)


@impl()
def roll(a, shift, axis=None):
    a = as_sym(a)
    if isinstance(axis, tuple):
        for x, q in zip(shift if isinstance(shift, (tuple, list)) else (shift,) * len(axis), axis):
            a = roll(a, x, q)
        return a
    if axis is None or not isinstance(axis, int):
        raise Unsupported("roll")
    ax = axis % a.ndim
    n = a.tshape[ax]
    f = a.fn()
    sh = to_t(shift)

    def fn(idx):
        i = tm.sub(idx[ax], sh)
        w = lambda j: f(idx[:ax] + (j,) + idx[ax + 1 :])
        c = ctx()
        return c.ite(tm.lt(i, ZERO), lambda: w(tm.add(i, n)), lambda: c.ite(tm.le(n, i), lambda: w(tm.sub(i, n)), lambda: w(i)))

    return SymArray.new(a.tshape, fn, a.buf.kind)


@impl()
def fliplr(a):
    return flip(a, 1)


@impl()
def flipud(a):
    return flip(a, 0)


@impl()
def atleast_1d(a):
    a = as_sym(a)
    return a if a.ndim >= 1 else _reshape(a, (1,))


@impl()
def atleast_2d(a):
    a = as_sym(a)
    return a if a.ndim >= 2 else (a[None, :] if a.ndim == 1 else _reshape(a, (1, 1)))


@impl()
def atleast_3d(a):
    a = as_sym(a)
    return a if a.ndim >= 3 else (a[:, :, None] if a.ndim == 2 else (a[None, :, None] if a.ndim == 1 else _reshape(a, (1, 1, 1))))


@impl()
def vstack(tup, **k):
    return concatenate([atleast_2d(x) for x in tup], 0)


@impl()
def hstack(tup, **k):
    tup = [atleast_1d(x) for x in tup]
    return concatenate(tup, 0 if tup[0].ndim == 1 else 1)


@impl()
def append(arr, values, axis=None):
    if axis is None:
        _uns("append without axis")
    return concatenate([arr, values], axis)


@impl("split", "array_split")
def split(a, where, axis=0):
    if isinstance(where, (int, S)):
        _uns("split into equal parts")
    a = as_sym(a)
    cuts = [None, *where, None]
    pre = (slice(None),) * (axis % a.ndim)
    return [a[pre + (slice(p, q),)] for p, q in zip(cuts[:-1], cuts[1:])]


@impl()
def select(condlist, choicelist, default=0):
    out = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        out = F["where"](c, v, out)
    return out


@impl()
def nan_to_num(x, copy=True, **k):
    if not copy:
        _uns("nan_to_num in place")
    return as_sym(x).copy()  # the values are real numbers


@impl()
def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or not isinstance(axis, (int, np.integer)):
        _uns("norm")
    x = as_sym(x)
    return ufunc_call("sqrt", [F["sum"](x * x, axis=axis, keepdims=keepdims)])


@impl()
def count_nonzero(a, axis=None, keepdims=False):
    return F["sum"](F["where"](ufunc_call("not_equal", [as_sym(a), 0]), 1, 0), axis=axis, keepdims=keepdims)


@impl()
def ptp(a, axis=None, keepdims=False, **k):
    return F["max"](a, axis=axis, keepdims=keepdims) - F["min"](a, axis=axis, keepdims=keepdims)


@impl()
def einsum(spec, *ops, **k):
    """sums over extents known in advance (variables, stencil points); anything else is not modelled"""
    if k or not isinstance(spec, str) or "." in spec:
        _uns("einsum")
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    letters = "".join(ins)
    if "->" not in spec:
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ops = [as_sym(x) for x in ops]
    if len(ins) != len(ops) or any(len(i) != o.ndim or len(set(i)) != len(i) for i, o in zip(ins, ops)):
        _uns("einsum")
    free = [c for c in dict.fromkeys(letters) if c not in out]
    order = list(out) + free
    prod_ = None
    for i, o in zip(ins, ops):
        t = o.transpose(*[i.index(c) for c in order if c in i])
        t = t[tuple(slice(None) if c in i else None for c in order)]
        prod_ = t if prod_ is None else prod_ * t
    if not free:
        return prod_
    return F["sum"](prod_, axis=tuple(range(len(out), len(order))))


@impl()
def tensordot(a, b, axes=2):
    a, b = as_sym(a), as_sym(b)
    if isinstance(axes, (int, np.integer)):
        xa, xb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        xa, xb = ([q] if isinstance(q, (int, np.integer)) else list(q) for q in axes)
        xa, xb = [q % a.ndim for q in xa], [q % b.ndim for q in xb]
    al = "abcdefgh"[: a.ndim]
    bl = list("ijklmnop"[: b.ndim])
    for p, q in zip(xa, xb):
        bl[q] = al[p]
    out = "".join(c for k, c in enumerate(al) if k not in xa) + "".join(c for k, c in enumerate(bl) if k not in xb)
    return einsum(al + "," + "".join(bl) + "->" + out, a, b)


@impl()
def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    xs = [as_sym(x) for x in xs]
    if indexing != "ij" or sparse:
        raise Unsupported("meshgrid mode")
    shape = tuple(x.tshape[0] for x in xs)
    out = []
    for k, x in enumerate(xs):
        f = x.fn()
        out.append(SymArray.new(shape, (lambda f, k: lambda idx: f((idx[k],)))(f, k), x.buf.kind))
    return tuple(out)


@impl()
def pad(a, pad_width, mode="constant", **kw):
    a = as_sym(a)
    if isinstance(pad_width, (int, S)):
        pad_width = [(pad_width, pad_width)] * a.ndim
    pw = [(to_t(l), to_t(r)) for l, r in pad_width]
    if len(pw) != a.ndim:
        raise ValueError("operands could not be broadcast together")
    for l, r in pw:
        if not ctx().branch(tm.and_(tm.le(ZERO, l), tm.le(ZERO, r))):
            raise ValueError("index can't contain negative values")
    shape = tuple(tm.add(s, l, r) for s, (l, r) in zip(a.tshape, pw))
    f = a.fn()
    if mode == "empty":
        name = ctx().fresh("uninit")
        sort = {"f": "R", "i": "I", "b": "B"}[a.buf.kind]
        outside = lambda idx: tm.app(name, idx, sort)
    elif mode == "constant":
        cv = to_t(kw.get("constant_values", 0))
        outside = lambda idx: cv
    elif mode in ("wrap", "edge", "symmetric"):
        outside = None
    else:
        raise Unsupported("pad mode %s" % mode)

    def fn(idx):
        c = ctx()
        inner = tuple(tm.sub(i, l) for i, (l, r) in zip(idx, pw))
        if outside is None:
            out = []
            for i, s, (l, r) in zip(inner, a.tshape, pw):
                if l is ZERO and r is ZERO:
                    out.append(i)
                    continue
                sm1 = tm.sub(s, ONE)
                if mode == "wrap":
                    lo, hi = tm.add(i, s), tm.sub(i, s)
                elif mode == "edge":
                    lo, hi = ZERO, sm1
                else:
                    lo, hi = tm.sub(tm.num(-1), i), tm.sub(tm.add(s, sm1), i)
                out.append(c.ite(tm.lt(i, ZERO), lambda: lo, lambda: c.ite(tm.lt(sm1, i), lambda: hi, lambda: i)))
            return f(tuple(out))
        cond = TRUE
        for i, s, (l, r) in zip(inner, a.tshape, pw):
            if l is ZERO and r is ZERO:
                continue
            for e in (tm.le(ZERO, i), tm.lt(i, s)):
                d = c.decide(e)
                if d is False:
                    return outside(idx)
                if d is None:
                    cond = tm.and_(cond, e)
        v = f(inner)
        return v if cond is TRUE else tm.ite(cond, v, outside(idx))

    if mode in ("wrap", "symmetric"):
        for s, (l, r) in zip(a.tshape, pw):
            if not (l is ZERO and r is ZERO):
                if not ctx().branch(tm.and_(tm.le(l, s), tm.le(r, s))):
                    raise Unsupported("pad %s wider than the array" % mode)
    return SymArray.new(shape, fn, a.buf.kind)


@impl()
def shape(a):
    return as_sym(a).shape


@impl()
def ndim(a):
    return as_sym(a).ndim


@impl()
def size(a, axis=None):
    a = as_sym(a)
    return a.size if axis is None else a.shape[axis]


@impl()
def iscomplexobj(a):
    return False


@impl()
def may_share_memory(a, b, *k):
    return type(a) is SymArray and type(b) is SymArray and a.buf is b.buf


F["shares_memory"] = may_share_memory


@impl()
def array_equal(a, b, **k):
    raise Unsupported("array_equal")


@impl()
def linspace(start, stop, num=50, endpoint=True, **k):
    if k:
        raise Unsupported("linspace options")
    a, b, n = to_t(start), to_t(stop), to_t(num)
    nn = tm.sub(n, ONE) if endpoint else n

    def fn(idx):
        i = idx[0]
        if endpoint and nn is ZERO:
            return a
        return tm.add(a, tm.mul(i, tm.div(tm.sub(b, a), nn)))

    return SymArray.new((n,), fn, "f")


@impl()
def arange(*args, **k):
    if k:
        raise Unsupported("arange options")
    args = [to_t(x) for x in args]
    start, stop, step = ZERO, None, ONE
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args
    if step is not ONE:
        raise Unsupported("arange step")
    n = tm.sub(stop, start)
    if not ctx().branch(tm.le(ZERO, n)):
        n = ZERO
    return SymArray.new((n,), lambda idx: tm.add(start, idx[0]), "i")


# ------------------------------------------------ module-level patches
_orig = {}


def _any_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, (tuple, list)):
        return any(_any_sym(y) for y in x)
    return False


def _ctor(name, value):
    orig = getattr(np, name)

    def f(shape, *a, **k):
        # memory allocated by the code under contract may be filled with symbolic values
        own = value is None and CTX is not None and sys._getframe(1).f_globals.get("__name__", "").startswith("fvhoe")
        if own or _any_sym(shape):
            rest = list(a)
            v = value
            if name == "full":
                v = rest.pop(0) if rest else k.pop("fill_value")
            dt = rest[0] if rest else k.get("dtype")
            kind = _dkind(dt, "f")
            if name == "full" and dt is None and not isinstance(v, float):
                kind = kind_of(to_t(v))
            if v is None:
                return mem_array(_tshape(shape), kind)
            return const_array(_tshape(shape), v, kind)
        return orig(shape, *a, **k)

    f.__name__ = name
    f.__wrapped_np__ = orig
    return f


def _wrapfn(name):
    orig = getattr(np, name)

    def f(*a, **k):
        if any(_any_sym(x) for x in a) or any(_any_sym(x) for x in k.values()):
            return F[name](*a, **k)
        return orig(*a, **k)

    f.__name__ = name
    return f


def rank_filter(which):
    def f(arr, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0, **kw):
        if type(arr) is not SymArray:
            from scipy import ndimage

            return getattr(ndimage, which)(arr, size=size, footprint=footprint, output=output, mode=mode, cval=cval, origin=origin, **kw)
        if footprint is not None:
            fp = np.asarray(footprint).astype(bool)
        else:
            fp = np.ones((size,) * arr.ndim if isinstance(size, int) else tuple(size), dtype=bool)
        if output is not None or origin != 0 or kw or fp.ndim != arr.ndim:
            raise Unsupported("%s options" % which)
        g = arr.fn()
        op = tm.max_ if which == "maximum_filter" else tm.min_
        cv = to_t(cval)
        offs = [tuple(int(o) - s // 2 for o, s in zip(q, fp.shape)) for q in np.argwhere(fp)]

        def idx1(i, n):
            if mode == "constant":
                return i
            nm1 = tm.sub(n, ONE)
            c = ctx()
            if mode == "nearest":
                lo, hi = ZERO, nm1
            elif mode == "reflect":
                lo, hi = tm.sub(tm.num(-1), i), tm.sub(tm.add(n, nm1), i)
            elif mode == "wrap":
                lo, hi = tm.add(i, n), tm.sub(i, n)
            else:
                raise Unsupported("filter mode %s" % mode)
            return c.ite(tm.lt(i, ZERO), lambda: lo, lambda: c.ite(tm.lt(nm1, i), lambda: hi, lambda: i))

        def fn(idx):
            c = ctx()
            out = None
            for o in offs:
                j = tuple(tm.add(i, tm.num(d)) for i, d in zip(idx, o))
                if mode == "constant":
                    cond = TRUE
                    for q, (jj, n, d) in enumerate(zip(j, arr.tshape, o)):
                        if d == 0:
                            continue
                        cond = tm.and_(cond, tm.le(ZERO, jj), tm.lt(jj, n))
                    e = c.ite(cond, lambda: g(j), lambda: cv)
                else:
                    e = g(tuple(idx1(jj, n) if d else jj for jj, n, d in zip(j, arr.tshape, o)))
                out = e if out is None else op(out, e)
            return out

        return SymArray.new(arr.tshape, fn, "f")

    f.__name__ = which
    return f


def install():
    if _orig:
        return
    for n, v in [("zeros", 0.0), ("ones", 1.0), ("empty", None), ("full", 0)]:
        _orig[n] = getattr(np, n)
        setattr(np, n, _ctor(n, v))
    for n in ("linspace", "arange", "array", "asarray", "stack", "concatenate", "meshgrid", "full_like", "broadcast_to"):
        _orig[n] = getattr(np, n)
        setattr(np, n, _wrapfn(n))


    import sys

    for m in [m for k, m in list(sys.modules.items()) if k.startswith("fvhoe") and m is not None]:
        for k, v in list(vars(m).items()):
            for w in ("maximum_filter", "minimum_filter"):
                if v is getattr(ndimage, w):
                    setattr(m, k, rank_filter(w))
                    _patched.append((m, k, v))


_patched = []


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (type(x) is S and x.t.sort == "I")

    def __call__(cls, *a, **k):
        if len(a) == 1 and type(a[0]) is S and a[0].t.sort == "I":
            return a[0]
        return int(*a, **k)


class SymInt(int, metaclass=_IntMeta):
    """int for code that converts or tests symbolic indices"""


def symbolic_int(module):
    """int(i) of an integer is that integer; undone by uninstall"""
    if "int" not in vars(module):
        module.int = SymInt
        _patched.append((module, "int", None))


def uninstall():
    while _patched:
        m, k, v = _patched.pop()
        if v is None:
            delattr(m, k)
        else:
            setattr(m, k, v)
    for n, f in _orig.items():
        setattr(np, n, f)
    _orig.clear()
