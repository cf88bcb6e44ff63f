"""Obligations: one definition, two interpretations.

``SymH``  runs the real code on symbolic values, explores every path and discharges the
          stated conditions for all inputs.
``ConH``  runs the same obligation on ordinary numpy values (a solver model, or seeded
          random values): replay of counterexamples and CPython cross-check.
"""
from fractions import Fraction
import itertools
import math
import sys
import time
import traceback

import numpy as np

from . import terms as tm
from . import symnp as sn
from . import prover
from .terms import TRUE, FALSE, ZERO
from .symnp import S, SymArray, Unsupported, PathAbort


class Reject(Exception):
    """sample does not satisfy the precondition"""


class ConFail(Exception):
    pass


class Stop(Exception):
    pass


# ----------------------------------------------------------------- symbolic
class SymH:
    sym = True

    def __init__(self, ctx, timeout_s):
        self.ctx = ctx
        self.timeout_s = timeout_s
        self.results = []  # (name, Result)
        self.inputs = {}
        self.arrays = {}
        self.undo = []
        self.stubbed = []
        self.use_stubs = True
        self.gen = None
        self.axioms = None  # instances of assumed equations for the terms of a goal
        self.point_map = None  # further instances of quantified facts
        self.hard = False  # some callee is replaced by its contract throughout

    # inputs
    def int(self, name, lo=None, hi=None, small=None):
        t = tm.var(name, "I")
        self.inputs[name] = t
        if lo is not None:
            self.ctx.assume(tm.le(sn.to_t(lo), t))
        if hi is not None:
            self.ctx.assume(tm.le(t, sn.to_t(hi)))
        return S(t)

    def real(self, name, lo=None, hi=None, strict=True, scale=1.0):
        t = tm.var(name, "R")
        self.inputs[name] = t
        f = tm.lt if strict else tm.le
        if lo is not None:
            self.ctx.assume(f(sn.to_t(lo), t))
        if hi is not None:
            self.ctx.assume(f(t, sn.to_t(hi)))
        return S(t)

    def bool(self, name):
        t = tm.var(name, "B")
        self.inputs[name] = t
        return S(t)

    def array(self, name, shape, pred=None, kind="f", gen=None):
        """arbitrary array; pred(idx, value) is a precondition on every element"""
        ctx = self.ctx
        sort = {"f": "R", "i": "I", "b": "B"}[kind]

        def fn(idx):
            t = tm.app(name, idx, sort)
            if pred is not None:
                c = pred(tuple(map(sn.out_int, idx)), S(t))
                if c is not None and c is not True:
                    ctx.assume(sn.to_t(c))
            return t

        a = SymArray.new(tuple(sn.to_t(s) for s in shape), fn, kind, name)
        self.arrays[name] = a
        return a

    def make(self, shape, fn, kind="f"):
        """array with the given element function"""
        f = lambda idx: sn.to_t(fn(tuple(map(sn.out_int, idx))))
        return SymArray.new(tuple(sn.to_t(s) for s in shape), f, kind)

    def assume(self, c):
        self.ctx.assume(sn.to_t(c))

    def case(self, c):
        """python-level case distinction"""
        return bool(c)

    # conditions
    def eq(self, a, b, tol=None):
        return S(tm.eq(tm.tonum(sn.to_t(a)), tm.tonum(sn.to_t(b))))

    def le(self, a, b, tol=None):
        return S(tm.le(sn.to_t(a), sn.to_t(b)))

    def lt(self, a, b):
        return S(tm.lt(sn.to_t(a), sn.to_t(b)))

    def ite(self, c, a, b):
        return S(tm.ite(tm.tobool(sn.to_t(c)), sn.to_t(a), sn.to_t(b)))

    def and_(self, *cs):
        return S(tm.and_(*[tm.tobool(sn.to_t(c)) for c in cs]))

    def or_(self, *cs):
        return S(tm.or_(*[tm.tobool(sn.to_t(c)) for c in cs]))

    def not_(self, c):
        return S(tm.not_(tm.tobool(sn.to_t(c))))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def min(self, *xs):
        return S(tm.min_(*[sn.to_t(x) for x in xs]))

    def max(self, *xs):
        return S(tm.max_(*[sn.to_t(x) for x in xs]))

    def abs(self, x):
        return S(tm.abs_(sn.to_t(x)))

    def sqrt(self, x):
        return S(tm.app("sqrt", (sn.to_t(x),), "R"))

    def uf(self, name, *args, sort="R"):
        return S(tm.app(name, tuple(sn.to_t(a) for a in args), sort))

    # goals
    def hyps(self):
        out = list(self.ctx.pc)
        points = list(self.ctx.points)
        if self.point_map is not None:
            points = list(dict.fromkeys(points + [q for p in points for q in self.point_map(p)]))
        for nd, shape, fn, nm in list(self.ctx.univ):
            for p in points:
                live = [q for q in p if q.op != "num"] if nd < len(p) else []
                cands = [tuple(p[len(p) - nd :])] if len(p) >= nd else []
                if len(live) >= nd:
                    cands += itertools.combinations(live, nd)
                for q in dict.fromkeys(cands):
                    inr = tm.and_(*[tm.and_(tm.le(ZERO, i), tm.lt(i, s)) for i, s in zip(q, shape)])
                    out.append(tm.implies(inr, tm.tobool(fn(q))))
        # element preconditions may have been added while instantiating
        return list(dict.fromkeys(list(self.ctx.pc) + out))

    def prove(self, name, cond):
        if isinstance(cond, (bool, np.bool_)):
            goal = TRUE if cond else FALSE
        else:
            goal = tm.tobool(sn.to_t(cond))
        r = None
        more = [] if self.axioms is None or goal is TRUE else self.axioms(goal)
        if goal is not TRUE and self.gen is not None:
            # the formula with named subterms replaced by variables, from named facts only: stronger than the goal
            m, facts = self.gen
            memo = {}
            g = lambda t: tm.rebuild(t, lambda s: m.get(s), memo)
            r = prover.prove(tm.tobool(g(goal)), [tm.tobool(g(f)) for f in facts] + more, self.timeout_s)
            if r.status != "proved":
                r = None
        if r is None and goal is not TRUE and self.ctx.univ:
            # most goals need none of the quantified facts
            skip = {n for _, _, _, n in self.ctx.univ}
            few = [p for p in self.ctx.pc if not any(s.op == "var" and s.args[0].split("_w")[0] in skip for s in tm.atoms(p, lambda s: s.op == "var"))]
            r = prover.prove(goal, few + more, 6)
            if r.status != "proved":
                r = None
        if r is None:
            r = prover.prove(goal, self.hyps() + more if goal is not TRUE else [], self.timeout_s)
            if r.status == "refuted" and not self.hard and self._quantified(goal):
                # the model satisfies finitely many instances of the quantified facts: not a counterexample by itself
                r.status, r.by = "unknown", "instances"
        r.goal = goal
        self.results.append((name, r))
        return r.status == "proved"

    def _quantified(self, goal):
        names = {n for _, _, _, n in self.ctx.univ}
        if self.ctx.sums and any(tm.atoms(g, lambda s: s in self.ctx.sums) for g in [goal] + self.ctx.pc):
            return True
        # (the transcendental functions are uninterpreted: a model of them is not a counterexample by itself either)
        return bool(tm.atoms(goal, lambda s: s.op == "var" and s.args[0].split("_w")[0] in names or
                             s.op == "app" and s.args[0] in ("sin", "cos", "tan", "exp", "pow")))

    def prove_eq(self, name, a, b, tol=None):
        return self.prove(name, self.eq(a, b))

    def lemma(self, name, cond):
        """prove, then use"""
        ok = self.prove("lemma " + name, cond)
        if ok:
            self.ctx.assume(sn.to_t(cond))
        return ok

    def apply(self, name, fn, *args):
        """arithmetic lemma  fn(vars) -> (premises, conclusion): proved once for arbitrary reals,
        then instantiated at args after proving the premises there"""
        vs = [S(tm.var("lem!%s!%d" % (name, k), "R")) for k in range(len(args))]
        prem, con = fn(*vs)
        r = prover.prove(sn.to_t(con), [sn.to_t(p) for p in prem], self.timeout_s)
        self.results.append(("lemma %s" % name, r))
        if r.status != "proved":
            return False
        prem, con = fn(*args)
        for k, p in enumerate(prem):
            if not self.prove("lemma %s, premise %d" % (name, k), p):
                return False
        self.ctx.assume(sn.to_t(con))
        return True

    def generalize(self, mapping, facts):
        """prove the following goals with these terms as variables, from these facts (proved here first)"""
        fs = []
        for name, f in facts:
            if self.lemma(name, f):
                fs.append(sn.to_t(f))
        m = {}
        for k, v in mapping:
            k, v = sn.to_t(k), sn.to_t(v)
            if k.op == "num":
                continue
            c, d = tm.lin(k)
            if c == 0 and len(d) == 1:  # a multiple of one term: name that term
                (a, f), = d.items()
                k, v = a, tm.scale(Fraction(1) / f, v)
            m[k] = v
        self.gen = (m, fs)

    def stub(self, mod, name, repl, hard=False):
        """replace a callee by its contract in every fvhoe module that refers to it.
        hard: also in the second attempt with callee bodies inlined"""
        if not self.use_stubs and not hard:
            return False
        self.hard = self.hard or hard
        from . import core

        target = core.fvhoe(mod, name)
        hit = False
        for m in core.fvhoe_modules():
            for k, v in list(vars(m).items()):
                if v is target:
                    setattr(m, k, repl)
                    self.undo.append((m, k, v))
                    hit = True
        self.stubbed.append(mod + "." + name)
        return hit

    def stub_attr(self, obj, name, repl, hard=False):
        if not self.use_stubs and not hard:
            return False
        self.hard = self.hard or hard
        self.undo.append((obj, name, obj.__dict__[name]))
        setattr(obj, name, repl)
        self.stubbed.append("%s.%s" % (getattr(obj, "__name__", obj), name))
        return True

    def unstub(self):
        while self.undo:
            m, k, v = self.undo.pop()
            setattr(m, k, v)

    def skolem(self, shape, base="i"):
        idx = []
        for k, s in enumerate(shape):
            st = sn.to_t(s)
            if st.op == "num" and st.args[0] == 1:
                idx.append(0)
                continue
            t = tm.var(self.ctx.fresh("%s%d" % (base, k)), "I")
            self.inputs[t.args[0]] = t
            self.ctx.assume(tm.and_(tm.le(ZERO, t), tm.lt(t, st)))
            idx.append(S(t))
        self.ctx.points.append(tuple(sn.to_t(i) for i in idx))
        return tuple(idx)

    def forall(self, name, shape, fn):
        """prove fn(idx) for every index of shape (universal introduction)"""
        try:
            idx = self.skolem(shape)
        except PathAbort:
            self.results.append((name, prover.Result("proved", "empty-range")))
            return True
        c = fn(idx)
        if isinstance(c, (list, tuple)):
            ok = True
            for k, ci in enumerate(c):
                ok = self.prove("%s[%d]" % (name, k), ci) and ok
            return ok
        return self.prove(name, c)

    def forall_eq(self, name, a, b, tol=None):
        """arrays equal elementwise including their shapes"""
        self.same_shape(name + " shape", a, b.shape)
        return self.forall(name, a.shape, lambda idx: self.eq(a[idx], b[idx]))

    def same_shape(self, name, a, shape):
        sa = tuple(sn.to_t(s) for s in a.shape)
        sb = tuple(sn.to_t(s) for s in shape)
        if len(sa) != len(sb):
            self.results.append((name, prover.Result("refuted", "shape rank %d vs %d" % (len(sa), len(sb)))))
            return False
        return self.prove(name, S(tm.and_(*[tm.eq(x, y) for x, y in zip(sa, sb)])))

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            self.prove(name, True)
            return True
        except (Unsupported, PathAbort):
            raise
        except Exception as e:
            self.results.append((name, prover.Result("refuted", "raised %r instead" % e)))
            return False
        # returned normally on this feasible path
        self.results.append((name, self._infeasible("returned normally")))
        return False

    def _infeasible(self, note):
        r, m = prover.check_sat(self.hyps(), 5000)
        if r == "unsat":
            return prover.Result("proved", "infeasible")
        return prover.Result("refuted" if r == "sat" else "unknown", note, m)

    def rec(self, name, ok, note=""):
        """result of an exact (non-SMT) comparison made on the symbolic run"""
        self.results.append((name, prover.Result("proved" if ok else "refuted", "exact", note=note)))
        return ok


class PathReport:
    pass


def explore(fn, timeout_s=20, max_paths=400, budget_s=600, sample_vacuity=True, use_stubs=True):
    """run fn(h) on every feasible path.  Returns list of
    (obligation name, status, by, note, model, harness)"""
    out = []
    todo = [[]]
    n = 0
    t0 = time.time()
    sn.install()
    while todo:
        prefix = todo.pop()
        n += 1
        if n > max_paths or time.time() - t0 > budget_s:
            out.append(("<paths>", "unsupported", "budget", "more than %d paths or %ds" % (max_paths, budget_s), None, None))
            break
        from . import core

        core.clear_caches()
        ctx = sn.Ctx(prefix)
        sn.set_ctx(ctx)
        h = SymH(ctx, timeout_s)
        h.use_stubs = use_stubs
        err = None
        try:
            fn(h)
        except PathAbort:
            pass
        except Stop:
            pass
        except Unsupported as e:
            out.append(("<engine>", "unsupported", "engine", str(e), None, h))
        except RecursionError as e:
            out.append(("<engine>", "unsupported", "engine", "recursion", None, h))
        except ArithmeticError as e:
            out.append(("<engine>", "unsupported", "engine", repr(e), None, h))
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            own = [f for f in tb if "/fvv/" in f.filename]
            real = [f for f in tb if "/fvv/" not in f.filename]
            last = tb[-1]
            where = "%s:%d" % (last.filename, last.lineno)
            # an exception raised by the code under contract (or by the numpy model on its behalf)
            if any("/fvhoe/" in f.filename for f in tb):
                r, m = prover.check_sat(list(ctx.pc), 5000)
                if r == "unsat":
                    out.append(("no exception", "proved", "infeasible", "", None, h))
                else:
                    ff = [f for f in tb if "/fvhoe/" in f.filename][-1]
                    note = "%s: %s at %s:%d" % (type(e).__name__, e, ff.filename, ff.lineno)
                    st = "refuted" if r == "sat" else "unknown"
                    if h.hard or isinstance(e, (AttributeError, NotImplementedError)) or "SymArray" in str(e) or "'S'" in str(e) or "setting an array element" in str(e) \
                            or not ("/fvhoe/" in last.filename or "/fvv/" in last.filename):
                        st = "unsupported"
                    out.append(("no exception", st, "path" if "/fvhoe/" in last.filename else "model", note, m, h))
            else:
                out.append(("<engine>", "unsupported", "engine", "%s: %s at %s" % (type(e).__name__, e, where), None, h))
        finally:
            h.unstub()
            sn.set_ctx(None)
        for name, r in h.results:
            out.append((name, r.status, r.by, r.note, r.model, h))
        if h.results and sample_vacuity and n == 1:
            r, _ = prover.check_sat(list(ctx.pc), 3000)
            if r == "unsat" and len(todo) == 0 and len(ctx.taken) == 0:
                out.append(("<vacuity>", "unsupported", "precondition unsatisfiable", "", None, h))
        for i in range(len(prefix), len(ctx.taken)):
            if i in ctx.forced:
                continue
            todo.append(ctx.taken[:i] + [not ctx.taken[i]])
    return out


# ----------------------------------------------------------------- concrete
class ConH:
    """interprets an obligation on real numpy data"""

    sym = False

    def __init__(self, rng, model=None, symh=None, tol=1e-7):
        self.rng, self.model, self.symh, self.tol = rng, model, symh, tol
        self.record = {}
        self.fails = []
        self.evals = 0
        self.nsk = {}

    def _m(self, name, sort):
        if self.model is None:
            return None
        return prover.model_value(self.model, tm.var(name, sort))

    def int(self, name, lo=None, hi=None, small=None):
        v = self._m(name, "I")
        if v is None:
            lo_ = -3 if lo is None else lo
            hi_ = hi if hi is not None else max(lo_ + (small or 5), lo_)
            hi_ = min(hi_, lo_ + (small or 5))
            v = int(self.rng.integers(lo_, hi_ + 1))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        if abs(v) > 60:
            raise Reject()
        self.record[name] = v
        return v

    def real(self, name, lo=None, hi=None, strict=True, scale=1.0):
        v = self._m(name, "R")
        if v is None:
            r = self.rng
            if lo is not None and hi is not None:
                v = lo + (hi - lo) * r.uniform(0.02, 0.98)
            elif lo is not None:
                v = lo + scale * float(np.exp(r.normal()))
            elif hi is not None:
                v = hi - scale * float(np.exp(r.normal()))
            else:
                v = scale * float(r.normal())
                if r.uniform() < 0.1:
                    v = 0.0
        v = float(v)
        if lo is not None and (v <= lo if strict else v < lo):
            raise Reject()
        if hi is not None and (v >= hi if strict else v > hi):
            raise Reject()
        self.record[name] = v
        return v

    def bool(self, name):
        v = self._m(name, "B")
        if v is None:
            v = bool(self.rng.integers(2))
        self.record[name] = bool(v)
        return bool(v)

    def array(self, name, shape, pred=None, kind="f", gen=None):
        shape = tuple(int(s) for s in shape)
        if any(s < 0 for s in shape) or int(np.prod(shape)) > 200000:
            raise Reject()
        sort = {"f": "R", "i": "I", "b": "B"}[kind]
        dt = {"f": float, "i": int, "b": bool}[kind]
        if self.model is not None:
            a = np.empty(shape, dtype=dt)
            if a.size > 5000:
                raise Reject()
            for idx in np.ndindex(*shape):
                a[idx] = prover.model_value(self.model, tm.app(name, tuple(tm.num(i) for i in idx), sort))
        elif gen is not None:
            a = np.asarray(gen(self.rng, shape), dtype=dt)
        elif kind == "b":
            a = self.rng.integers(0, 2, shape).astype(bool)
        elif kind == "i":
            a = self.rng.integers(-3, 4, shape)
        else:
            mode = self.rng.integers(4)
            if mode == 0:
                a = self.rng.normal(size=shape)
            elif mode == 1:
                a = self.rng.uniform(0.5, 2, size=shape)
            elif mode == 2:
                a = self.rng.integers(-2, 3, shape).astype(float)
            else:
                a = np.exp(self.rng.normal(size=shape)) * self.rng.choice([-1.0, 1.0], shape)
        if pred is not None:
            if self.model is None and gen is None:
                # repair elements that violate the precondition by drawing positive values
                for idx in np.ndindex(*shape):
                    if not _truth(pred(idx, a[idx])):
                        a[idx] = self.rng.uniform(0.2, 2.0)
            for idx in np.ndindex(*shape):
                if not _truth(pred(idx, a[idx])):
                    if self.model is not None:
                        a[idx] = 1.0  # element the model did not constrain
                        if _truth(pred(idx, a[idx])):
                            continue
                    raise Reject()
        self.record[name] = a.copy()
        return a

    def make(self, shape, fn, kind="f"):
        a = np.empty(tuple(int(s) for s in shape), dtype={"f": float, "i": int, "b": bool}[kind])
        for idx in np.ndindex(*a.shape):
            a[idx] = fn(idx)
        return a

    def assume(self, c):
        if not _truth(c):
            raise Reject()

    def case(self, c):
        return _truth(c)

    def _tol(self, a, b, tol):
        tol = self.tol if tol is None else tol
        return tol * (1.0 + max(abs(a), abs(b)))

    def eq(self, a, b, tol=None):
        a, b = float(a), float(b)
        if a == b or (math.isnan(a) and math.isnan(b)):
            return True
        return abs(a - b) <= self._tol(a, b, tol)

    def le(self, a, b, tol=None):
        a, b = float(a), float(b)
        return a <= b or a - b <= self._tol(a, b, tol)

    def lt(self, a, b):
        return float(a) < float(b)

    def ite(self, c, a, b):
        return a if _truth(c) else b

    def and_(self, *cs):
        return all(_truth(c) for c in cs)

    def or_(self, *cs):
        return any(_truth(c) for c in cs)

    def not_(self, c):
        return not _truth(c)

    def implies(self, a, b):
        return (not _truth(a)) or _truth(b)

    def iff(self, a, b):
        return _truth(a) == _truth(b)

    def min(self, *xs):
        return min(float(x) for x in xs)

    def max(self, *xs):
        return max(float(x) for x in xs)

    def abs(self, x):
        return abs(x)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def prove(self, name, cond):
        self.evals += 1
        if not _truth(cond):
            self.fails.append((name, dict(self.record)))
            raise ConFail(name)
        return True

    def lemma(self, name, cond):
        return self.prove("lemma " + name, cond)

    def stub(self, mod, name, repl, hard=False):
        return False

    stub_attr = stub

    def prove_eq(self, name, a, b, tol=None):
        self.evals += 1
        if not self.eq(a, b, tol):
            self.record["got"], self.record["want"] = float(a), float(b)
            self.fails.append((name, dict(self.record)))
            raise ConFail(name)
        return True

    def skolem(self, shape, base="i"):
        out = []
        for k, s in enumerate(shape):
            if s <= 0:
                raise Reject()
            out.append(int(self.rng.integers(0, s)))
        return tuple(out)

    def forall(self, name, shape, fn):
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape))
        if n == 0:
            return True
        if n <= 300:
            it = np.ndindex(*shape)
        else:
            it = [tuple(int(self.rng.integers(0, s)) for s in shape) for _ in range(300)]
        for idx in it:
            c = fn(idx)
            self.evals += 1
            cs = c if isinstance(c, (list, tuple)) else [c]
            for k, ci in enumerate(cs):
                if not _truth(ci):
                    self.record["index"] = idx
                    self.fails.append((name, dict(self.record)))
                    raise ConFail("%s at %s" % (name, idx))
        return True

    def forall_eq(self, name, a, b, tol=None):
        self.same_shape(name + " shape", a, b.shape)
        a, b = np.asarray(a), np.asarray(b)
        t = (self.tol if tol is None else tol) * (1 + np.maximum(np.abs(a), np.abs(b)))
        ok = (np.abs(a - b) <= t) | (a == b) | (np.isnan(a) & np.isnan(b))
        self.evals += max(1, a.size)
        if not np.all(ok):
            i = tuple(int(q) for q in np.argwhere(~ok)[0])
            self.record.update(index=i, got=float(a[i]), want=float(b[i]))
            self.fails.append((name, dict(self.record)))
            raise ConFail("%s at %s: got %r want %r" % (name, i, float(a[i]), float(b[i])))
        return True

    def same_shape(self, name, a, shape):
        return self.prove(name + " (got %s want %s)" % (tuple(a.shape), tuple(shape)), tuple(a.shape) == tuple(int(s) for s in shape))

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            return self.prove(name, True)
        except Exception as e:
            return self.prove(name + ": raised %r" % e, False)
        return self.prove(name + ": returned normally", False)

    def rec(self, name, ok, note=""):
        return self.prove(name + (" " + note if not ok else ""), ok)


def _truth(c):
    if isinstance(c, S):
        raise Unsupported("symbolic condition in concrete mode")
    if c is None:
        return True
    return bool(c)


def run_concrete(fn, rng_of, n, model=None, tol=1e-7, budget_s=30, only=None):
    """-> (samples run, evaluations, failure or None); sample k uses rng_of(k)"""
    t0 = time.time()
    done = evals = rejects = 0
    k = -1 if only is None else only - 1
    sn.uninstall()
    while done < n and time.time() - t0 < budget_s and rejects < 50 * n + 50:
        k += 1
        h = ConH(rng_of(k), model, tol=tol)
        h.sample = k
        h.deadline = t0 + budget_s
        try:
            with np.errstate(all="ignore"):
                fn(h)
        except Reject:
            rejects += 1
            if model is not None or only is not None:
                return done, evals, None
            continue
        except ConFail as e:
            return done + 1, evals + h.evals, (str(e), h.record, k)
        except (Unsupported, Stop):
            return done, evals, None
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            ff = [f for f in tb if "/fvhoe/" in f.filename]
            if ff:
                return done + 1, evals + h.evals, (
                    "exception %s: %s at %s:%d" % (type(e).__name__, e, ff[-1].filename, ff[-1].lineno),
                    h.record, k)
            raise
        done += 1
        evals += h.evals
        if model is not None or only is not None:
            break
    return done, evals, None
