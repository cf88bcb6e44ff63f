"""Discharge of verification conditions: term normal form, z3, case splitting with
exact rational-function normalisation, cvc5 as a second back end."""
import itertools
import time
import sys

from . import terms as tm
from .terms import T, TRUE, FALSE

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

_z = {}
_sqrt_axioms = {}
STATS = {"z3_s": 0.0, "z3_calls": 0, "by": {}}


def _zsort(s):
    return {"I": z3.IntSort, "R": z3.RealSort, "B": z3.BoolSort}[s]()


def _rv(x):
    if isinstance(x, int):
        return z3.RealVal(x)
    return z3.Q(x.numerator, x.denominator)


def _asreal(t):
    e = to_z3(t)
    if z3.is_int(e):
        if t.op == "num":
            return z3.RealVal(t.args[0])
        return z3.ToReal(e)
    return e


def to_z3(t):
    r = _z.get(t)
    if r is not None:
        return r
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        s = stack[-1]
        if s in _z:
            stack.pop()
            continue
        kids = [] if s.op == "op" else [a for a in tm._sub(s.args) if a not in _z]
        if kids:
            stack.extend(kids)
            continue
        _z[s] = _conv(s)
        stack.pop()
    return _z[t]


def _conv(t):
    o = t.op
    if o == "num":
        v = t.args[0]
        if isinstance(v, float):
            raise ArithmeticError("inf reached the solver")
        return z3.IntVal(v) if isinstance(v, int) else _rv(v)
    if o == "true":
        return z3.BoolVal(True)
    if o == "false":
        return z3.BoolVal(False)
    if o == "var":
        return z3.Const(t.args[0], _zsort(t.sort))
    if o == "hole":
        return z3.Int("hole_%s_%s" % t.args)
    if o == "op":
        return z3.Real("op!%d" % t.id)
    conv = to_z3 if t.sort == "I" else _asreal
    if o == "sum":
        out = None
        for a, k in t.args[1]:
            e = conv(a)
            if k != 1:
                e = (z3.IntVal(k) if t.sort == "I" else _rv(k)) * e
            out = e if out is None else out + e
        if t.args[0] != 0:
            out = out + (z3.IntVal(t.args[0]) if t.sort == "I" else _rv(t.args[0]))
        return out
    if o == "mul":
        out = None
        for a in t.args:
            e = conv(a)
            out = e if out is None else out * e
        return out
    if o == "inv":
        return z3.RealVal(1) / _asreal(t.args[0])
    if o in ("lt", "le", "eq"):
        # put negative part on the right for readability/solver friendliness
        e = to_z3(t.args[0])
        if o == "lt":
            return e < 0
        if o == "le":
            return e <= 0
        return e == 0
    if o == "not":
        return z3.Not(to_z3(t.args[0]))
    if o == "and":
        return z3.And(*[to_z3(a) for a in t.args])
    if o == "or":
        return z3.Or(*[to_z3(a) for a in t.args])
    if o == "ite":
        return z3.If(to_z3(t.args[0]), conv(t.args[1]), conv(t.args[2]))
    if o in ("min", "max"):
        out = conv(t.args[0])
        for a in t.args[1:]:
            e = conv(a)
            out = z3.If(out <= e, out, e) if o == "min" else z3.If(out >= e, out, e)
        return out
    if o == "abs":
        e = conv(t.args[0])
        return z3.If(e >= 0, e, -e)
    if o == "idiv":
        return to_z3(t.args[0]) / to_z3(t.args[1])
    if o == "app":
        name, args = t.args[0], t.args[1:]
        ss = []
        zs = []
        for a in args:
            if name in ("sqrt", "sin", "cos", "exp", "tan", "pow"):
                ss.append("R")
                zs.append(_asreal(a))
            else:
                ss.append(a.sort)
                zs.append(to_z3(a))
        f = z3.Function(name + "".join("!" + s for s in ss), *[_zsort(s) for s in ss], _zsort(t.sort))
        e = f(*zs)
        if name == "sqrt":
            x = zs[0]
            _sqrt_axioms[t] = z3.And(e >= 0, z3.Implies(x >= 0, e * e == x), z3.Implies(x > 0, e > 0))
        return e
    raise NotImplementedError(o)


def _side(ts):
    """axioms for sqrt applications occurring in ts"""
    out = []
    seen = set()
    for t in ts:
        for a in tm.atoms(t, lambda s: s.op == "app" and s.args[0] == "sqrt"):
            if a not in seen:
                seen.add(a)
                to_z3(a)
                out.append(_sqrt_axioms[a])
    return out


class Result:
    def __init__(self, status, by, model=None, secs=0.0, note=""):
        self.status, self.by, self.model, self.secs, self.note = status, by, model, secs, note


def check_sat(ts, timeout_ms=2000):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    t0 = time.time()
    for t in ts:
        s.add(to_z3(t))
    for a in _side(ts):
        s.add(a)
    r = s.check()
    STATS["z3_s"] += time.time() - t0
    STATS["z3_calls"] += 1
    if r == z3.sat:
        return "sat", s.model()
    return str(r), None


def _first_cond(t):
    """an atomic condition to split on, smallest term first"""
    best = None
    seen = set()
    st = [t]
    while st:
        s = st.pop()
        if s in seen:
            continue
        seen.add(s)
        c = None
        if s.op == "ite":
            c = s.args[0]
            while c.op in ("and", "or", "not"):
                c = c.args[0]
        elif s.op in ("min", "max"):
            c = tm.le(s.args[0], s.args[1])
        elif s.op == "abs":
            c = tm.le(tm.ZERO, s.args[0])
        if c is not None and c not in (TRUE, FALSE):
            k = (tm.size(c), c.id)
            if best is None or k < best[0]:
                best = (k, c)
        st.extend(tm._sub(s.args))
    return best[1] if best else None


def implied(lits):
    """atoms settled by a set of true literals"""
    m = {}

    def put(a, v):
        if a in (TRUE, FALSE):
            return
        m[a] = TRUE if v else FALSE
        n = tm.not_(a)
        if n not in (TRUE, FALSE):
            m[n] = FALSE if v else TRUE

    for l in lits:
        put(l, True)
        if l.op in ("lt", "le") and l.args[0].sort == "R":
            x = l.args[0]  # x < 0  or x <= 0
            if l.op == "lt":
                put(tm._cmp("le", x), True)
                put(tm._cmp("le", tm.neg(x)), False)
                put(tm._cmp("lt", tm.neg(x)), False)
                put(tm.eq(x, tm.ZERO), False)
            else:
                put(tm._cmp("lt", tm.neg(x)), False)
        elif l.op == "eq" and l.args[0].sort == "R":
            x = l.args[0]
            for y in (x, tm.neg(x)):
                put(tm._cmp("lt", y), False)
                put(tm._cmp("le", y), True)
    return m


def assume_in(t, c, val, m=None):
    """simplify t given the atomic condition c is val"""
    if m is None:
        m = implied([c if val else tm.not_(c)])

    def f(s):
        if s in m:
            return m[s]
        if s.op in ("num", "var", "true", "false", "hole"):
            return s
        if s.op in ("min", "max"):
            args = [tm.rebuild(a, f, memo) for a in s.args]
            i = 0
            changed = len(args) <= 40
            while changed:
                changed = False
                for i in range(len(args)):
                    for j in range(len(args)):
                        if i == j:
                            continue
                        cc = tm.le(args[i], args[j])
                        cc = m.get(cc, cc)
                        if cc is TRUE:
                            # args[i] <= args[j]
                            del args[j if s.op == "min" else i]
                            changed = True
                            break
                        if cc is FALSE:
                            del args[i if s.op == "min" else j]
                            changed = True
                            break
                    if changed:
                        break
            return tm._minmax(s.op, *args)
        if s.op == "abs":
            a = tm.rebuild(s.args[0], f, memo)
            cc = tm.le(tm.ZERO, a)
            cc = m.get(cc, cc)
            if cc is TRUE:
                return a
            if cc is FALSE:
                return tm.neg(a)
            return tm.abs_(a)
        return None

    memo = {}
    return tm.rebuild(t, f, memo)


def _nonzero(a, hyps, budget):
    """is a != 0 under hyps?"""
    if a.op == "num":
        return a.args[0] != 0
    if implied([h for h in hyps if h.op in ("le", "lt", "not")]).get(tm.eq(a, tm.ZERO)) is FALSE:
        return True
    r, _ = check_sat(list(hyps) + [tm.eq(a, tm.ZERO)], budget)
    return r == "unsat"


def _rational(goal, hyps, ms):
    if goal.op != "eq":
        return False
    t = goal.args[0]
    used = [t]
    if not tm.rational_zero(t):
        # modulo the equations among the hypotheses
        ok = False
        for h in hyps:
            if h.op != "eq" or h.args[0].sort != "R" or tm.size(h) > 400:
                continue
            try:
                e = tm.ratio(h.args[0])[0]
            except tm.TooBig:
                continue
            if len(e) <= 60 and tm.rational_zero(t, [e]):
                used.append(h)
                ok = True
                break
        if not ok:
            return False
    seen = set()
    for i in itertools.chain(*[tm.atoms(q, lambda s: s.op == "inv" or (s.op == "app" and s.args[0] == "sqrt")) for q in used]):
        a = i.args[0] if i.op == "inv" else i.args[1]
        if a in seen:
            continue
        seen.add(a)
        if i.op == "inv":
            if not _nonzero(a, hyps, ms):
                return False
        else:
            r, _ = check_sat(list(hyps) + [tm.lt(a, tm.ZERO)], ms)
            if r != "unsat":
                return False
    return True


def _split_rational(goal, hyps, depth, deadline):
    """exact rational identity in every branch, denominators shown nonzero"""
    if goal is TRUE or FALSE in hyps:
        return True
    if time.time() > deadline:
        return False
    if goal.op == "eq" and tm.size(goal) < 4000:
        try:
            if _rational(goal, hyps, 1500):
                return True
        except tm.TooBig:
            pass
    c = _first_cond(goal)
    if c is None or depth == 0:
        return check_sat(list(hyps), 1000)[0] == "unsat"
    for v in (True, False):
        lit = c if v else tm.not_(c)
        h2 = [h for h in (assume_in(h, c, v) for h in hyps) if h is not TRUE] + [lit]
        if FALSE in h2:
            continue
        if lit.op == "le" and lit.args[0].sort == "R" and tm._cmp("le", tm.neg(lit.args[0])) in h2:
            h2.append(tm.eq(lit.args[0], tm.ZERO))
        m = implied([h for h in h2 if h.op in ("le", "lt", "eq", "not", "var")])
        g2 = tm.tobool(assume_in(goal, None, True, m))
        if g2 is FALSE or g2.op in ("le", "lt"):
            if check_sat(list(h2), 1000)[0] == "unsat":
                continue
            return False
        if not _split_rational(g2, h2, depth - 1, deadline):
            return False
    return True


def _split(goal, hyps, depth, ms, deadline):
    """prove goal by splitting on conditions; returns status, model"""
    if goal is TRUE:
        return "proved", None
    if time.time() > deadline:
        return "unknown", None
    c = _first_cond(goal)
    if c is None or depth == 0:
        if _rational(goal, hyps, ms):
            return "proved", None
        r, m = check_sat(list(hyps) + [tm.not_(goal)], ms)
        return ("proved", None) if r == "unsat" else (("refuted", m) if r == "sat" else ("unknown", None))
    for v in (True, False):
        lit = c if v else tm.not_(c)
        r, _ = check_sat(list(hyps) + [lit], min(ms, 1000))
        if r == "unsat":
            continue
        h2 = [assume_in(h, c, v) for h in hyps]
        if FALSE in h2:
            continue
        st, m = _split(assume_in(goal, c, v), [h for h in h2 if h is not TRUE] + [lit], depth - 1, ms, deadline)
        if st != "proved":
            return st, m
    return "proved", None


def prove(goal, hyps=(), timeout_s=20):
    """-> Result(status in proved/refuted/unknown)"""
    t0 = time.time()

    def done(st, by, m=None, note=""):
        STATS["by"][by] = STATS["by"].get(by, 0) + 1
        return Result(st, by, m, time.time() - t0, note)

    goal = tm.tobool(goal)
    hyps = [h for h in map(tm.tobool, hyps) if h is not TRUE]
    if goal is TRUE:
        return done("proved", "normal-form")
    if goal.op == "and":
        by = set()
        for g in goal.args:
            r = prove(g, hyps, timeout_s)
            if r.status != "proved":
                return r
            by.add(r.by)
        return done("proved", "+".join(sorted(by)))
    # an implication: the antecedents become hypotheses
    if goal.op == "or":
        lits = list(goal.args)
        k = next((i for i, l in enumerate(lits) if l.op == "eq"), None)
        if k is None:
            k = next((i for i, l in enumerate(lits) if l.op in ("le", "lt")), len(lits) - 1)
        extra = [tm.not_(l) for i, l in enumerate(lits) if i != k]
        flat = []
        for e in extra:
            flat += list(e.args) if e.op == "and" else [e]
        if FALSE in flat:
            return done("proved", "normal-form")
        hyps = hyps + flat
        goal = lits[k]
    # use literal hypotheses to decide conditions inside the goal
    if goal in hyps:
        return done("proved", "hypothesis")
    lits = [h for h in hyps if h.op in ("le", "lt", "eq", "not", "var")]
    if lits:
        goal = tm.tobool(assume_in(goal, None, True, implied(lits)))
    if goal is TRUE:
        return done("proved", "normal-form")
    if goal.op == "eq":
        try:
            if tm.expand(goal.args[0]) is tm.ZERO:
                return done("proved", "normal-form")
        except tm.TooBig:
            pass
    if goal.op == "eq":
        c, d = tm.lin(goal.args[0])
        if c == 0 and len(d) == 2:
            (x, kx), (y, ky) = d.items()
            if kx == -ky and x.op == "app" and y.op == "app" and x.args[0] == y.args[0] and len(x.args) == len(y.args):
                ok = True
                for p, q in zip(x.args[1:], y.args[1:]):
                    if p is q:
                        continue
                    if prove(tm.eq(p, q), hyps, min(4, timeout_s)).status != "proved":
                        ok = False
                        break
                if ok:
                    return done("proved", "congruence")
    if goal.op == "eq":
        g = _merge_apps(goal, hyps)
        if g is not goal:
            r = prove(g, hyps, timeout_s)
            if r.status == "proved":
                return done("proved", "congruence")
    if goal.op == "eq" and tm.atoms(goal, lambda s: s.op in ("inv", "mul")):
        try:
            if _split_rational(goal, hyps, 12, t0 + timeout_s * 0.5):
                return done("proved", "split+rational")
        except tm.TooBig:
            pass
    hasnl = bool(tm.atoms(goal, lambda s: s.op in ("mul", "inv")))
    ms1 = 1500 if hasnl else int(timeout_s * 1000)
    r, m = check_sat(hyps + [tm.not_(goal)], ms1)
    if r == "unsat":
        return done("proved", "z3")
    if r == "sat":
        return done("refuted", "z3", m)
    st, m = _split(goal, hyps, 24, 2500, t0 + timeout_s * 0.8)
    if st == "proved":
        return done("proved", "split+rational+z3")
    if st == "refuted":
        # confirm with the full query when possible; a leaf model is a genuine model of
        # hyps /\ branch literals /\ not goal
        return done("refuted", "split+z3", m)
    r = _cvc5(hyps + [tm.not_(goal)], max(1.0, timeout_s * 0.4))
    if r == "unsat":
        return done("proved", "cvc5")
    return done("unknown", "z3+cvc5 gave up")


def _merge_apps(goal, hyps):
    """identify applications of one function whose arguments are equal rational expressions"""
    apps = sorted(tm.atoms(goal, lambda s: s.op == "app" and any(a.op != "num" for a in s.args[1:])), key=lambda s: s.id)
    if not 2 <= len(apps) <= 30:
        return goal
    hard = lambda d: tm.atoms(d, lambda s: s.op in ("inv", "mul"))
    m = {}
    kept = []
    eq = {}
    for a in apps:
        for b in kept:
            if a.args[0] != b.args[0] or len(a.args) != len(b.args):
                continue
            ok = True
            for p, q in zip(a.args[1:], b.args[1:]):
                if p is q:
                    continue
                d = tm.add(p, tm.mul(tm.num(-1), q))
                if d.op == "num" or not hard(d):
                    ok = False
                    break
                if (p, q) not in eq:
                    try:
                        eq[p, q] = tm.expand(d) is tm.ZERO or _rational(tm.eq(d, tm.ZERO), hyps, 500)
                    except tm.TooBig:
                        eq[p, q] = False
                if not eq[p, q]:
                    ok = False
                    break
            if ok:
                m[a] = b
                break
        else:
            kept.append(a)
    return tm.tobool(tm.subst(goal, m)) if m else goal


def _cvc5(ts, secs):
    """second back end through SMT-LIB"""
    try:
        import cvc5

        s = z3.Solver()
        for t in ts:
            s.add(to_z3(t))
        for a in _side(ts):
            s.add(a)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(int(secs * 1000)))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if str(out).strip() in ("sat", "unsat", "unknown"):
                res = str(out).strip()
        return res
    except Exception as e:  # pragma: no cover
        return "unknown"


# ------------------------------------------------------------ model access
def model_value(model, t):
    from fractions import Fraction

    v = model.eval(to_z3(t), model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return 0.0
