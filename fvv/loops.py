"""Loop rule on the real code: a function's loop is cut at its head.

``cut`` re-parses the function's current source and inserts three calls around one loop, nothing else: on entry (the
harness checks the invariant, then replaces the loop's state by an arbitrary one that satisfies it), at the end of the
body (the harness checks the invariant again and leaves), and around the iterable of a ``for`` loop.  Falling through
the loop then continues with an arbitrary state in which the invariant holds and the condition does not.
"""
import ast
import inspect
import textwrap

from . import symnp as sn


class Cut(Exception):
    """end of the arbitrary iteration"""


class SymRange:
    def __init__(self, n):
        self.n = n


def _range(*a):
    if len(a) == 1 and isinstance(a[0], sn.S):
        return SymRange(a[0])
    if any(isinstance(q, sn.S) for q in a):
        raise sn.Unsupported("range")
    return range(*a)


def stored(node):
    return {q.id for q in ast.walk(node) if isinstance(q, ast.Name) and isinstance(q.ctx, (ast.Store, ast.Del))}


def cut(fn, kind, enter, again):
    """fn with its single ``kind`` ("while"/"for") loop cut; enter(locals, names stored in the loop[, iterable]) returns new
    values of locals (while) or an iterator (for); again(locals) is called at the end of the body"""
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    except (OSError, SyntaxError, TypeError) as e:
        raise sn.Unsupported("no source: %s" % e)
    f = tree.body[0]
    if not isinstance(f, ast.FunctionDef) or fn.__code__.co_freevars:
        raise sn.Unsupported("not a plain function")
    f.decorator_list = []
    want = ast.While if kind == "while" else ast.For
    loops = [q for q in ast.walk(f) if isinstance(q, (ast.While, ast.For))]
    mine = [q for q in loops if isinstance(q, want)]
    if len(mine) != 1:
        raise sn.Unsupported("%d %s loops" % (len(mine), kind))
    node = mine[0]
    inner = [q for s in node.body for q in ast.walk(s)]
    if any(isinstance(q, (ast.While, ast.For)) for q in inner) or node.orelse:
        raise sn.Unsupported("shape of the loop")
    names = sorted(set().union(*[stored(s) for s in node.body]) - (stored(node.target) if kind == "for" else set()))
    call = lambda name, *a: ast.Call(ast.Name(name, ast.Load()), list(a), [])
    loc = lambda: call("locals")
    done = [False]

    class Edit(ast.NodeTransformer):
        def visit(self, q):
            if isinstance(q, ast.Continue) and done[0]:
                return [ast.Expr(call("__loop_again", loc())), q]
            if q is not node:
                return self.generic_visit(q)
            done[0] = True
            self.generic_visit(q)
            q.body = q.body + [ast.Expr(call("__loop_again", loc()))]
            if kind == "for":
                q.iter = call("__loop_enter", loc(), ast.Constant(tuple(names)), q.iter)
                return q
            pre = [ast.Assign([ast.Name("__loop_new", ast.Store())], call("__loop_enter", loc(), ast.Constant(tuple(names))))]
            params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
            for v in sorted(stored(f) | set(params)):
                if v == "self":
                    continue
                pre.append(ast.If(ast.Compare(ast.Constant(v), [ast.In()], [ast.Name("__loop_new", ast.Load())]),
                                  [ast.Assign([ast.Name(v, ast.Store())], ast.Subscript(ast.Name("__loop_new", ast.Load()), ast.Constant(v), ast.Load()))], []))
            return pre + [q]

    tree = ast.fix_missing_locations(Edit().visit(tree))
    g = dict(fn.__globals__, __loop_enter=enter, __loop_again=again, range=_range, tqdm=lambda x=None, *a, **k: x)
    exec(compile(tree, "<%s, loop cut>" % fn.__qualname__, "exec"), g)
    return g[f.name]
