"""Run the Python front end and the real program side by side."""
import ast, os, random
from . import boot, ireval, vcmon, harness
from .ireval import Undefined
from .vcmon import WILD

_cache = {}


def cache_mypy():
    """Parse each module once: mypy.build.build is memoised on the source file's content."""
    import mypy.build as mb
    if getattr(mb.build, "_mon", False):
        return
    orig = mb.build

    def build(sources, options, *a, **k):
        key = tuple((s.path, open(s.path).read() if s.path else s.text) for s in sources)
        if key not in _cache:
            _cache.clear()
            _cache[key] = orig(sources, options, *a, **k)
        return _cache[key]
    build._mon = True
    mb.build = build


class Instr(ast.NodeTransformer):
    def visit_While(self, n):
        line = n.lineno
        self.generic_visit(n)
        call = ast.Call(ast.Name("__h", ast.Load()), [ast.Constant(line), ast.Call(ast.Name("locals", ast.Load()), [], [])], [])
        n.test = ast.BoolOp(ast.And(), [call, n.test])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.FloorDiv):
            return ast.Call(ast.Name("__div", ast.Load()), [n.left, n.right], [])
        return n

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            self.generic_visit(n)
            return ast.Call(ast.Name("__idx", ast.Load()), [n.value, n.slice], [])
        return n

    def visit_FunctionDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        n.returns = None
        for a in n.args.args:
            a.annotation = None
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        return ast.Assign([n.target], n.value, lineno=n.lineno)


def snap(v):
    if isinstance(v, list):
        return tuple(snap(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return frozenset(v)
    if isinstance(v, tuple):
        return ireval.TupV(snap(x) for x in v)
    return v


def thaw(v):
    if isinstance(v, ireval.TupV):
        return tuple(thaw(x) for x in v)
    if isinstance(v, tuple):
        return [thaw(x) for x in v]
    if isinstance(v, frozenset):
        return set(v)
    return v


class Abort(Exception):
    pass


class Program:
    """An instrumented module."""

    def __init__(self, text, div=None):
        tree = Instr().visit(ast.parse(text))
        ast.fix_missing_locations(tree)
        self.rec = None
        self.fuel = 0

        def __h(line, env):
            self.fuel -= 1
            if self.fuel < 0:
                raise Abort("fuel")
            self.rec.append((line, {k: snap(v) for k, v in env.items()}))
            return True

        def __idx(l, i):
            if isinstance(l, tuple):
                return l[i]
            if i < 0 or i >= len(l):
                raise Abort("index")
            return l[i]

        def __div(a, b):
            return (div or ireval.div)(a, b)
        self.g = {"__h": __h, "__idx": __idx, "__div": __div}
        exec(compile(tree, "<gen>", "exec"), self.g)

    def run(self, fn, args, fuel=60):
        """-> (events, result) or None when this input is outside the defined domain."""
        self.rec, self.fuel = [], fuel
        a = [thaw(x) for x in args]
        try:
            r = self.g[fn](*a)
        except (Abort, Undefined, IndexError, KeyError):
            return None
        for _, env in self.rec:
            for v in env.values():
                if isinstance(v, int) and abs(v) > 10**12:
                    return None
        return self.rec, snap(r)


def rand_value(r, t):
    if t == "int":
        return r.choice([-2, -1, 0, 0, 1, 1, 2, 2, 3, 4, 5])
    n = r.choice([0, 1, 1, 2, 2, 3])
    v = [r.choice([-1, 0, 1, 2, 3]) for _ in range(n)]
    return tuple(v) if t == "list" else frozenset(v)


def ir_obj(t, name):
    from metalift.ir import Int, List, Set, create_object
    return create_object({"int": Int, "list": List[Int], "set": Set[Int]}[t], name)
