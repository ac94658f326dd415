"""C17: solution texts are translated by the real parser and run beside the Python text itself."""
import os, re, sys, json, ast, copy, shutil, subprocess, random, hashlib, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import boot, harness, ireval
from mon.ireval import Undefined, EvalError, Ev, same

PID, LEVEL = "C17", "exploration"
RULE = ("a function accepted by the parser, evaluated on an input where the Python function returned a value and the translated "
        "definition was defined (distinct = text x input)")

# ------------------------------------------------------------------ DSLs handed to check_solution
DSL_A = '''
def sel(c: bool, a: int, b: int) -> int:
    return a if c else b

def vsub(xs: List[int], k: int) -> List[int]:
    return [] if len(xs) < 1 else [xs[0] - k, *vsub(xs[1:], k)]

def total(xs: List[int]) -> int:
    return 0 if len(xs) < 1 else xs[0] + total(xs[1:])

def mfirst(m: List[List[int]]) -> List[int]:
    return [] if len(m) < 1 else [total(m[0]), *mfirst(m[1:])]

def mshift(k: int, m: List[List[int]]) -> List[List[int]]:
    return [] if len(m) < 1 else [vsub(m[0], k), *mshift(k, m[1:])]

def vmap(xs: List[int], fn: Callable[[int], int]) -> List[int]:
    return [] if len(xs) < 1 else [fn(xs[0]), *vmap(xs[1:], fn)]

def vfold(op: Callable[[int, int], int], z: int, xs: List[int]) -> int:
    return z if len(xs) < 1 else op(xs[0], vfold(op, z, xs[1:]))

def anyof(xs: List[int], pred: Callable[[int], bool]) -> bool:
    return False if len(xs) < 1 else pred(xs[0]) or anyof(xs[1:], pred)

def within(lo: int, x: int, hi: int) -> bool:
    return lo <= x and x < hi
'''
DSL_B = '''
def sel(a: int, b: int, c: bool) -> int:
    return b if c else a

def vsub(k: int, xs: List[int]) -> List[int]:
    return [] if len(xs) < 1 else [k - xs[0], *vsub(k, xs[1:])]

def mshift(m: List[List[int]], k: int) -> List[List[int]]:
    return [] if len(m) < 1 else [vsub(k, m[0]), *mshift(m[1:], k)]

def vmap(fn: Callable[[int], int], xs: List[int]) -> List[int]:
    return [] if len(xs) < 1 else [fn(xs[0]) + 1, *vmap(fn, xs[1:])]

def within(hi: int, lo: int) -> bool:
    return lo < hi
'''
SIG = {
    "A": {"sel": ("i", "bii"), "vsub": ("l", "li"), "total": ("i", "l"), "mfirst": ("l", "n"), "mshift": ("n", "in"),
          "vmap": ("l", ["l", "F1"]), "vfold": ("i", ["F2", "i", "l"]), "anyof": ("b", ["l", "P1"]), "within": ("b", "iii")},
    "B": {"sel": ("i", "iib"), "vsub": ("l", "il"), "mshift": ("n", "ni"), "vmap": ("l", ["F1", "l"]), "within": ("b", "ii")},
}
DSL = {"A": DSL_A, "B": DSL_B}
TY = {"i": "int", "b": "bool", "l": "List[int]", "n": "List[List[int]]", "F1": "Callable[[int], int]",
      "F2": "Callable[[int, int], int]", "P1": "Callable[[int], bool]"}
NAMES = ["x", "y", "a", "b", "xs", "ys", "m", "acc", "i", "n", "k", "row", "base", "out", "zz", "opacity", "c1", "Z"]


class G:
    """Typed Python expression texts of the accepted subset."""

    def __init__(self, rng, dsl, funcs):
        self.r, self.dsl, self.funcs, self.lam = rng, dsl, funcs, 0

    def var(self, env, t):
        vs = [v for v, u in env.items() if u == t]
        return self.r.choice(vs) if vs else None

    def e(self, t, env, d):
        r = self.r
        v = self.var(env, t)
        if d <= 0 or r.random() < .12:
            if v is not None and r.random() < .8:
                return v
            return {"i": lambda: str(r.randint(0, 3)), "b": lambda: r.choice(["True", "False"]),
                    "l": lambda: v or f"vsub({self.args('vsub', env, 0)})" if self.var(env, "l") else "SKIP",
                    "n": lambda: v or "SKIP"}[t]()
        o = [self.ite, self.call]
        o += {"i": [self.arith, self.arith, self.arith, self.length, self.get, self.neg],
              "b": [self.cmp, self.cmp, self.cmp, self.logic, self.logic, self.eqv],
              "l": [self.slice, self.slice, self.row, self.concat], "n": [self.slice]}[t]
        s = r.choice(o)(t, env, d - 1)
        return s if s and "SKIP" not in s else self.e(t, env, d - 1)

    def ite(self, t, env, d):
        return f"(({self.e(t, env, d)}) if ({self.e('b', env, d)}) else ({self.e(t, env, d)}))"

    def args(self, f, env, d):
        sig = SIG[self.dsl].get(f) or self.funcs[f]
        return ", ".join(self.e(t, env, d) if t in "ibln" else self.fnarg(t, env, d) for t in sig[1])

    def call(self, t, env, d):
        fs = [f for f, s in {**SIG[self.dsl], **self.funcs}.items() if s[0] == t]
        if not fs:
            return None
        f = self.r.choice(sorted(fs))
        return f"{f}({self.args(f, env, d)})"

    def fnarg(self, t, env, d):
        r = self.r
        if env.get("__F") and r.random() < .2:
            hs = [v for v, u in env.items() if u == t]
            if hs:
                return r.choice(hs)
        ps = {"F1": 1, "F2": 2, "P1": 1}[t]
        names = r.sample(["p", "q", "u", "w", "x", "a"], ps)
        inner = {**env, **{v: "i" for v in names}}
        return f"(lambda {', '.join(names)}: {self.e('b' if t == 'P1' else 'i', inner, min(d, 2))})"

    def arith(self, t, env, d):
        r = self.r
        op = r.choice(["+", "-", "*", "+", "-", "*", "//", "%"])
        a = self.e("i", env, d)
        if op in ("//", "%"):
            b = r.choice(["2", "3", self.e("i", env, 0), f"({self.e('i', env, 0)} + 1)"])
        else:
            b = self.e("i", env, d)
        return f"(({a}) {op} ({b}))"

    def neg(self, t, env, d):
        return f"(-({self.e('i', env, d)}))"

    def length(self, t, env, d):
        return f"len({self.e(self.r.choice('lln'), env, d)})"

    def index(self, env, d):
        return self.r.choice(["0", "1", self.e("i", env, 0), self.e("i", env, min(d, 1)), f"({self.e('i', env, 0)} - 1)"])

    def get(self, t, env, d):
        return f"({self.e('l', env, d)})[{self.index(env, d)}]"

    def row(self, t, env, d):
        return f"({self.e('n', env, d)})[{self.index(env, d)}]"

    def slice(self, t, env, d):
        b = self.e(t, env, d)
        i, j = self.index(env, d), self.r.choice([self.index(env, d), f"len({b})" if len(b) < 30 else "2", "2"])
        return f"({b})[{self.r.choice([f'{i}:', f':{j}', f'{i}:{j}', f'{i}:', f':{j}'])}]"

    def concat(self, t, env, d):
        return f"(({self.e('l', env, d)}) + ({self.e('l', env, d)}))"

    def cmp(self, t, env, d):
        r = self.r
        s = f"({self.e('i', env, d)})"
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            s += f" {r.choice(['<', '<=', '>', '>=', '==', '!='])} ({self.e('i', env, min(d, 1))})"
        return f"({s})"

    def eqv(self, t, env, d):
        c = self.r.choice("llnb")
        return f"(({self.e(c, env, d)}) == ({self.e(c, env, d)}))"

    def logic(self, t, env, d):
        op = self.r.choice(["and", "or"])
        return "(" + f" {op} ".join(f"({self.e('b', env, d)})" for _ in range(self.r.choice([2, 2, 3]))) + ")"


def minimal(expr):
    """The same expression with no more parentheses than Python needs."""
    return ast.unparse(ast.parse(expr, mode="eval"))


def negative_bound(ex):
    for n in ast.walk(ast.parse(ex, mode="eval") if isinstance(ex, str) else ex):
        if isinstance(n, ast.Subscript):
            for b in ([n.slice.lower, n.slice.upper] if isinstance(n.slice, ast.Slice) else [n.slice]):
                if isinstance(b, ast.UnaryOp) and isinstance(b.operand, ast.Constant) and (isinstance(ex, str) or isinstance(b.op, ast.USub) and b.operand.value is not False and b.operand.value != 0):
                    return True
    return False


def function(r, dsl, name, funcs, fparams=True):
    """-> (text, name, ret type, [(param, type)])"""
    ps = r.sample(NAMES, r.randint(2, 5))
    ts = ["i", "l"] + [r.choice("iiblln") for _ in ps[2:]]
    r.shuffle(ts)
    env = dict(zip(ps, ts))
    if fparams and r.random() < .15:
        env["g"] = r.choice(["F1", "F2", "P1"])
        env["__F"] = 1
    ret = r.choice("iiblln")
    g = G(r, dsl, funcs)
    for _ in range(30):
        try:
            ex = minimal(g.e(ret, env, r.choice([2, 3, 3, 4])))
        except RecursionError:
            continue
        if negative_bound(ex):
            continue
        if "SKIP" not in ex and 3 < len(ex) < 700:
            break
    else:
        ret, ex = "i", "1"
    env.pop("__F", None)
    params = list(env.items())
    head = f"def {name}({', '.join(f'{p}: {TY[t]}' for p, t in params)}) -> {TY[ret]}:\n"
    if r.random() < .2 and "result" not in env:
        body = f"    result = {ex}\n    return result\n"
    else:
        body = f"    return {ex}\n"
    return head + body, ret, params


def rec_function(r, name):
    """Self-recursive templates with random parameter names and order."""
    a, b, c = r.sample(NAMES, 3)
    kind = r.randint(0, 3)
    if kind == 0:
        ps = [(a, "i"), (b, "i")]
        body = f"{b} if {a} <= 0 else {{f}}"
        nxt = {a: f"{a} - 1", b: f"{b} * 2 - {a}"}
        ret = "i"
    elif kind == 1:
        ps = [(a, "l"), (b, "l"), (c, "i")]
        body = f"{b} if len({a}) == 0 else {{f}}"
        nxt = {a: f"{a}[1:]", b: f"{b} + {b}[:1]" if r.random() < .5 else f"{b}[1:] + {a}", c: f"{c} + 1"}
        ret = "l"
    elif kind == 2:
        ps = [(a, "i"), (b, "i"), (c, "i")]
        body = f"{b} - {c} if {a} < 1 else {{f}} + {c}"
        nxt = {a: f"{a} - 1", b: f"{c}", c: f"{b} - 1"}
        ret = "i"
    else:
        ps = [(a, "l"), (b, "i"), (c, "i")]
        body = f"{b} < {c} if len({a}) < 1 else {{f}}"
        nxt = {a: f"{a}[1:]", b: f"{b} + {a}[0]", c: f"{c} + 1"}
        ret = "b"
    r.shuffle(ps)
    call = f"{name}({', '.join(nxt[p] for p, _ in ps)})"
    txt = f"def {name}({', '.join(f'{p}: {TY[t]}' for p, t in ps)}) -> {TY[ret]}:\n    return {body.format(f=call)}\n"
    return txt, ret, ps


# ------------------------------------------------------------------ texts near the subset
class Mut(ast.NodeTransformer):
    """Apply one mutation at one randomly chosen expression."""

    def __init__(self, r, kind):
        self.r, self.kind, self.done = r, kind, False

    def pick(self, nodes):
        self.target = self.r.choice(nodes) if nodes else None


def exprs_in(fn, pred):
    return [n for st in fn.body for n in ast.walk(st) if pred(n)]


def replace(tree, old, new):
    class R(ast.NodeTransformer):
        def visit(self, n):
            return new if n is old else self.generic_visit(n)
    return R().visit(tree)


def P(s):
    return ast.parse(s, mode="eval").body


LIT = ["[1, 2]", "[[1], [2, 3]]", "[0]", "(1, 2)", "{1, 2}", "{}", "{1: 2}", "'s'", "1.5", "None", "[v for v in range(3)]",
       "undefined_name", "module_var", "abs(-2)", "max(1, 2)", "min(2, 1)", "sum([1])", "(lambda v: v + 1)(3)",
       "(w0 := 2)", "len([1, 2])", "len('ab')", "int(True)", "range(3)", "module_fn(2)", "__name__", "[]", "not True",
       "bool(1)", "[*[1, 2]]", "f'{1}'", "...", "sorted([2, 1])", "(lambda: 3)()", "True", "1_0", "0x1f", "-0", "1e3", "1j"]
WRAP = ["not ({e})", "+({e})", "~({e})", "({e}) ** 2", "({e}) << 1", "({e}) & 1", "({e}) | 1", "({e}) ^ 1", "({e})[::2]", "({e})[1::2]",
        "({e})[0:3:2]", "({e})[:]", "({e})[-1]", "({e})[-2:]", "({e})[:-1]", "({e})[::-1]", "({e})[True]", "({e}) is ({e})", "({e}) in [1, 2]", "({e}) not in [0]",
        "({e}).copy()", "({e}).index(0)", "({e}).bit_length()", "[{e}]", "[{e}, {e}]", "({e},)", "({e}) * 2", "[0] * ({e})", "({e}) + [1]", "[1] + ({e})",
        "({e}) if ({e}) else ({e})", "1 if ({e}) else 0", "({e}) and 3", "({e}) or 4", "(lambda v: v)({e})", "({e}) == [1]", "({e}) != ({e})",
        "({e}) + True", "-({e})", "({e}) > ({e})", "({e}) == 1", "({e}) < [1]", "({e}) == 1 == True", "({e}) if True else 0", "0 if False else ({e})",
        "[] if len({e}) > 1 else ({e})", "({e}) + []", "({e}) @ ({e})", "({e}) == []"]


def mutate(r, text, dsl):
    """-> (kind, text) or None"""
    tree = ast.parse(text)
    fn = tree.body[-1]
    es = exprs_in(fn, lambda n: isinstance(n, ast.expr) and not isinstance(n, (ast.Slice, ast.Starred)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load))
    es = [n for n in es if not (isinstance(n, ast.Name) and any(isinstance(c, ast.Call) and c.func is n for c in es))]
    kind = r.choice(["lit", "wrap", "wrap", "call", "call", "call", "slice", "fn", "fn", "fn", "stmt", "stmt", "shadow", "swap", "swap", "op", "hof", "lambda"])
    if kind == "lit":
        t = r.choice(LIT)
        replace(fn, r.choice(es), P(t))
        kind += " " + t
    elif kind == "wrap":
        t = r.choice(WRAP)
        e = r.choice(es)
        replace(fn, e, P(t.format(e=ast.unparse(e))))
        kind += " " + t
    elif kind == "call":
        cs = [n for n in es if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id != "len"]
        if not cs:
            return None
        c = r.choice(cs)
        dslfn = {f.name: f for f in ast.parse("from typing import *\n" + DSL[dsl]).body if isinstance(f, ast.FunctionDef)}
        f = dslfn.get(c.func.id) or next((f for f in tree.body if isinstance(f, ast.FunctionDef) and f.name == c.func.id), None)
        if f is None:
            return None
        ps = [a.arg for a in f.args.args]
        m = r.choice(["allkw", "somekw", "star", "drop", "dup", "starkw", "swapargs"])
        if m == "allkw":
            kws = [ast.keyword(p, a) for p, a in zip(ps, c.args)]
            r.shuffle(kws)
            c.args, c.keywords = [], kws
        elif m == "somekw" and len(ps) > 1:
            k = r.randint(1, len(ps) - 1)
            kws = [ast.keyword(p, a) for p, a in zip(ps[k:], c.args[k:])]
            r.shuffle(kws)
            c.args, c.keywords = c.args[:k], kws
        elif m == "star":
            k = r.randint(0, len(c.args))
            c.args = c.args[:k] + [ast.Starred(ast.List(c.args[k:], ast.Load()), ast.Load())]
        elif m == "drop":
            c.args = c.args[:-1]
        elif m == "dup":
            c.args = c.args + c.args[-1:]
        elif m == "starkw":
            c.args, c.keywords = [], [ast.keyword(None, ast.Dict([ast.Constant(p) for p in ps], c.args))]
        else:
            r.shuffle(c.args)
        kind += " " + m
    elif kind == "slice":
        ss = [n for n in es if isinstance(n, ast.Subscript)]
        if not ss:
            return None
        s = r.choice(ss)
        if isinstance(s.slice, ast.Slice):
            m = r.choice(["step", "neg", "negstep", "full", "tuple"])
            if m == "step":
                s.slice.step = P(r.choice(["1", "2", "k0" if False else "3"]))
            elif m == "neg":
                if s.slice.lower is not None and r.random() < .5:
                    s.slice.lower = P("-1")
                else:
                    s.slice.upper = P(r.choice(["-1", "-2"]))
            elif m == "negstep":
                s.slice.step = P("-1")
            elif m == "full":
                s.slice = ast.Slice()
            else:
                s.slice = ast.Tuple([s.slice, s.slice], ast.Load())
        else:
            m = r.choice(["neg", "bool", "tuple", "negzero"])
            s.slice = P({"neg": "-1", "bool": "True", "tuple": "(0, 0)", "negzero": "-0"}[m])
        kind += " " + m
    elif kind == "fn":
        m = r.choice(["default", "star", "starstar", "kwonly", "posonly", "dslname", "dup", "decor", "async", "untyped", "lenname", "extra", "import", "redef", "rettype", "tail", "nested", "optional", "argany"])
        if m == "default":
            fn.args.defaults = [P("1")]
        elif m == "star":
            fn.args.vararg = ast.arg("rest", P("int"))
        elif m == "starstar":
            fn.args.kwarg = ast.arg("rest", P("int"))
        elif m == "kwonly":
            fn.args.kwonlyargs, fn.args.kw_defaults = [fn.args.args.pop()], [None]
        elif m == "posonly":
            fn.args.posonlyargs = [fn.args.args.pop(0)]
        elif m == "dslname":
            fn.name = r.choice(sorted(SIG[dsl]))
        elif m == "dup":
            f2 = ast.parse(text).body[-1]
            f2.body = [ast.Return(r.choice(es))]
            tree.body.append(f2)
            return kind + " dup", ast.unparse(ast.fix_missing_locations(tree))
        elif m == "decor":
            fn.decorator_list = [P("staticmethod")]
        elif m == "async":
            fn = ast.AsyncFunctionDef(**{f: getattr(fn, f, []) for f in fn._fields})
            tree.body[-1] = fn
        elif m == "untyped":
            fn.args.args[0].annotation = None
        elif m == "lenname":
            tree.body.insert(0, ast.parse("def len(v: List[int]) -> int:\n    return 7\n").body[0])
        elif m == "extra":
            tree.body.insert(0, ast.parse("def helper0(v: int) -> int:\n    return v\n").body[0])
        elif m == "import":
            tree.body.insert(0, ast.parse("from math import gcd as " + r.choice(["sel", "within", "gcd"])).body[0])
        elif m == "redef":
            tree.body.append(ast.parse(r.choice([f"{fn.name} = None", "sel = None", "total = len", "def within0() -> None:\n    pass", "len = sel"])).body[0])
        elif m == "rettype":
            fn.returns = P(r.choice(["bool", "int", "List[int]", "Any", "float", "None", "list[int]"]))
        elif m == "tail":
            fn.body.append(ast.parse("return 1").body[0])
        elif m == "nested":
            fn.body.insert(0, ast.parse("def sel(a: int) -> int:\n    return a").body[0])
        elif m == "optional":
            fn.args.args[0].annotation = P(r.choice(["Any", "object", "'int'", "float", "str", "List[bool]", "int or bool", "List[Any]", "list"]))
        else:
            fn.args.args[0].annotation = P("Any")
        kind += " " + m
    elif kind == "stmt":
        ret = fn.body[-1]
        e = ast.unparse(fn.body[0].value)
        first = fn.args.args[0].arg
        t = r.choice([f"r0 = {e}\nreturn r1", f"r0 = {e}\nr0 = 1\nreturn r0", f"if True:\n    return {e}\nelse:\n    return {e}", f"r0: int = {e}\nreturn r0",
                      f"'doc'\nreturn {e}", f"pass\nreturn {e}", f"assert True\nreturn {e}", f"r0 = r1 = {e}\nreturn r0", f"r0 = r0\nreturn r0", f"{first} = {e}\nreturn {first}",
                      f"r0 += 1\nreturn r0", f"while False:\n    pass\nreturn {e}", f"return", f"return {e}, {e}", f"yield {e}", f"{e}", f"raise ValueError()", f"r0 = {e}\nreturn (r0)",
                      f"global module_var\nreturn {e}", f"r0 = {e}\nreturn r0 + 1", f"(r0) = {e}\nreturn r0", f"r0, = [{e}]\nreturn r0", f"for r0 in [1]:\n    return {e}", f"del {first}\nreturn {e}",
                      f"r0 = {e} if {e} else {e}\nreturn r0", f"if {first}:\n    {first} = {first}\nreturn {e}", f"try:\n    return {e}\nfinally:\n    pass", f"{first} = {first}\nreturn {first}",
                      f"r0 = (lambda: {e})()\nreturn r0", f"return (r0 := {e})", f"with open('x'):\n    return {e}"])
        fn.body = ast.parse(f"def z():\n" + "\n".join("    " + l for l in t.split("\n"))).body[0].body
        kind += " " + t.split("\n")[0][:2]
    elif kind == "shadow":
        old = r.choice(fn.args.args).arg
        new = r.choice(sorted(SIG[dsl]) + ["len", "True_", "int", "List", fn.name, "module_fn", "list", "bool"])
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id == old:
                n.id = new
            if isinstance(n, ast.arg) and n.arg == old:
                n.arg = new
        kind += " " + new
    elif kind == "swap":
        if len(es) < 2:
            return None
        a, b = r.sample(es, 2)
        if any(n is a for n in ast.walk(b)):
            a, b = b, a
        replace(fn, a, copy.deepcopy(b))
    elif kind == "op":
        ops = [n for n in es if isinstance(n, (ast.BinOp, ast.Compare, ast.BoolOp))]
        if not ops:
            return None
        o = r.choice(ops)
        if isinstance(o, ast.BinOp):
            o.op = r.choice([ast.Add, ast.Sub, ast.Mult, ast.Mod, ast.FloorDiv, ast.Pow, ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.MatMult])()
        elif isinstance(o, ast.Compare):
            o.ops[r.randrange(len(o.ops))] = r.choice([ast.Is, ast.IsNot, ast.In, ast.NotIn, ast.Lt, ast.NotEq, ast.GtE, ast.Eq])()
        else:
            o.op = r.choice([ast.And, ast.Or])()
    elif kind == "hof":
        if dsl != "A":
            return None
        lst = next((a.arg for a in fn.args.args if ast.unparse(a.annotation) == "List[int]"), None)
        t = r.choice(["vmap({l}, {f})", "vfold({f}, 0, {l})", "vmap({l}, total)", "vfold(sel, 1, {l})", "vmap({l}, abs)", "vmap({l}, (lambda v: v) if True else (lambda v: 2))",
                      "vmap({l}, lambda v=1: v)", "vmap({l}, lambda *v: 1)", "vfold(lambda p, q=1: p - q, 1, {l})", "vmap({l}, undefined_fn)", "vfold(max, 0, {l})", "vfold(vfold, 0, {l})",
                      "vmap(vmap({l}, lambda v: v - 1), lambda v: v * 2)", "vmap({l}, lambda v: total(vmap({l}, lambda w: w - v)))", "vmap({l}, lambda {l}: {l} + 1)",
                      "vfold(lambda b, a: a - 2 * b, 1, {l})", "vfold(lambda a, b: a - 2 * b, 1, {l})", "vmap({l}, lambda v: vfold(lambda w, v: w - v, v, {l}))"])
        if lst is None:
            return None
        e = t.format(l=lst, f=fn.name)
        ret = "int" if e.startswith("vfold") else "List[int]"
        fn.returns, fn.body = P(ret), [ast.Return(P(e))]
        kind += " " + t
    else:
        ls = [n for n in es if isinstance(n, ast.Lambda)]
        if not ls:
            return None
        la = r.choice(ls)
        m = r.choice(["default", "star", "rename", "dropparam", "kwonly"])
        if m == "default":
            la.args.defaults = [P("1")]
        elif m == "star":
            la.args.vararg = ast.arg("rest")
        elif m == "rename":
            la.args.args[0].arg = r.choice(["p", "xs", "total", "x", "n"])
        elif m == "dropparam":
            la.args.args.pop()
        else:
            la.args.kwonlyargs, la.args.kw_defaults = [ast.arg("ko")], [ast.Constant(1)]
        kind += " " + m
    src = ast.unparse(ast.fix_missing_locations(tree))
    try:
        compile(src, "s", "exec")
    except (SyntaxError, ValueError):
        return kind, src          # must be rejected or meaningless
    if "module_var" in src:
        src = "module_var = 4\n" + src
    if "module_fn" in src and kind.startswith("lit"):
        src = "module_fn = lambda v: v - 1\n" + src
    return kind, src


# texts that need one particular thing to go wrong; each is either rejected or means what Python means
SIGS = {"v": "a: int, b: int, c: bool, xs: List[int]", "w": "xs: List[int], c: bool, b: int, a: int"}
BODIES = {
    "int": [
        "return sel(c, b=a, a=b)", "return sel(c, a, b=b)", "return sel(c, a=b, b=a)", "return sel(b=a, a=b, c=c)", "return sel(*[c, b, a])", "return sel(c, *[b, a])",
        "return sel(c, **{'b': a, 'a': b})", "return total(vsub(k=a, xs=xs))", "return total(vsub(xs, k=a))", "return vfold(lambda p, q: p - 2 * q, xs=xs, z=a)",
        "return vfold(lambda p, q: p - 2 * q, b, xs=xs)", "return vfold(op=lambda p, q: p - 2 * q, z=a, xs=xs)",
        "r0 = a + 1\n    return b", "a = b + 1\n    return b", "b = a + 1\n    return a", "a = b - 1\n    return a", "r0 = b = a + 1\n    return b", "a = b = a - b\n    return b",
        "a, b = b, a\n    return a", "a += b\n    return a", "r0: int = a\n    return b", "r0 = (a := b + 1)\n    return a", "return (a := b) + a", "a = 1\n    return a",
        "xs[0] = a\n    return xs[0]", "return a if c else b", "return (a if c else b) if a < b else a", "return b - (a if a < b else b)",
        "return xs[-1]", "return xs[-2] + a", "return xs[-(1)]", "return xs[- 1]", "return xs[~0]", "return xs[0 - 1]", "return xs[True]", "return xs[a - a]",
        "return len(xs[:-1])", "return len(xs[-1:])", "return total(xs[a:-1])", "return total(xs[-2:b])", "return total(xs[0:-2])", "return total(xs[:-a])", "return total(xs[-1:-1])",
        "return total(xs[::2])", "return total(xs[1::2])", "return total(xs[:b:2])", "return total(xs[a:b:2])", "return total(xs[a:b:1])", "return total(xs[::-1])", "return total(xs[:])",
        "return vfold(lambda p, q: p - 2 * q, 1, xs) + vfold(lambda q, p: p - 2 * q, 1, xs)", "return vfold(lambda a, b: a - 2 * b, a, xs)", "return vfold(lambda b, a: a - 2 * b, b, xs)",
        "return vfold(lambda p, q: p - q, vfold(lambda q, p: p - q, 3, xs), xs)", "return vfold(lambda p, q: p, 1, xs) - vfold(lambda p, q: q, 1, xs)",
        "return total(vmap(xs, lambda v: v + 1)) - total(vmap(xs, lambda v: v + 2))", "return total(vmap(xs, lambda v: v + a)) - total(vmap(xs, lambda v: v + b))",
        "return total(vmap(xs, lambda v: v - 1)) - 2 * total(vmap(xs, lambda w: w - 1))", "return total(vmap(vmap(xs, lambda v: v - 1), lambda v: v * 2))",
        "return total(vmap(xs, lambda v=3: v))", "return total(vmap(xs, lambda v, w=3: v + w))", "return vfold(lambda p, q=3: p - q, 0, xs)", "return total(vmap(xs, lambda *v: 3))",
        "return total(vmap(xs, lambda a: a - b))", "return total(vmap(xs, lambda xs: xs + len([a])))", "return a - b - 1", "return a - (b - 1)", "return -a - -b", "return -(a - b)", "return a // b * b",
        "return a // (b * 2)", "return a % b - b", "return a >> 1", "return a ** 2", "return ~a", "return +a", "return a - c", "return c + 1", "return a and b", "return a or b", "return abs(a)",
        "return max(a, b)", "return sum(xs)", "return int(c)", "return len(xs) - len(xs[a:])", "return True", "return 1.5", "return a if a else b", "return 0x10 - a", "return 1_0 + a",
        "return total([a, b])", "return total([])", "return total(xs + [a])", "return total([v + a for v in xs])", "return total(list(xs))", "return a.real", "return f0(b, a, c, xs)",
    ],
    "bool": [
        "return a < b < a + 3 < b + 6", "return a < b == c", "return a < b > 0", "return a <= b <= a", "return 0 <= a < b <= 9", "return a == b == a", "return a != b != a", "return a < b != a", "return not a < b", "return not c",
        "return a is b", "return a in xs", "return xs == xs[0:]", "return xs == xs[a:]", "return xs != xs[a:]", "return xs < xs[1:]", "return c == (a < b)", "return c == a", "return c != (a < b)", "return c < (a < b)",
        "return a == True", "return c and a < b or b < 3", "return c and (a < b or b < 3)", "return (c or a < b) and b < 3", "return c and c and a < 2", "return c or (a < b and c)", "return a and c", "return c & (a < b)", "return c ^ c",
        "return within(a, b, hi=3)", "return within(hi=a, x=b, lo=0)", "return within(a, b, a) == within(b, a, b)", "return anyof(xs, lambda v: v < a)", "return anyof(xs, pred=lambda v: v < a)", "return anyof(xs, lambda v: v < a < b)",
        "return anyof(xs, lambda v: 0 < v < 3)", "return (a < b) if c else (b < a)", "return all([a < b])", "return any([c])", "return bool(a)", "return c is True", "return True if c else False", "return a < b and b",
    ],
    "List[int]": [
        "return xs[1:] + xs[:1]", "return xs[a:b]", "return xs[:b][a:]", "return xs[a:][:b]", "return xs + xs[a:]", "return xs * 2", "return [a] + xs", "return xs if c else xs[1:]", "return vmap(xs, lambda v: v if v < a else b)",
        "return vmap(xs, fn=lambda v: v - a)", "return vmap(fn=lambda v: v - a, xs=xs)", "return vmap(xs, abs)", "return vsub(xs, b) + vsub(xs[1:], a)", "return vsub(vsub(xs, a), b)", "return []", "return xs[-1:]", "return xs[::1]",
        "r0 = xs[1:]\n    return xs", "xs = xs[1:]\n    return xs", "return vmap(xs, lambda a: a - b) + vmap(xs, lambda b: a - b)", "return sorted(xs)", "xs.append(a)\n    return xs", "return [*xs, a]",
    ],
}
WHOLE = [
    (2, "def g0(y: int, x: int) -> int:\n    return y - 2 * x\n\ndef f0(xs: List[int]) -> int:\n    return vfold(g0, 1, xs)"),
    (2, "def g0(x: int, y: int) -> int:\n    return y - 2 * x\n\ndef f0(xs: List[int]) -> int:\n    return vfold(g0, 1, xs)"),
    (2, "def f0(xs: List[int]) -> int:\n    return vfold(g0, 1, xs)\n\ndef g0(y: int, x: int) -> int:\n    return y - 2 * x"),
    (2, "def g0(y: int, x: int) -> int:\n    return y - 2 * x\n\ndef f0(a: int, b: int) -> int:\n    return g0(a, b) - g0(b, g0(a, 1))"),
    (2, "def g0(y: int, x: int) -> int:\n    return y - 2 * x\n\ndef f0(a: int, b: int) -> int:\n    return g0(x=a, y=b)"),
    (2, "def g0(y: int, x: int) -> int:\n    return y - 2 * x\n\ndef f0(a: int, b: int) -> int:\n    return g0(a, x=b)"),
    (2, "def g0(y: int, x: int) -> int:\n    return y if x <= 0 else g0(y - 2, x - 1)\n\ndef f0(b: int, a: int) -> int:\n    return g0(a, b) if b < 5 else f0(b - 1, a + 1)"),
    (1, "def f0(z: int, n: int) -> int:\n    return z if n <= 0 else f0(z * 2 + n, n - 1)"),
    (1, "def f0(n: int, xs: List[int], acc: int) -> int:\n    return acc if n >= len(xs) else f0(n + 1, xs, acc - xs[n])"),
    (2, "def g0(x: int) -> int:\n    return x - 1\n\ndef f0(xs: List[int]) -> List[int]:\n    return vmap(vmap(xs, g0), lambda g: g - 2)"),
    (2, "def g0(x: int) -> int:\n    return x - 1\n\ndef f0(xs: List[int], g0: int) -> List[int]:\n    return vmap(xs, lambda v: v - g0)"),
    (2, "def g0(xs: List[int], a: int) -> List[int]:\n    return vmap(xs, lambda v: v - a)\n\ndef f0(xs: List[int], a: int) -> List[int]:\n    return vmap(xs, lambda v: v - a) + g0(xs, a + 1)"),
    (2, "def g0(xs: List[int], a: int) -> List[int]:\n    return vmap(xs, lambda v: v - 1)\n\ndef f0(xs: List[int], a: int) -> List[int]:\n    return vmap(xs, lambda v: v - 2) + g0(xs, a + 1)"),
    (1, "from llmlift_scripts.dsl import total as sum\n\ndef f0(xs: List[int]) -> int:\n    return sum(xs)"),
    (1, "from llmlift_scripts.dsl import total as len\n\ndef f0(xs: List[int]) -> int:\n    return len(xs)"),
    (1, "from typing import List as Vec\n\ndef f0(xs: Vec[int]) -> int:\n    return total(xs)"),
    (1, "import math\n\ndef f0(a: int, b: int) -> int:\n    return math.gcd(a, b)"),
    (1, "int = bool\n\ndef f0(a: int, b: int) -> int:\n    return a"),
    (1, "def f0(total: int, b: int) -> int:\n    return total - b"),
    (1, "def f0(len: int, xs: List[int]) -> int:\n    return total(xs) - len"),
    (1, "def f0(a: int, b: int = 3) -> int:\n    return a - b"),
    (1, "def f0(a: int = 1, b: int = 3) -> int:\n    return a - b"),
    (1, "def f0(a: int, *b: int) -> int:\n    return a - len(b)"),
    (1, "def f0(a: int, *, b: int) -> int:\n    return a - b"),
    (1, "def f0(a: int, /, b: int) -> int:\n    return a - b"),
    (1, "def f0(a: int, b: int) -> int:\n    \'\'\'return b - a  # \"\"\"\n    \'\'\'\n    return a - b"),
    (1, "def f0(a: int, b: int) -> int:\n    # it\'s \'\'\' not the end\n    return a - b  # \'\'\' nor \"\"\" here\n# return b - a"),
    (1, "def f0(a: int, b: int) -> int: return a - b # - b\n"),
    (1, "# one\n# two\ndef f0(a: int,  # three\n       b: int) -> int:  # four\n    # five\n    return (a  # six\n            - b)  # seven"),
    (2, "def f0(a: int, b: int) -> int:\n    return a - b\n\ndef f0(a: int, b: int) -> int:\n    return b - a"),
    (1, "def total(xs: List[int]) -> int:\n    return 3"),
    (2, "def total(xs: List[int]) -> int:\n    return 3\n\ndef f0(xs: List[int]) -> int:\n    return total(xs)"),
    (1, "f0 = total\n\ndef f1(xs: List[int]) -> int:\n    return f0(xs)"),
    (1, "def f0(a: int, b: int) -> int:\n    return a - b\n\nf0 = lambda a, b: b - a"),
    (1, "def f0(a: int, b: int) -> int:\n    def g(x: int) -> int:\n        return x - b\n    return g(a)"),
]


def near_texts():
    for ret, bodies in BODIES.items():
        for i, b in enumerate(bodies):
            yield 1, f"def f0({SIGS['vw'[i % 2]]}) -> {ret}:\n    {b}"
    yield from WHOLE


# ------------------------------------------------------------------ oracle
class Clos(Ev):
    """Functions passed as arguments see the variables around them, as Python's lambdas do."""

    def ev(self, e, env):
        v = super().ev(e, env)
        if isinstance(v, tuple) and len(v) > 100000 or isinstance(v, int) and v.bit_length() > 100000:
            raise RecursionError("a value that grows without end")
        return v

    def e_FnDecl(self, e, env):
        ps = [p.args[0] for p in e.arguments()]

        def f(*a):
            if len(a) != len(ps):
                raise EvalError("arity")
            return self.ev(e.body(), {**env, **dict(zip(ps, a))})
        return f
    e_FnDeclRecursive = e_FnDecl


def floor_only(a, b):
    if b <= 0:
        raise Undefined("div")
    return a // b


def floor_mod(a, b):
    if b <= 0:
        raise Undefined("mod")
    return a % b


def thaw(v):
    return [thaw(x) for x in v] if isinstance(v, tuple) else v


def freeze(v):
    return tuple(freeze(x) for x in v) if isinstance(v, list) else v


def extern(f):
    """A Python DSL function as a function on evaluator values."""
    def g(*a):
        try:
            return freeze(f(*[thaw(x) if not callable(x) else x for x in a]))
        except (IndexError, ZeroDivisionError, RecursionError) as x:
            raise Undefined(str(x))
        except (TypeError, AttributeError) as x:
            raise EvalError(f"call: {x}")
    return g


PYENV = "from typing import *\n"


def fits(v, code):
    return {"i": lambda: isinstance(v, int) and not isinstance(v, bool), "b": lambda: isinstance(v, bool),
            "l": lambda: isinstance(v, tuple) and all(fits(x, "i") for x in v),
            "n": lambda: isinstance(v, tuple) and all(fits(x, "l") for x in v)}[code]()


def code_of(t):
    s = str(t).replace("metalift.ir.", "").replace("<class '", "").replace("'>", "")
    return {"Int": "i", "Bool": "b", "List[Int]": "l", "List[List[Int]]": "n"}.get(s)


FUNS = {"F1": [lambda v: v + 1, lambda v: 2 * v], "F2": [lambda v, w: v - 2 * w, lambda v, w: v], "P1": [lambda v: v > 0, lambda v: v % 2 == 0]}
SIGNIFICANT = (NameError, TypeError, AttributeError)


def rand_input(r, t):
    if t in FUNS:
        return r.choice(FUNS[t])
    if t == "i":
        return r.choice([0, 1, 2, 3, 1, 2, r.randint(-5, 9)])
    if t == "b":
        return r.random() < .5
    if t == "l":
        return tuple(r.randint(-3, 6) for _ in range(r.choice([0, 1, 2, 3, 3, 4])))
    k = r.randint(0, 3)
    return tuple(tuple(r.randint(-3, 6) for _ in range(r.choice([k, k, 2]))) for _ in range(r.choice([0, 1, 2, 3])))


def shaped(r, pars):
    """Inputs of matching dimensions, as the library functions expect."""
    h, wd = r.randint(1, 3), r.randint(1, 3)
    v = {}
    for p, t in pars:
        if t == "i":
            v[p] = r.choice([r.randint(0, min(h, wd)), r.randint(0, 40)])
        elif t == "b":
            v[p] = r.random() < .5
        elif t == "l":
            v[p] = tuple(r.randint(0, 33) for _ in range(r.choice([h, wd, wd, 3])))
        else:
            v[p] = tuple(tuple(r.randint(0, 33) for _ in range(wd)) for _ in range(h))
    return v


def library_texts():
    """The solutions shipped with the repository, over the DSL of its tensor library."""
    import llmlift_scripts.correct_sols as cs
    from metalift.utils.tenspiler.constants import TENSPILER_FNS
    DSL["T"] = "\n\n".join(f.to_python() for f in TENSPILER_FNS)
    out = [(n, v) for n, v in sorted(vars(cs).items()) if isinstance(v, str) and not n.startswith("__") and "def " in v]
    return out


class W:
    """One worker: its own copy of the sources, one parser session."""

    def __init__(self, k, root):
        self.k, self.out = k, {"cases": 0, "cnt": {}, "fails": [], "nt": [], "samples": []}
        import llmlift_scripts.parser as parser
        assert os.path.realpath(parser.__file__).startswith(os.path.realpath(root)), parser.__file__
        self.p = parser
        self.session = {}

    def count(self, n, by=1):
        self.out["cnt"][n] = self.out["cnt"].get(n, 0) + by

    def fail(self, mech, msg, **d):
        self.out["fails"].append([mech, msg, {k: str(v) for k, v in d.items()}])

    def parse(self, text, n, dsl):
        lam, cnt, seen = self.session.setdefault(dsl, ({}, {}, {}))
        with harness.quiet():
            try:
                names, decls, calls = self.p.check_solution(solution=text, expected_num_funcs=n, dsl_code=DSL[dsl],
                                                            lambda_exprs=lam, arg_name_to_count=cnt)
            except (Exception, SystemExit) as x:
                return None, f"{type(x).__name__}: {x}"
        for d in decls:
            if hasattr(d, "arguments") and d.name() not in names:
                self.count("lambda definitions")
                if seen.setdefault(d.name(), d) != d:
                    self.fail("lambda-names", f"two different lambda expressions of one session are both called {d.name()}: {seen[d.name()]!r} and {d!r}", text=text)
        return (names, decls, calls), None

    def judge(self, text, dsl, res, r, label, ninputs):
        names, decls, calls = res
        ns = {}
        tree = None
        try:
            exec(compile(PYENV + DSL[dsl], "dsl", "exec"), ns)
            dslns = {k: v for k, v in ns.items() if type(v).__name__ == "function"}
            exec(compile(text, "solution", "exec"), ns)
            tree = ast.parse(text)
        except Exception as x:
            self.fail("meaningless", f"[{label}] a text that Python rejects ({type(x).__name__}: {x}) was accepted", text=text)
            return
        byname = {}
        for d in decls:
            if type(d).__name__ not in ("FnDecl", "FnDeclRecursive"):
                self.fail("not-a-definition", f"[{label}] the list of definitions contains {d!r} of kind {type(d).__name__}", text=text)
                return
            if d.name() in byname and byname[d.name()] != d:
                self.fail("two-definitions", f"[{label}] two different definitions are called {d.name()}", text=text)
                return
            byname[d.name()] = d
            bad = stray(d)
            if bad is not None:
                self.fail("not-an-expression", f"[{label}] the definition of {d.name()} contains {bad!r} of kind {type(bad).__name__}, which is not an expression", text=text)
                return
        fns = {k: extern(v) for k, v in dslns.items()}
        fns.update({n: byname[n] for n in names if n in byname})
        for name in names:
            if name not in byname:
                self.fail("missing", f"[{label}] {name} was accepted but has no definition", text=text)
                return
            d = byname[name]
            py = ns.get(name)
            node = [n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name]
            if not node:
                continue
            node = node[-1]
            inv = {ast.unparse(ast.parse(v, mode="eval")): k for k, v in TY.items()}
            anns = {**inv, "list[int]": "l", "'int'": "i"}
            pars = [(a.arg, anns.get(ast.unparse(a.annotation)) if a.annotation else None) for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
            got = [a.name() for a in d.arguments()]
            if sorted(got) != sorted(p for p, _ in pars):
                self.fail("parameters", f"[{label}] {name} has parameters {[p for p, _ in pars]}, the definition has {got}", text=text)
                return
            if got != sorted(got):
                self.fail("parameter-order", f"[{label}] the parameters of {name} are not in name order: {got}", text=text)
                return
            if any(t is None for _, t in pars):
                self.count("accepted with a parameter type outside the domain")
                continue
            rc = code_of(d.return_type())
            for _ in range(ninputs):
                vals = {p: rand_input(r, t) for p, t in pars}
                if dsl == "T":
                    vals = shaped(r, pars)
                old = sys.getrecursionlimit()
                sys.setrecursionlimit(1500)
                try:
                    kw = {p: (v if callable(v) else thaw(v)) for p, v in vals.items()}
                    npos = len(node.args.posonlyargs)
                    pos = [kw.pop(p) for p, _ in pars[:npos]]
                    want, exc = freeze(py(*pos, **kw)), None
                except Exception as x:
                    want, exc = None, x
                finally:
                    sys.setrecursionlimit(old)
                self.out["cases"] += 1
                shown = {p: getattr(v, "__name__", v) for p, v in vals.items()}
                sys.setrecursionlimit(12000)
                try:
                    ev = Clos(fns, 200000, divmod_=(floor_only, floor_mod))
                    have = ev.ev(d.body(), dict(vals))
                    und = None
                except Undefined as x:
                    have, und = None, x
                except RecursionError as x:
                    have, und = None, "recursion"
                except (EvalError, AttributeError, TypeError, KeyError) as x:
                    self.fail("ill-formed", f"[{label}] {name}({shown}): the definition cannot be evaluated: {x}; Python gives {want if exc is None else exc!r}",
                              text=text, definition=safe_repr(d))
                    return
                finally:
                    sys.setrecursionlimit(old)
                if exc is not None:
                    if isinstance(exc, SIGNIFICANT) and und is None:
                        self.fail("python-raises", f"[{label}] {name}({shown}) raises {exc!r} in Python but the definition computes {have!r}", text=text)
                        return
                    self.count("inputs where Python raises")
                    continue
                if str(und) == "recursion":
                    self.fail("diverges", f"[{label}] {name}({shown}) is {want!r} in Python, the definition calls itself for ever", text=text, definition=safe_repr(d))
                    return
                if und is not None and negative_bound(node):
                    self.fail("negative-bound", f"[{label}] {name}({shown}) is {want!r} in Python, which counts from the end; the definition has no value ({und})", text=text, definition=safe_repr(d))
                    return
                if und is not None:
                    self.count("inputs outside the defined operations")
                    if not inside(und):
                        self.count("undefined: " + str(und)[:12])
                    continue
                if not fits_any(want) or not same(norm(have), norm(want)):
                    self.fail("differs", f"[{label}] {name}({shown}) is {want!r} in Python, the definition gives {have!r}", text=text, definition=safe_repr(d))
                    return
                if rc is None or not fits(have, rc):
                    self.fail("type", f"[{label}] {name} is declared to return {d.return_type()} but computes {have!r}", text=text)
                    return
                self.count("values compared")
                self.out["nt"].append(hashlib.blake2b(repr((text, sorted(shown.items(), key=repr))).encode(), digest_size=6).hexdigest())


def stray(e):
    from metalift.ir import Expr
    for a in e.args:
        if isinstance(a, Expr):
            b = stray(a)
            if b is not None:
                return b
        elif not isinstance(a, (str, int, bool, type)) and "typing" not in type(a).__module__ and a is not None:
            return a
    return None


def norm(v):
    return tuple(norm(x) for x in v) if isinstance(v, tuple) else v


def fits_any(v):
    return isinstance(v, (bool, int)) or (isinstance(v, tuple) and all(fits_any(x) for x in v))


def inside(u):
    return str(u) in ("index", "div", "mod", "fuel", "slice", "recursion", "overflow guard")


def safe_repr(d):
    try:
        return repr(d)
    except Exception as x:
        return f"<{x}>"


def worker(k, nw, root, seed, nplain, nmut, deadline, thorough):
    import time
    t0 = time.time()
    w = W(k, root)
    out = w.out

    def rng(*salt):
        h = hashlib.sha256(repr((PID, seed, salt)).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def flush():
        out["done"] = True
        json.dump(out, sys.stdout)
        sys.stdout.flush()

    sys_stdout = sys.stdout
    phases = [("A", nplain, nmut), ("B", max(1, nplain // 4), nmut // 5)] if k % 2 == 0 else [("B", max(1, nplain // 4), nmut // 5), ("A", nplain, nmut)]
    for dsl, npl, nm in phases:
        # the subset shown to the model: batches that must be accepted
        for b in range(npl):
            if time.time() - t0 > deadline:
                break
            r = rng("plain", dsl, k, b)
            funcs, texts = {}, []
            for j in range(10):
                nm_ = r.choice(["f", "inv", "ps", "helper", "z"]) + str(j)
                if r.random() < .2:
                    t, ret, ps = rec_function(r, nm_)
                else:
                    t, ret, ps = function(r, dsl, nm_, dict(list(funcs.items())[-3:]))
                texts.append(t)
                if all(x in "ibln" for _, x in ps):
                    funcs[nm_] = (ret, "".join(x for _, x in ps))
            text = "\n".join(texts)
            if r.random() < .3:
                text = "# a comment with def f( in it\n" + text.replace("return", "return ", 3) + "\n# end"
            res, err = w.parse(text, len(texts), dsl)
            if err:
                w.count("batches rejected")
                for t in texts:     # locate the text, on its own where it stands alone
                    r1, e1 = w.parse(t, 1, dsl)
                    if e1 and not any(f + "(" in t.split("\n", 1)[1] for f in funcs):
                        w.fail("rejected", f"a function within the supported subset was rejected: {e1}", text=t)
                        break
                else:
                    w.fail("rejected", f"functions within the supported subset were rejected: {err}", text=text)
            else:
                w.count("functions accepted", len(texts))
                if len(out["samples"]) < 2:
                    out["samples"].append(text[:400])
                w.judge(text, dsl, res, r, "subset", 10 if thorough else 8)
            if len(out["fails"]) > 3:
                return flush()
        for b in range(nm):
            if time.time() - t0 > deadline:
                break
            r = rng("mut", dsl, k, b)
            t, ret, ps = rec_function(r, "f0") if r.random() < .15 else function(r, dsl, "f0", {}, fparams=False)
            try:
                m = mutate(r, t, dsl)
            except SyntaxError:
                m = None
            if m is None:
                continue
            kind, text = m
            if r.random() < .15:
                m2 = None
                try:
                    m2 = mutate(r, text, dsl)
                except Exception:
                    pass
                if m2:
                    kind, text = kind + " + " + m2[0], m2[1]
            w.count("near texts")
            n = 2 if kind.endswith("dup") else 1
            res, err = w.parse(text, n, dsl)
            if err:
                w.count("near texts rejected")
                continue
            w.count("near texts accepted")
            w.judge(text, dsl, res, r, kind, 10)
            if len(out["fails"]) > 3:
                return flush()
    for i, (n, text) in enumerate(near_texts()):
        if i % nw != k or len(out["fails"]) > 3:
            continue
        w.count("directed texts")
        res, err = w.parse(text, n, "A")
        if err:
            w.count("directed texts rejected")
            continue
        w.count("directed texts accepted")
        w.judge(text, "A", res, rng("near", i), "directed", 60 if thorough else 25)
    for i, (n, text) in enumerate(library_texts()):
        if i % nw != k or len(out["fails"]) > 3:
            continue
        r = rng("lib", n)
        res, err = w.parse(text, text.count("def "), "T")
        if err:
            w.fail("rejected", f"the solution {n} shipped with the repository was rejected: {err}", text=text)
            continue
        w.count("shipped solutions")
        w.judge(text, "T", res, r, n, 60 if thorough else 25)
    flush()


def ite_texts(c):
    """replace_ite keeps the meaning of the text; extraction keeps the text of each block."""
    from llmlift_scripts import utils

    class GI(G):
        def ite(self, t, env, d):
            f = self.r.choice(["ite({0}, {1}, {2})", "ite( {0},{1} ,{2} )", "ite({0},\n        {1},\n        {2})", "ite({0}, ({1}), ({2}))", "(({1}) if ({0}) else ({2}))"])
            return f.format(self.e("b", env, d), self.e(t, env, d), self.e(t, env, d))

    def eager(cond, a, b):
        return a if cond else b

    for k in range(c.n(400, 6000)):
        r = c.rng("ite", k)
        env = {"x": "i", "ys": "l", "b": "b", "site": "i", "m": "n"}
        g = GI(r, "A", {"favorite": ("i", "iii"), "f_ite": ("l", "lib")})
        ex = g.e(r.choice("iibl"), env, r.choice([1, 2, 3]))
        if "SKIP" in ex or len(ex) > 1500 or "lambda" in ex:
            continue
        if r.random() < .5:
            try:
                ex = minimal(ex)
            except RecursionError:
                continue
        body = r.choice(["    return {}\n", "    r = {}\n    return r\n", "    return (\n        {}\n    )\n", "    return ({})  # ite(1, 2, 3) of x\n"]).format(ex)
        src = "def f(x: int, ys: List[int], b: bool, site: int, m: List[List[int]]):\n" + body
        if r.random() < .2:
            src = "    " + src.replace("\n", "\n    ").rstrip(" ")
        ns = {}
        exec(PYENV + DSL_A, ns)
        ns.update(ite=eager, favorite=lambda a, b_, c_: a - 2 * b_ + c_, f_ite=lambda l, i, bb: l[i:] if bb else l)
        import textwrap
        exec(textwrap.dedent(src), ns)
        want = ns["f"]
        try:
            with harness.quiet():
                got = utils.replace_ite(src)
            n2 = dict(ns)
            exec(textwrap.dedent(got), n2)
            have = n2["f"]
        except SyntaxError as x:
            c.fail("replace-ite", f"replace_ite turns a Python text into one that is not: {x}", text=src)
            continue
        c.count("ite texts")
        c.case(("ite", src))
        for _ in range(6):
            args = [r.randint(-3, 5), list(rand_input(r, "l")), r.random() < .5, r.randint(0, 4), thaw(rand_input(r, "n"))]
            try:
                a = want(*args)
            except (IndexError, ZeroDivisionError, RecursionError):
                continue
            try:
                b = have(*args)
            except Exception as x:
                b = x
            if type(a) is not type(b) or a != b:
                c.fail("replace-ite", f"replace_ite changes the value of the text from {a!r} to {b!r} on {args}", text=src, result=got)
                break
            if "ite(" in ex:
                c.nontrivial(("ite", src, repr(args)))
        if "ite(" in re.sub(r"\w+ite\(", "", re.sub("#.*", "", got)):
            c.fail("replace-ite", "replace_ite leaves an ite call", text=src, result=got)


def loop_args(c):
    """The arguments of an invariant are the distinct variables of the loop in name order."""
    from llmlift_scripts import utils
    from metalift.ir import Int, List
    for k in range(c.n(300, 3000)):
        r = c.rng("args", k)
        pool = [(n, r.choice([Int, List[Int]])) for n in r.sample(NAMES, 8)]

        def mk(v):
            return Int(v[0]) if v[1] is Int else List(Int, v[0])

        def some():
            return [r.choice(pool) for _ in range(r.randint(0, 6))]
        loop = r.choice([v for v in pool]) 
        rep = {n: n + ".result" for n, _ in r.sample(pool, r.randint(0, 3))}
        if r.random() < .5:
            a, b = some(), some()
            info = utils.SingleLoopInfo(mk(loop), [mk(v) for v in a], [mk(v) for v in b])
            want = [sorted(set(a + b + [loop]), key=lambda v: v[0])]
            got = [utils.get_inv_args(info)]
        else:
            a, b, d, e = some(), some(), some(), some()
            inner = r.choice(pool)
            info = utils.DoubleLoopInfo(mk(loop), mk(inner), [mk(v) for v in a], [mk(v) for v in b], [mk(v) for v in d], [mk(v) for v in e])
            want = [sorted(set(a + d + [loop]), key=lambda v: v[0]), sorted(set(b + e + [inner]), key=lambda v: v[0])]
            got = list(utils.get_inv_args(info))
        c.case(("args", k))
        c.count("argument lists", len(got))
        for w, g in zip(want, got):
            if [(o.var_name(), o.type) for o in g] != w:
                c.fail("invariant-arguments", f"the arguments of the invariant are {g}, the loop has {w}")
            ren = utils.replace_args(args=g, replace_args=rep)
            if [(o.var_name(), o.type) for o in ren] != [(rep.get(n, n), t) for n, t in w]:
                c.fail("replace-args", f"renaming {rep} in {g} gives {ren}")


def copy_sources(dst):
    for d in ("llmlift_scripts", "metalift"):
        shutil.copytree(os.path.join(boot.REPO, d), os.path.join(dst, d), ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "*.rkt", "verification_with_testing"))
    os.symlink(os.path.join(boot.REPO, "tests"), os.path.join(dst, "tests"))


def run(c):
    nw = 8
    base = boot.scratch()
    procs = []
    for k in range(nw):
        root = os.path.join(base, f"w{k}")
        os.makedirs(root)
        copy_sources(root)
        env = dict(os.environ, MON_SCRATCH=base, C17_ROOT=root)
        args = [sys.executable, "-W", "ignore", os.path.abspath(__file__), "--worker", str(k), str(nw), root, str(c.seed),
                str(c.n(5, 45)), str(c.n(48, 900)), str(c.n(420, 4800)), str(int(c.thorough))]
        procs.append(subprocess.Popen(args, cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    ite_texts(c)
    loop_args(c)
    c.require("ite texts", 100)
    c.require("shipped solutions", 30)
    c.require("values compared", 800)
    c.require("functions accepted", 100)
    c.require("near texts rejected", 50)
    c.require("directed texts rejected", 50)
    c.require("directed texts accepted", 60)
    fails = []
    for k, p in enumerate(procs):
        o, e = p.communicate()
        try:
            res = json.loads(o[o.index("{"):])
        except ValueError:
            raise harness.Inconclusive(f"worker {k} failed: {e[-2000:]}")
        for n, v in res["cnt"].items():
            c.count(n, v)
        c.evals += res["cases"]
        for h in res["nt"]:
            c.keys.add(bytes.fromhex(h))
            c.nt.add(bytes.fromhex(h))
        for s in res["samples"]:
            c.sample(s, 3)
        fails += res["fails"]
    for mech, msg, d in fails:
        c.fail(mech, msg, **d)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        k, nw, root, seed, nplain, nmut, deadline, th = sys.argv[2:10]
        boot.boot(root)
        real = sys.stdout
        threading.stack_size(1 << 29)           # definitions that do not end are evaluated down to the recursion limit
        rc = [1]

        def body():
            try:
                worker(int(k), int(nw), root, seed, int(nplain), int(nmut), float(deadline), th == "1")
                rc[0] = 0
            except BaseException:
                traceback.print_exc()
        t = threading.Thread(target=body)
        t.start()
        t.join()
        sys.stdout.flush()
        os._exit(rc[0])
    harness.main(PID, LEVEL, RULE, run)
