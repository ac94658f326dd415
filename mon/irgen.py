"""Random well-typed metalift expressions, built from the public Expr constructors.

Type codes: 'i' int, 'b' bool, 'l' list of int, 'B' list of bool, 'm' matrix (Matrix[Int]),
'n' nested list (List[List[Int]]), 't' tensor (Tensor3D[Int]), 's' set of int, ('T', c1, c2, ...) tuple.
Feature flags choose which forms may appear, so that each renderer gets its own fragment.
"""
from . import ireval
from .ireval import TupV


def ty(c):
    from metalift import ir
    if c == "i":
        return ir.Int
    if c == "b":
        return ir.Bool
    if c == "l":
        return ir.List[ir.Int]
    if c == "B":
        return ir.List[ir.Bool]
    if c == "m":
        return ir.Matrix[ir.Int]
    if c == "n":
        return ir.List[ir.List[ir.Int]]
    if c == "t":
        return ir.Tensor3D[ir.Int]
    if c == "s":
        return ir.Set[ir.Int]
    if c[0] == "T":
        return ir.make_tuple_type(*[ty(x) for x in c[1:]])
    if c[0] == "F":
        return ir.make_fn_type(*[ty(x) for x in c[1:]])
    raise ValueError(c)


def rand_val(rng, c, lo=-4, hi=6, maxlen=4):
    if c == "i":
        return rng.randint(lo, hi)
    if c == "b":
        return rng.random() < 0.5
    if c == "l":
        return tuple(rng.randint(lo, hi) for _ in range(rng.randint(0, maxlen)))
    if c == "B":
        return tuple(rng.random() < .5 for _ in range(rng.randint(0, maxlen)))
    if c in ("m", "n"):
        r, k = rng.randint(0, 3), rng.randint(1, 3)
        return tuple(tuple(rng.randint(lo, hi) for _ in range(k)) for _ in range(r))
    if c == "t":
        d, r, k = rng.randint(0, 3), rng.randint(1, 2), rng.randint(1, 2)
        return tuple(tuple(tuple(rng.randint(lo, hi) for _ in range(k)) for _ in range(r)) for _ in range(d))
    if c == "s":
        return frozenset(rng.randint(lo, hi) for _ in range(rng.randint(0, maxlen)))
    if c[0] == "T":
        return TupV(rand_val(rng, x, lo, hi, maxlen) for x in c[1:])
    raise ValueError(c)


SMT = dict(types=["i", "b", "l", "m", "n", "s", ("T", "i", "i"), ("T", "l", "i", "b"), ("T", "i")],
           implies=True, let=True, sets=True, tuples=True, slices=True, transpose=True, tupexpr_get=True,
           concat=True, eqlist=True, tensors=False, callvalue=False, neglit=True)
ROS = dict(types=["i", "b", "l", "m", "n", "t", "s", ("T", "i", "i"), ("T", "i", "i", "i")],
           implies=True, let=True, sets=True, tuples=True, slices=True, transpose=True, tupexpr_get=True,
           concat=True, eqlist=True, tensors=True, callvalue=True, neglit=True)
PY = dict(types=["i", "b", "l", "m", "n"], implies=False, let=False, sets=False, tuples=True, slices=True,
          transpose=True, tupexpr_get=True, tupexpr_ite=True, concat=True, eqlist=True, tensors=False, callvalue=True, neglit=True,
          tuptypes=[("T", "i", "i"), ("T", "i"), ("T", "i", "b", "l")])


class Gen:
    def __init__(self, rng, feat, scope, fns=None):
        """scope: {name: typecode}; fns: {name: (retcode, [argcodes])} callable user functions."""
        self.rng, self.f = rng, feat
        self.scope = dict(scope)
        self.fns = fns or {}
        self.n = 0
        self.used = set()

    def fresh(self):
        self.n += 1
        return f"w{self.n}"

    def pick(self, opts):
        tot = sum(w for w, _ in opts)
        x = self.rng.random() * tot
        for w, o in opts:
            x -= w
            if x <= 0:
                return o
        return opts[-1][1]

    def var(self, c, scope):
        from metalift import ir
        vs = [n for n, k in scope.items() if k == c]
        if not vs:
            return None
        return ir.Var(self.rng.choice(vs), ty(c))

    def leaf(self, c, scope):
        from metalift import ir
        r = self.rng
        v = self.var(c, scope)
        if v is not None and (r.random() < .75 or c not in ("i", "b", "l", "m", "s")):
            return v
        if c == "i":
            lo = -5 if self.f["neglit"] else 0
            return ir.IntLit(r.randint(lo, 7))
        if c == "b":
            return ir.BoolLit(r.random() < .5)
        if c in ("l", "B"):
            return ir.Call("list_empty", ty(c))
        if c == "m":
            return ir.Call("matrix_empty", ty("m"))
        if c == "n":
            return ir.Call("matrix_empty", ty("n"))
        if c == "t":
            return ir.Call("tensor3d_empty", ty("t"))
        if c == "s":
            return ir.Call("set-create", ty("s"))
        if isinstance(c, tuple) and c[0] == "T":
            return ir.TupleExpr(*[self.leaf(x, scope) for x in c[1:]])
        if v is not None:
            return v
        raise ValueError(c)

    def small(self, scope):
        """an index-like expression"""
        from metalift import ir
        r = self.rng
        k = r.random()
        v = self.var("i", scope)
        if k < .55 or v is None:
            return ir.IntLit(r.randint(0, 3))
        if k < .75:
            return v
        if k < .9:
            return ir.Sub(ir.IntLit(r.randint(1, 3)), ir.IntLit(1))
        return ir.Add(v, ir.IntLit(r.randint(0, 1)))

    def expr(self, c, d, scope=None):
        from metalift import ir
        if scope is None:
            scope = self.scope
        r, f = self.rng, self.f
        if d <= 0 or r.random() < .06:
            return self.leaf(c, scope)
        E = lambda k, dd=d - 1, s=scope: self.expr(k, dd, s)
        opts = [(2, "ite")]
        if f["let"]:
            opts.append((1, "let"))
        if self.fns and any(v[0] == c for v in self.fns.values()):
            opts.append((2, "call"))
        if f["callvalue"] and any(isinstance(k, tuple) and k[0] == "F" and k[1] == c for k in scope.values()):
            opts.append((2, "callvalue"))
        tup = [t for t in f.get("tuptypes", f["types"]) if isinstance(t, tuple) and t[0] == "T" and c in t[1:]]
        tupv = [t for t in tup if t in scope.values()]
        if f["tuples"] and tupv:
            opts.append((1.5, "tupget"))
        if f.get("tupexpr_get") and tup:
            opts.append((.7, "tupget_expr"))
        if f.get("tupexpr_ite") and tup:
            opts.append((.7, "tupget_ite"))
        if c == "i":
            opts += [(3, "add"), (3, "sub"), (3, "mul"), (1.5, "div"), (1.5, "mod"), (1.5, "len"), (2, "get")]
        elif c == "b":
            opts += [(2, "and"), (2, "or"), (2, "not"), (1.5, "eq"), (1, "lt"), (1, "le"), (1, "gt"), (1, "ge"), (.7, "eqb")]
            if f["implies"]:
                opts.append((1.5, "implies"))
            if f["sets"]:
                opts += [(1, "member"), (.7, "subset"), (.7, "seteq")]
            if f["eqlist"]:
                opts += [(1, "listeq"), (.5, "eqtup")]
        elif c in ("l", "m", "n", "t"):
            opts += [(2, "append"), (2, "prepend"), (1, "tail"), (1, "take"), (1, "slice"), (1, "slicelen")]
            if f["concat"] and c == "l":
                opts.append((1.5, "concat"))
            if c == "l":
                opts.append((1.5, "row"))
            if c in ("m", "n") and f["tensors"]:
                opts.append((1, "layer"))
            if f["transpose"] and c in ("m", "n"):
                opts += [(1, "transpose"), (1, "colslice"), (1, "colslicelen")]
        elif c == "s":
            opts += [(2, "insert"), (1, "single"), (2, "union"), (2, "minus")]
        elif isinstance(c, tuple) and c[0] == "T":
            opts += [(4, "mk")]
        k = self.pick(opts)
        self.used.add(k)
        C, T = ir.Call, ty
        pre = {"l": "list", "m": "matrix", "n": "matrix", "t": "tensor3d"}.get(c)
        el = {"l": "i", "m": "l", "n": "l", "t": "m"}.get(c)
        if k == "ite":
            return ir.Ite(E("b"), E(c), E(c))
        if k == "let":
            vc = r.choice(["i", "b", "l"] + (["s"] if f["sets"] else []))
            # sometimes shadow a variable in scope, also inside its own definition
            same = [n for n, kk in scope.items() if kk == vc]
            n = r.choice(same) if same and r.random() < .4 else self.fresh()
            if f.get("shadow_types") and r.random() < .3:  # ... or one of another type
                other = [n for n, kk in scope.items() if kk != vc and not isinstance(kk, tuple)]
                n = r.choice(other) if other else n
            return ir.Let(ir.Var(n, T(vc)), E(vc), self.expr(c, d - 1, {**scope, n: vc}))
        if k == "call":
            n = r.choice([n for n, v in self.fns.items() if v[0] == c])
            return C(n, T(c), *[E(a) for a in self.fns[n][1]])
        if k == "callvalue":
            n = r.choice([n for n, kk in scope.items() if isinstance(kk, tuple) and kk[0] == "F" and kk[1] == c])
            return ir.CallValue(ir.Var(n, T(scope[n])), *[E(a) for a in scope[n][2:]])
        if k == "tupget":
            t = r.choice(tupv)
            i = r.choice([j for j, x in enumerate(t[1:]) if x == c])
            return C("tupleGet", T(c), self.var(t, scope), ir.IntLit(i))
        if k == "tupget_expr":
            t = r.choice(tup)
            i = r.choice([j for j, x in enumerate(t[1:]) if x == c])
            return C("tupleGet", T(c), ir.TupleExpr(*[E(x) for x in t[1:]]), ir.IntLit(i))
        if k == "tupget_ite":
            t = r.choice(tup)
            i = r.choice([j for j, x in enumerate(t[1:]) if x == c])
            return C("tupleGet", T(c), E(t), ir.IntLit(i))
        if k == "add":
            return ir.Add(*[E("i") for _ in range(r.choice([1, 2, 2, 2, 3]))])
        if k == "sub":
            return ir.Sub(E("i"), E("i"))
        if k == "mul":
            return ir.Mul(*[E("i") for _ in range(r.choice([1, 2, 2, 2, 3]))])
        if k == "div":
            return ir.Div(E("i"), E("i") if r.random() < .3 else ir.IntLit(r.randint(1, 4)))
        if k == "mod":
            return ir.Mod(E("i"), E("i") if r.random() < .3 else ir.IntLit(r.randint(1, 4)))
        if k == "len":
            kinds = ["l", "m"] + (["t"] if f["tensors"] else [])
            kk = r.choice(kinds)
            return C({"l": "list", "m": "matrix", "t": "tensor3d"}[kk] + "_length", T("i"), E(kk))
        if k == "get":
            return C("list_get", T("i"), E("l"), self.small(scope))
        if k == "row":
            kk = r.choice(["m", "n"])
            return C("matrix_get", T("l"), E(kk), self.small(scope))
        if k == "layer":
            return C("tensor3d_get", T(c), E("t"), self.small(scope))
        if k in ("and", "or"):
            return (ir.And if k == "and" else ir.Or)(*[E("b") for _ in range(r.choice([1, 2, 2, 3]))])
        if k == "not":
            return ir.Not(E("b"))
        if k == "implies":
            return ir.Implies(E("b"), E("b"))
        if k == "eq":
            return ir.Eq(E("i"), E("i"))
        if k == "eqb":
            return ir.Eq(E("b"), E("b"))
        if k == "eqtup":
            tt = [t for t in f["types"] if isinstance(t, tuple) and t[0] == "T"]
            if not tt:
                return ir.Eq(E("l"), E("l"))
            t = r.choice(tt)
            return ir.Eq(E(t), E(t))
        if k in ("lt", "le", "gt", "ge"):
            return {"lt": ir.Lt, "le": ir.Le, "gt": ir.Gt, "ge": ir.Ge}[k](E("i"), E("i"))
        if k == "listeq":
            kk = r.choice(["l", "m", "n"])
            return C("list_eq", T("b"), E(kk), E(kk)) if r.random() < .6 else ir.Eq(E(kk), E(kk))
        if k == "member":
            return C("set-member", T("b"), E("i"), E("s"))
        if k == "subset":
            return C("set-subset", T("b"), E("s"), E("s"))
        if k == "seteq":
            return ir.Eq(E("s"), E("s"))
        if k == "append":
            return C(pre + "_append", T(c), E(c), E(el))
        if k == "prepend":
            return C(pre + "_prepend", T(c), E(el), E(c))
        if k == "tail":
            return C(pre + "_tail", T(c), E(c), self.small(scope))
        if k == "take":
            return C(pre + "_take", T(c), E(c), self.small(scope))
        sl = {"l": "vec", "m": "matrix_row", "n": "matrix_row", "t": "tensor3d"}.get(c)
        if k == "slice":
            return C(sl + "_slice", T(c), E(c), self.small(scope), self.small(scope))
        if k == "slicelen":
            return C(sl + "_slice_with_length", T(c), E(c), self.small(scope), self.small(scope))
        if k == "concat":
            return C("list_concat", T(c), E(c), E(c))
        if k == "transpose":
            return C("matrix_transpose", T(c), E(c))
        if k == "colslice":
            return C("matrix_col_slice", T(c), E(c), self.small(scope), self.small(scope))
        if k == "colslicelen":
            return C("matrix_col_slice_with_length", T(c), E(c), self.small(scope), self.small(scope))
        if k == "insert":
            return C("set-insert", T("s"), E("i"), E("s"))
        if k == "single":
            return C("set-singleton", T("s"), E("i"))
        if k == "union":
            return C("set-union", T("s"), E("s"), E("s"))
        if k == "minus":
            return C("set-minus", T("s"), E("s"), E("s"))
        if k == "mk":
            xs = [E(x) for x in c[1:]]
            if f.get("mk_call", True) and r.random() < .3:
                return C("make-tuple", T(c), *xs)
            return ir.TupleExpr(*xs)
        raise ValueError(k)


def scope_for(feat):
    s = {"i0": "i", "i1": "i", "b0": "b", "b1": "b", "l0": "l", "l1": "l", "m0": "m", "n0": "n"}
    if feat["tensors"]:
        s["t0"] = "t"
    if feat["sets"]:
        s["s0"] = "s"
        s["s1"] = "s"
    if feat["tuples"]:
        for i, t in enumerate(t for t in feat.get("tuptypes", feat["types"]) if isinstance(t, tuple)):
            s[f"p{i}"] = t
    return s


def forms(feat):
    """Every constructor once: (label, result code, operand codes, builder)."""
    from metalift import ir
    T, C = ty, ir.Call
    out = []

    def add(label, ret, args, f):
        out.append((label, ret, args, f))

    def call(name, ret, args, label=None):
        add(label or name, ret, args, lambda *a, n=name, r=ret: C(n, T(r), *a))
    for n in ("Add", "Mul"):
        for k in (2, 3):
            add(f"{n}{k}", "i", ["i"] * k, lambda *a, n=n: getattr(ir, n)(*a))
    for n in ("Sub", "Div", "Mod"):
        add(n, "i", ["i", "i"], lambda a, b, n=n: getattr(ir, n)(a, b))
    for n in ("Lt", "Le", "Gt", "Ge"):
        add(n, "b", ["i", "i"], lambda a, b, n=n: getattr(ir, n)(a, b))
    for n in ("And", "Or"):
        for k in (2, 3):
            add(f"{n}{k}", "b", ["b"] * k, lambda *a, n=n: getattr(ir, n)(*a))
    add("Not", "b", ["b"], lambda a: ir.Not(a))
    if feat["implies"]:
        add("Implies", "b", ["b", "b"], lambda a, b: ir.Implies(a, b))
    eqs = ["i", "b"] + (["s"] if feat["sets"] else []) + (["l", "m", "n"] if feat["eqlist"] else []) + (
        [t for t in feat["types"] if isinstance(t, tuple)] if feat["eqlist"] else [])
    for t in eqs:
        add(f"Eq-{t}", "b", [t, t], lambda a, b: ir.Eq(a, b))
        if t in ("l", "m", "n"):
            add(f"list_eq-{t}", "b", [t, t], lambda a, b: C("list_eq", T("b"), a, b))
    for t in feat["types"]:
        add(f"Ite-{t}", t, ["b", t, t], lambda c, a, b: ir.Ite(c, a, b))
    seqs = [("l", "list", "i", "vec"), ("m", "matrix", "l", "matrix_row"), ("n", "matrix", "l", "matrix_row")]
    if feat["tensors"]:
        seqs += [("t", "tensor3d", "m", "tensor3d")]
    for c, pre, el, sl in seqs:
        if c not in feat["types"]:
            continue
        if c != "n":
            call(pre + "_length", "i", [c], f"length-{c}")
        call(pre + "_get", el, [c, "i"], f"get-{c}")
        if c == "t":
            add("get-t-n", "n", [c, "i"], lambda a, i: C("tensor3d_get", T("n"), a, i))
        call(pre + "_append", c, [c, el], f"append-{c}")
        call(pre + "_prepend", c, [el, c], f"prepend-{c}")
        call(pre + "_tail", c, [c, "i"], f"tail-{c}")
        call(pre + "_take", c, [c, "i"], f"take-{c}")
        if feat["slices"]:
            call(sl + "_slice", c, [c, "i", "i"], f"slice-{c}")
            call(sl + "_slice_with_length", c, [c, "i", "i"], f"slicelen-{c}")
        if c in ("m", "n") and feat["transpose"]:
            call("matrix_transpose", c, [c], f"transpose-{c}")
            call("matrix_col_slice", c, [c, "i", "i"], f"colslice-{c}")
            call("matrix_col_slice_with_length", c, [c, "i", "i"], f"colslicelen-{c}")
    if feat["concat"]:
        call("list_concat", "l", ["l", "l"])
    if feat["sets"]:
        call("set-member", "b", ["i", "s"])
        call("set-subset", "b", ["s", "s"])
        call("set-insert", "s", ["i", "s"])
        call("set-singleton", "s", ["i"])
        call("set-union", "s", ["s", "s"])
        call("set-minus", "s", ["s", "s"])
    for t in feat.get("tuptypes", feat["types"]):
        if isinstance(t, tuple) and feat["tuples"]:
            add(f"tuple-{t}", t, list(t[1:]), lambda *a: ir.TupleExpr(*a))
            for i, x in enumerate(t[1:]):
                add(f"tupleGet-{t}-{i}", x, [t], lambda a, i=i, x=x: C("tupleGet", T(x), a, ir.IntLit(i)))
    return out


def form_val(rng, c, pos=1):
    """Values on which operands in the wrong place show: sizes well above the indices, all elements different."""
    if c == "i":
        return rng.randint(0, 4) if rng.random() < .8 else rng.randint(-3, 9)
    if c == "b":
        return rng.random() < .5
    pool = iter(rng.sample(range(-40, 60), 100))
    if c == "l":
        return tuple(next(pool) for _ in range(rng.randint(4, 6)))
    if c == "B":
        return tuple(rng.random() < .5 for _ in range(rng.randint(3, 5)))
    if c in ("m", "n"):
        k = rng.randint(3, 5)
        return tuple(tuple(next(pool) for _ in range(k)) for _ in range(rng.randint(3, 5)))
    if c == "t":
        r, k = rng.randint(2, 4), rng.randint(2, 4)
        return tuple(tuple(tuple(next(pool) for _ in range(k)) for _ in range(r)) for _ in range(rng.randint(3, 5)))
    if c == "s":
        return frozenset(rng.randint(0, 4) for _ in range(rng.randint(1, 4)))
    if c[0] == "T":
        return TupV(form_val(rng, x) for x in c[1:])
    raise ValueError(c)


def form_exprs(feat, depth2=True):
    """(label, result code, {parameter: code}, expression) for every constructor on variables, and for every
    constructor with another one as one of its operands."""
    from metalift import ir
    base = forms(feat)

    def params(pre, codes):
        return {f"{pre}{j}": c for j, c in enumerate(codes)}
    for label, ret, args, f in base:
        ps = params("q", args)
        yield label, ret, ps, f(*[ir.Var(n, ty(c)) for n, c in ps.items()])
    if not depth2:
        return
    for label, ret, args, f in base:
        for j, a in enumerate(args):
            for l2, r2, a2, g in base:
                if r2 != a:
                    continue
                ps = params("q", args)
                del ps[f"q{j}"]
                inner = params("r", a2)
                vs = [g(*[ir.Var(n, ty(c)) for n, c in inner.items()]) if i == j else ir.Var(f"q{i}", ty(c)) for i, c in enumerate(args)]
                yield f"{label}/{j}/{l2}", ret, {**ps, **inner}, f(*vs)


def sweep(c, feat, render, judge, tries=14, wanted=5):
    """Render every constructor and every pair of constructors; judge(expr, text, code, env) -> (status, message)."""
    n = 0
    for i, (label, code, scope, e) in enumerate(form_exprs(feat)):
        rng = c.rng("form", i)
        try:
            text = render(e)
        except Exception as x:
            c.fail("render-crash", f"{label}: rendering raised {type(x).__name__}: {x} on {e!r}")
            continue
        hits = 0
        for _ in range(tries):
            if hits >= wanted:
                break
            env = form_env(rng, scope)
            st, msg = judge(e, text, code, env)
            if st == "skip":
                continue
            hits += 1
            c.count("forms_compared")
            if st == "bad":
                c.fail("value", f"{label}: {msg}\n   expr {e!r}\n   text {text}\n   env {env}", expr=repr(e), text=text)
                break
        c.case(("form", text))
        if hits:
            n += 1
            c.nontrivial(("form", text))
    c.count("form_pairs", n)


def form_env(rng, scope):
    return {n: form_val(rng, c) for n, c in scope.items()}


def rand_env(rng, scope, **kw):
    return {n: rand_val(rng, c, **kw) for n, c in scope.items() if not (isinstance(c, tuple) and c[0] == "F")}


def size(e):
    from metalift.ir import Expr
    return 1 + sum(size(a) for a in e.args if isinstance(a, Expr))


def ragged(v):
    """True if the value contains a matrix with an empty row (libraries treat those specially)."""
    if isinstance(v, tuple) and not isinstance(v, TupV):
        if any(isinstance(x, tuple) and not isinstance(x, TupV) for x in v):
            if any(x == () for x in v):
                return True
            if len({len(x) for x in v}) > 1:
                return True
        return any(ragged(x) for x in v)
    return isinstance(v, TupV) and any(ragged(x) for x in v)


class RectEv(ireval.Ev):
    """Undefined as soon as an intermediate matrix/tensor has empty or uneven rows."""

    def ev(self, e, env):
        v = ireval.Ev.ev(self, e, env)
        if isinstance(v, tuple) and ragged(v):
            raise ireval.Undefined("ragged")
        return v


class StrictEv(RectEv):
    """Every operand of a connective must be defined (targets that evaluate calls strictly)."""

    def _kleene(self, args, env, unit):
        vs = [ireval._bool(self.ev(a, env)) for a in args]
        return (not unit) if (not unit) in vs else unit

    def e_Implies(self, e, env):
        a, b = [ireval._bool(self.ev(x, env)) for x in e.args]
        return (not a) or b


def shrink(e, bad, budget=150):
    """Greedy shrink of an expression while bad(e) holds: replace a node by one of its children of the same type."""
    from metalift.ir import Expr

    def kids(x):
        return [a for a in x.args if isinstance(a, Expr)]

    def subst(x, path, new):
        if not path:
            return new
        import copy
        y = copy.copy(x)
        y.args = list(x.args)
        y.args[path[0]] = subst(x.args[path[0]], path[1:], new)
        if isinstance(x.args, tuple):
            y.args = tuple(y.args)
        return y

    def nodes(x, p=()):
        yield p, x
        for i, a in enumerate(x.args):
            if isinstance(a, Expr):
                yield from nodes(a, p + (i,))

    def descend(x):
        for a in kids(x):
            yield a
            yield from descend(a)
    progress = True
    while progress and budget > 0:
        progress = False
        for p, x in list(nodes(e)):
            if not kids(x):
                continue
            for a in sorted(descend(x), key=size):
                if a.type == x.type and size(a) < size(x):
                    budget -= 1
                    if budget <= 0:
                        return e
                    try:
                        cand = subst(e, p, a)
                        if bad(cand):
                            e = cand
                            progress = True
                            break
                    except Exception:
                        continue
            if progress:
                break
    return e
