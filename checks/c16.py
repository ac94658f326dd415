import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, ireval
from mon.ireval import TupV, Undefined

PID, LEVEL = "C16", "exploration"
RULE = "an operator term with at least 2 operator applications whose value is defined on the valuation"


def key(e):
    from metalift.ir import Expr, Object
    if isinstance(e, Object):
        return key(e.src)
    if isinstance(e, Expr):
        return (type(e).__name__, str(e.type), tuple(key(a) for a in e.args))
    return (type(e).__name__, e)


# --- types: code -> (metalift type, class); values as in ireval
TUPS = [("i", "b"), ("L", "i", "s"), ("i",)]


def ty(c):
    from metalift import ir
    if isinstance(c, tuple):
        return ir.make_tuple_type(*[ty(x) for x in c])
    return {"i": ir.Int, "b": ir.Bool, "L": ir.List[ir.Int], "B": ir.List[ir.Bool], "N": ir.List[ir.List[ir.Int]],
            "M": ir.Matrix[ir.Int], "t": ir.Tensor3D[ir.Int], "s": ir.Set[ir.Int], "S": ir.Set[ir.List[ir.Int]],
            "P": ir.Set[ir.Bool]}[c]


def mk(c, name):
    """an object of type c over a variable, through the public constructors"""
    from metalift import ir
    if isinstance(c, tuple):
        return ir.Tuple(tuple(ty(x) for x in c), name)
    return {"i": lambda: ir.Int(name), "b": lambda: ir.Bool(name), "L": lambda: ir.List(ir.Int, name),
            "B": lambda: ir.List(ir.Bool, name), "N": lambda: ir.List(ir.List[ir.Int], name),
            "M": lambda: ir.Matrix(ir.Int, name), "t": lambda: ir.Tensor3D(ir.Int, name),
            "s": lambda: ir.Set(ir.Int, name), "S": lambda: ir.Set(ir.List[ir.Int], name),
            "P": lambda: ir.Set(ir.Bool, name)}[c]()


LISTS = ["L", "B", "N", "M", "t"]
ELEM = {"L": "i", "B": "b", "N": "L", "M": "L", "t": "M"}
SETS = ["s", "S", "P"]
SELEM = {"s": "i", "S": "L", "P": "b"}
ALL = ["i", "b"] + LISTS + SETS + TUPS


def value(r, c):
    if isinstance(c, tuple):
        return TupV(value(r, x) for x in c)
    if c == "i":
        return r.randint(-3, 6)
    if c == "b":
        return r.random() < .5
    if c in ("L", "B"):
        return tuple(value(r, ELEM[c]) for _ in range(r.randint(0, 4)))
    if c in ("N", "M"):
        k = r.randint(1, 3)
        return tuple(tuple(r.randint(-3, 6) for _ in range(k)) for _ in range(r.randint(0, 3)))
    if c == "t":
        a, b = r.randint(1, 2), r.randint(1, 2)
        return tuple(tuple(tuple(r.randint(-3, 6) for _ in range(b)) for _ in range(a)) for _ in range(r.randint(0, 3)))
    return frozenset(value(r, SELEM[c]) for _ in range(r.randint(0, 3)))


def idx(i, upto):
    if not 0 <= i <= upto:
        raise Undefined()
    return i


def pdiv(a, b):
    if a < 0 or b <= 0:
        raise Undefined()
    return a // b


def pmod(a, b):
    if a < 0 or b <= 0:
        raise Undefined()
    return a % b


def py_slice(l, a, b):
    idx(b, len(l)), idx(a, b)
    return l[a:b]


def rect(m):
    if not m or not m[0] or len({len(r) for r in m}) != 1:
        raise Undefined()
    return m


def ew(f, a, b):
    """element-wise over two equally shaped tensors"""
    if isinstance(a, tuple):
        if len(a) != len(b):
            raise Undefined()
        return tuple(ew(f, x, y) for x, y in zip(a, b))
    return f(a, b)


def sc(f, a):
    return tuple(sc(f, x) for x in a) if isinstance(a, tuple) else f(a)


class Op:
    def __init__(self, name, args, ret, build, sem, lit=()):
        """lit: argument positions that may also be given as a plain Python int/bool"""
        self.name, self.args, self.ret, self.build, self.sem, self.lit = name, args, ret, build, sem, set(lit)


def ops():
    from metalift import ir
    import operator as o
    out = []

    def A(name, args, ret, build, sem, lit=()):
        out.append(Op(name, args, ret, build, sem, lit))
    for n, f, g in [("+", o.add, o.add), ("-", o.sub, o.sub), ("*", o.mul, o.mul), ("//", o.floordiv, pdiv), ("%", o.mod, pmod)]:
        A(n, "ii", "i", f, g, (0, 1))
    for n, f in [("<", o.lt), ("<=", o.le), (">", o.gt), (">=", o.ge)]:
        A(n, "ii", "b", f, f, (0, 1))
    for c in ALL:
        l = (0, 1) if c in ("i", "b") else ()
        A("==", (c, c), "b", o.eq, lambda a, b: ireval.same(a, b), l)
        A("!=", (c, c), "b", o.ne, lambda a, b: not ireval.same(a, b), l)
        A("ite", ("b", c, c), c, ir.ite, lambda p, a, b: a if p else b)
    A("And", "bb", "b", lambda a, b: a.And(b), lambda a, b: a and b, (1,))
    A("And3", "bbb", "b", lambda a, b, c: a.And(b, c), lambda a, b, c: a and b and c, (1, 2))
    A("Or", "bb", "b", lambda a, b: a.Or(b), lambda a, b: a or b, (1,))
    A("Or3", "bbb", "b", lambda a, b, c: a.Or(b, c), lambda a, b, c: a or b or c, (1, 2))
    A("Not", "b", "b", lambda a: a.Not(), lambda a: not a)
    A("implies", "bb", "b", lambda a, b: ir.implies(a, b), lambda a, b: (not a) or b)
    A("maybe_relaxed", "i", "i", lambda a: a.maybe_relaxed(), lambda a: a)
    for c in LISTS:
        e = ELEM[c]
        el = (1,) if e in () else ()
        A("len", (c,), "i", lambda a: a.len(), len)
        A("[i]", (c, "i"), e, lambda a, i: a[i], lambda a, i: a[idx(i, len(a) - 1)], (1,))
        A("[i:]", (c, "i"), c, lambda a, i: a[i:], lambda a, i: a[idx(i, len(a)):], (1,))
        A("[:i]", (c, "i"), c, lambda a, i: a[:i], lambda a, i: a[:idx(i, len(a))], (1,))
        A("[i:j]", (c, "i", "i"), c, lambda a, i, j: a[i:j], py_slice, (1, 2))
        A("slice_with_length", (c, "i", "i"), c, lambda a, i, n: a.slice_with_length(i, n),
          lambda a, i, n: py_slice(a, i, i + n), (1, 2))
        A("concat", (c, c), c, o.add, lambda a, b: a + b)
    for c, cls, in [("L", ir.List), ("M", ir.Matrix)]:
        for n, f in [("add", o.add), ("sub", o.sub), ("mul", o.mul), ("div", pdiv)]:
            m = getattr(cls, n)
            A(f"{cls.__name__}.{n}", (c, c), c, m, lambda a, b, f=f: ew(f, a, b))
            A(f"{cls.__name__}.{n} scalar left", ("i", c), c, m, lambda a, b, f=f: sc(lambda x: f(a, x), b), (0,))
            A(f"{cls.__name__}.{n} scalar right", (c, "i"), c, m, lambda a, b, f=f: sc(lambda x: f(x, b), a), (1,))
    A("transpose", "M", "M", lambda a: a.transpose(), lambda a: tuple(zip(*rect(a))))
    A("col_slice", "Mii", "M", lambda a, i, j: a.col_slice(i, j), lambda a, i, j: tuple(py_slice(r, i, j) for r in rect(a)), (1, 2))
    A("col_slice_with_length", "Mii", "M", lambda a, i, n: a.col_slice_with_length(i, n),
      lambda a, i, n: tuple(py_slice(r, i, i + n) for r in rect(a)), (1, 2))
    A("col_vec", "Mi", "L", lambda a, i: a.col_vec(i), lambda a, i: tuple(r[idx(i, len(r) - 1)] for r in rect(a)), (1,))
    for c in SETS:
        e = SELEM[c]
        A("set.add", (c, e), c, lambda a, x: a.add(x), lambda a, x: a | {x})
        A("set.remove", (c, e), c, lambda a, x: a.remove(x), lambda a, x: a - {x})
        A("set.union", (c, c), c, lambda a, b: a.union(b), lambda a, b: a | b)
        A("set.difference", (c, c), c, lambda a, b: a.difference(b), lambda a, b: a - b)
        A("set.contains", (e, c), "b", lambda x, a: a.__contains__(x), lambda x, a: x in a)
        A("set.singleton", (e,), c, lambda x: ir.Set.singleton(x), lambda x: frozenset([x]))
    for t in TUPS:
        A("make_tuple", t, t, lambda *a: ir.make_tuple(*a), lambda *a: TupV(a))
        for k, c in enumerate(t):
            A("tuple[k]", (t,), c, lambda a, k=k: a[k], lambda a, k=k: a[k])
            A("tuple[Int(k)]", (t,), c, lambda a, k=k: a[ir.Int(k)], lambda a, k=k: a[k])
    # constants
    A("Int.default", (), "i", lambda: ir.Int.default_value(), lambda: 0)
    A("Bool.default", (), "b", lambda: ir.Bool.default_value(), lambda: False)
    A("List.default", (), "L", lambda: ir.List.default_value(), lambda: ())
    A("Matrix.default", (), "M", lambda: ir.Matrix.default_value(), lambda: ())
    A("Tensor3D.default", (), "t", lambda: ir.Tensor3D.default_value(), lambda: ())
    for c, f in [("L", lambda: ir.List.empty(ir.Int)), ("B", lambda: ir.List.empty(ir.Bool)), ("N", lambda: ir.List.empty(ir.List[ir.Int])),
                 ("M", lambda: ir.Matrix.empty(ir.Int)), ("t", lambda: ir.Tensor3D.empty(ir.Int))]:
        A("empty", (), c, f, lambda: ())
    for c in SETS:
        A("Set.empty", (), c, lambda c=c: ir.Set.empty(ty(SELEM[c])), lambda: frozenset())
    return out


class Unsat(Exception):
    pass


def chk_obj(x, c):
    """x is an object of type c, consistently"""
    from metalift import ir
    import typing
    T = ty(c)
    if not isinstance(x, ir.Object):
        return f"is {x!r}, not a value object"
    cls = typing.get_origin(T) or T
    if type(x) is not cls:
        return f"is a {type(x).__name__}, expected {cls.__name__}"
    if x.type != T:
        return f"has type {x.type}, expected {T}"
    if x.src.type != T:
        return f"wraps an expression of type {x.src.type}, expected {T}"
    return ""


def run(c):
    from metalift import ir
    with harness.quiet():
        from metalift.utils.tenspiler.constants import TENSPILER_FNS
    fns = {f.name(): f for f in TENSPILER_FNS if f.body() is not None and f.name() not in ireval.BUILTINS}
    table = ops()
    c.require("applications", 3000)
    c.require("in_place", 300)
    c.require("rejected", 1500)
    seen = {}

    # ---- every operation directly, and random terms
    def check(o, built, c_ret, env, expected, text):
        why = chk_obj(built, c_ret)
        if why:
            c.fail("type", f"{text} {why}", text=text)
            return
        try:
            got = ireval.evaluate(built.src, env, fns)
        except Undefined:
            if o is not None:
                c.fail("value", f"{text} denotes no value on {env!r}, expected {expected!r}", text=text)
            return
        except ireval.EvalError as x:
            c.fail("value", f"{text} builds {built.src!r}, which has no value: {x}", text=text)
            return
        if not ireval.same(got, expected):
            c.fail("value", f"{text} builds {built.src!r} = {got!r} on {env!r}, expected {expected!r}", text=text)

    r = c.rng("terms")
    by_ret = {}
    for o in table:
        by_ret.setdefault(o.ret, []).append(o)

    def term(rr, code, depth, env, vals, n):
        """-> (object or plain python value, value, text); raises Undefined when the value is not defined"""
        if depth == 0 or code not in by_ret or rr.random() < .15:
            name = f"v{len(env)}"
            v = value(rr, code)
            env[name] = v
            ob = mk(code, name)
            return ob, v, name
        o = rr.choice(by_ret[code])
        return apply(rr, o, depth, env, vals, n)

    def apply(rr, o, depth, env, vals, n):
        args, vs, txt = [], [], []
        for k, ac in enumerate(o.args):
            if k in o.lit and rr.random() < .3 and not (len(o.lit) == len(o.args) == sum(not isinstance(a, ir.Object) for a in args) + 1):
                v = rr.randint(0, 3) if ac == "i" else rr.random() < .5
                args.append(v), vs.append(v), txt.append(repr(v))
            elif rr.random() < .12 and vals.get(ac):
                a, v, t = rr.choice(vals[ac])
                args.append(a), vs.append(v), txt.append(t)
            else:
                a, v, t = term(rr, ac, depth - 1, env, vals, n)
                args.append(a), vs.append(v), txt.append(t)
        if not any(isinstance(a, ir.Object) for a in args) and args:
            raise Unsat()
        before = [key(a) if isinstance(a, ir.Object) else a for a in args]
        text = f"{o.name}({', '.join(txt)})"
        v = o.sem(*vs)
        try:
            b = o.build(*args)
        except Exception as x:
            c.fail("build", f"{text} on types {o.args}: {type(x).__name__}: {x}", text=text)
            raise Unsat()
        if [key(a) if isinstance(a, ir.Object) else a for a in args] != before:
            c.fail("mutated", f"{text} changed one of its operands", text=text)
        n[0] += 1
        seen[o.name] = seen.get(o.name, 0) + 1
        c.count("applications")
        check(o, b, o.ret, env, v, text)
        vals.setdefault(o.ret, []).append((b, v, text))
        return b, v, text

    for rep in range(c.n(150, 3000)):
        if c.out_of_time():
            break
        for o in table:
            env, n = {}, [0]
            try:
                _, _, t = apply(r, o, r.choice([1, 1, 2, 3]), env, {}, n)
            except (Undefined, Unsat):
                c.count("undefined_value")
                continue
            c.case(t)
            if n[0] >= 2:
                c.nontrivial((t, tuple(sorted((k, repr(v)) for k, v in env.items()))))
    for o in table:
        if seen.get(o.name, 0) < 5:
            c.fail("unreached", f"{o.name} was never applied successfully")

    # ---- in-place operations: the receiver changes, nothing else does
    r = c.rng("inplace")
    for rep in range(c.n(150, 3000)):
        for code in LISTS:
            e = ELEM[code]
            env, n = {}, [0]
            try:
                a, av, at = term(r, code, 2, env, {}, n)
            except (Undefined, Unsat):
                continue
            alias = ir.create_object(ty(code), a.src)
            ak = key(alias)
            trail, ok = at, True
            for step in range(r.randint(1, 3)):
                try:
                    x, xv, xt = term(r, e, 1, env, {}, n)
                except (Undefined, Unsat):
                    continue
                xk = key(x)
                op = r.choice(["append", "prepend", "set"])
                try:
                    if op == "append":
                        ret = a.append(x)
                        av = av + (xv,)
                    elif op == "prepend":
                        ret = a.prepend(x)
                        av = (xv,) + av
                    else:
                        if not av:
                            continue
                        k = r.randrange(len(av))
                        a[k if r.random() < .5 else ir.Int(k)] = x
                        ret = a
                        av = av[:k] + (xv,) + av[k + 1:]
                except Exception as ex:
                    c.fail("build", f"{op} of {xt} on {trail}: {type(ex).__name__}: {ex}")
                    ok = False
                    break
                trail += f".{op}({xt})"
                if ret is not a:
                    c.fail("inplace", f"{trail} does not return its receiver")
                if key(x) != xk:
                    c.fail("mutated", f"{trail} changed the inserted element")
                c.count("in_place")
            if not ok:
                continue
            check(None, a, code, env, av, trail)
            if key(alias) != ak:
                c.fail("mutated", f"{trail} changed another object built from the same expression")
            c.case(trail)
            if len(env) > 1:
                c.nontrivial(trail)

    # ---- choose and relaxed integers: exactly the alternatives
    r = c.rng("choose")
    for rep in range(c.n(60, 600)):
        code = r.choice(ALL)
        xs = [mk(code, f"a{k}") for k in range(r.randint(1, 4))]
        ch = ir.choose(*xs)
        why = chk_obj(ch, code)
        if why:
            c.fail("type", f"choose over {code} {why}")
        elif not isinstance(ch.src, ir.Choose) or [key(a) for a in ch.src.arguments()] != [key(x) for x in xs]:
            c.fail("value", f"choose({xs}) builds {ch.src!r}")
        c.case(("choose", code, len(xs)))
        c.count("choose")
    rel = ir.Int("q").maybe_relaxed(True)
    got = sorted(ireval.evaluate(a, {"q": 10}) for a in rel.src.arguments())
    if got != [9, 10, 11]:
        c.fail("value", f"maybe_relaxed(True) of q offers {rel.src!r}")

    # ---- calls through function values
    inc = ir.fn_decl("incr", ir.Int, ir.Int("x") + ir.Int("y") * 2, ir.Int("x"), ir.Int("y"))
    fo = ir.Fn((ir.Int, ir.Int, ir.Int), inc)
    fv = ir.Fn((ir.Int, ir.Int, ir.Int), "g")
    for x, y in itertools.product(range(-2, 3), repeat=2):
        env = {"p": x, "q": y, "g": lambda a, b: a + 2 * b}
        for f in (fo, fv):
            b = ir.call_value(f, ir.Int("p"), ir.Int("q"))
            check(None, b, "i", env, x + 2 * y, "call_value")
            c.count("calls")
        b = ir.call("incr", ir.Int, ir.Int("p"), ir.Int("q"))
        if chk_obj(b, "i") or ireval.evaluate(b.src, env, {"incr": inc}) != x + 2 * y:
            c.fail("value", f"call builds {b.src!r}")
    for T in [ty(k) for k in ALL]:
        b = ir.call("f", T, ir.Int("p"))
        if b.type != T or b.src.type != T or b.src.name() != "f" or [key(a) for a in b.src.arguments()] != [key(ir.Int("p"))]:
            c.fail("type", f"call returning {T} builds {b.src!r} of type {b.type}")

    # `x in s`: Python turns the answer of __contains__ into a Python truth value
    res = ir.Int("x") in ir.Set(ir.Int, "s")
    if isinstance(res, bool):
        c.fail("in-operator", f"Int('x') in Set('s') is the constant {res!r}")

    rejections(c, table)
    c.counters["forms"] = seen
    c.sample(seen)


def rejections(c, table):
    """every operator on every combination of operand kinds that has no meaning"""
    from metalift import ir
    import operator as o
    kinds = {str(k): (k, lambda k=k: mk(k, "v")) for k in ALL}
    kinds.update({"int": ("i", lambda: 1), "bool": ("b", lambda: True), "None": (None, lambda: None), "str": (None, lambda: "z"),
                  "float": (None, lambda: 1.5), "[]": (None, lambda: [])})
    plain = {"int", "bool", "None", "str", "float", "[]"}
    binary = {"+": o.add, "-": o.sub, "*": o.mul, "//": o.floordiv, "%": o.mod, "/": o.truediv, "**": o.pow, "<": o.lt, "<=": o.le, ">": o.gt,
              ">=": o.ge, "==": o.eq, "!=": o.ne, "[i]": lambda a, i: a[i], "[i:]": lambda a, i: a[i:], "[:i]": lambda a, i: a[:i],
              "And": lambda a, b: a.And(b), "Or": lambda a, b: a.Or(b), "implies": ir.implies,
              "append": lambda a, b: a.append(b), "prepend": lambda a, b: a.prepend(b),
              "set.add": lambda a, b: a.add(b), "set.remove": lambda a, b: a.remove(b), "set.union": lambda a, b: a.union(b),
              "set.difference": lambda a, b: a.difference(b), "set.contains": lambda b, a: a.__contains__(b),
              "ite branches": lambda a, b: ir.ite(ir.Bool("p"), a, b), "choose": ir.choose}
    for cls in (ir.List, ir.Matrix):
        for n in ("add", "sub", "mul", "div"):
            binary[f"{cls.__name__}.{n}"] = getattr(cls, n)
    good = set()
    for op in table:
        if len(op.args) == 2:
            good.add((op.name.split(" scalar")[0], op.args[0], op.args[1]))
        if op.name == "concat":
            good.add(("+", op.args[0], op.args[1]))
    for k in LISTS:
        good.add(("append", k, ELEM[k])), good.add(("prepend", k, ELEM[k]))
    for k in ALL:
        good.add(("ite branches", k, k)), good.add(("choose", k, k))
    # a list may be compared with anything: the answer is the constant "different"
    for (n1, (k1, m1)), (n2, (k2, m2)) in itertools.product(kinds.items(), repeat=2):
        if n1 in plain and n2 in plain:
            continue
        for opn, f in binary.items():
            if k1 is not None and k2 is not None and (opn, k1, k2) in good:
                continue
            if isinstance(k1, tuple) and opn == "[i]" and n2 == "int":
                continue
            if n1 == "[]" and opn in ("append", "prepend"):
                continue  # Python's own list method
            if n1 == "str" and opn == "%":
                continue  # Python's own string formatting
            a, b = m1(), m2()
            ka = key(a) if n1 not in plain else None
            try:
                res = f(a, b)
            except Exception:
                c.count("rejected")
                c.case((opn, n1, n2))
                if ka is not None and key(a) != ka:
                    c.fail("mutated", f"{n1} {opn} {n2} was rejected but changed its operand")
                continue
            c.case((opn, n1, n2))
            if opn in ("==", "!=", "set.contains"):
                const = res if isinstance(res, bool) else ireval.try_eval(res.src, {})[1] if isinstance(res, ir.Bool) and not _vars(res.src) else None
                if const is (opn == "!="):
                    c.count("constant_answer")
                    continue
            c.fail("accepted", f"{opn} on operands of kind {n1} and {n2} is accepted and builds {res!r}", op=opn, left=n1, right=n2)
    three = {"[i:j]": lambda a, i, j: a[i:j], "slice_with_length": lambda a, i, j: a.slice_with_length(i, j),
             "col_slice": lambda a, i, j: a.col_slice(i, j), "col_slice_with_length": lambda a, i, j: a.col_slice_with_length(i, j),
             "[i]=": lambda a, i, j: a.__setitem__(i, j), "ite cond": ir.ite}
    bad_index = ["b", "L", "M", "s", TUPS[0], "bool", "str", "float", "[]"]
    for k in LISTS:
        for opn in ("[i:j]", "[i]="):
            for bad in bad_index:
                m = kinds[str(bad)][1]
                for pos in (0, 1):
                    if opn == "[i]=" and pos == 1:
                        continue
                    args = [ir.Int("i"), ir.Int("j") if opn != "[i]=" else mk(ELEM[k], "e")]
                    args[pos] = m()
                    a = mk(k, "v")
                    try:
                        three[opn](a, *args)
                    except Exception:
                        c.count("rejected")
                        continue
                    c.fail("accepted", f"{opn} on {k} with an index of kind {bad} is accepted", op=opn)
        for bad in ALL:
            if bad == ELEM[k]:
                continue
            a = mk(k, "v")
            try:
                a[0] = mk(bad, "e")
            except Exception:
                c.count("rejected")
                continue
            c.fail("accepted", f"storing a {bad} into a {k} is accepted")
        a = mk(k, "v")
        for sl in (slice(None, None, 2), slice(ir.Int("i"), None, 2), slice(None, None, None), slice(None, ir.Int("i"), 2),
                   slice(ir.Int("i"), ir.Int("j"), 2), slice(0, 2, 3), slice(0, ir.Int("j"), ir.Int("i")), slice(None, 2, ir.Int("i"))):
            try:
                res = a[sl]
            except Exception:
                c.count("rejected")
                continue
            if sl == slice(None, None, None) and ireval.same(ireval.try_eval(res.src, {"v": (1,)})[1], (1,)):
                continue
            c.fail("accepted", f"slice {sl} of {k} is accepted and builds {res!r}")
    for cond in ALL:
        if cond == "b":
            continue
        try:
            ir.ite(mk(cond, "v"), ir.Int(1), ir.Int(2))
        except Exception:
            c.count("rejected")
            continue
        c.fail("accepted", f"a condition of type {cond} is accepted by ite")
    for t in TUPS:
        for bad in [len(t), len(t) + 1, ir.Int(len(t)), ir.Int("i"), slice(0, 1), ir.Bool("p"), None, "x"]:
            try:
                res = mk(t, "v")[bad]
            except Exception:
                c.count("rejected")
                continue
            c.fail("accepted", f"item {bad!r} of a tuple of {len(t)} is accepted and builds {res!r}")
    # negative tuple positions mean the position from the end, or are rejected
    for t in TUPS:
        for k in range(1, len(t) + 1):
            try:
                res = mk(t, "v")[-k]
            except Exception:
                c.count("rejected")
                continue
            val = TupV(range(len(t)))
            try:
                same = ireval.evaluate(res.src, {"v": val}) == len(t) - k
            except ireval.EvalError:
                same = False
            if not same:
                c.fail("accepted", f"item {-k} of a tuple of {len(t)} builds {res!r}")
    # types that differ are told apart, wherever expressions are type-checked by name
    base = [ir.Int, ir.Bool]
    one = base + [ir.List[ir.Int], ir.List[ir.Bool], ir.Matrix[ir.Int], ir.Matrix[ir.Bool], ir.Tensor3D[ir.Int], ir.Set[ir.Int], ir.Set[ir.Bool]]
    two = one + [ir.List[t] for t in one[2:]] + [ir.Set[t] for t in one[2:]] + [
        ir.make_tuple_type(*ts) for n in (1, 2, 3) for ts in itertools.product(one[:3] + [ir.Matrix[ir.Int], ir.List[ir.List[ir.Int]]], repeat=n)] + [
        ir.make_fn_type(*ts) for n in (1, 2, 3) for ts in itertools.product(one[:3] + [ir.Matrix[ir.Int]], repeat=n)]
    names = {}
    for t in two:
        names.setdefault(ir.get_type_str(t), []).append(t)
        c.count("types")
    for n, ts in names.items():
        for u in ts[1:]:
            if u != ts[0]:
                c.fail("type-names", f"{ts[0]} and {u} are both named {n!r}, so a conditional mixing them is accepted")


def _vars(e):
    from metalift.ir import Expr, Var
    return isinstance(e, Var) or any(_vars(a) for a in e.args if isinstance(a, Expr))


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
