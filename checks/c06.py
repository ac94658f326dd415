import os, sys, typing
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, fnlib, ireval
from mon.ireval import TupV

PID, LEVEL = "C06", "exploration"
RULE = "a rendered expression evaluated by Python on a valuation where the reference semantics is defined, with at least 3 nodes"
FEAT = {**irgen.PY, "types": irgen.PY["types"] + ["B"] + irgen.PY["tuptypes"]}
FNT = ["i", "b", "l", "m", "n"]


def enc(v):
    if isinstance(v, TupV):
        return tuple(enc(x) for x in v)
    if isinstance(v, tuple):
        return [enc(x) for x in v]
    return v


def eqv(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    return a == b


def helpers():
    """operations that stay ordinary function calls in the rendered text"""
    return {"list_concat": lambda a, b: a + b, "list_eq": lambda a, b: a == b,
            "matrix_transpose": lambda m: [list(r) for r in zip(*m)],
            "matrix_col_slice": lambda m, a, b: [r[a:b] for r in m],
            "matrix_col_slice_with_length": lambda m, a, n: [r[a:a + n] for r in m],
            "List": typing.List, "Callable": typing.Callable}


def judge(e, text, env, fns, ns):
    try:
        ref = irgen.StrictEv(fns).ev(e, env)
    except (ireval.Undefined, RecursionError):
        return "skip", ""
    try:
        got = eval(compile("(\n" + text + "\n)", "<text>", "eval"), {**ns, **{k: (v if callable(v) else enc(v)) for k, v in env.items()}})
    except Exception as x:
        return "bad", f"text does not evaluate: {type(x).__name__}: {x}; expression denotes {ref!r}"
    if not eqv(enc(ref), got):
        return "bad", f"text evaluates to {got!r}, expression denotes {ref!r}"
    return "ok", ""


HINT = {"i": int, "b": bool, "l": typing.List[int], "m": typing.List[typing.List[int]], "n": typing.List[typing.List[int]]}


def run(c):
    from metalift import ir
    c.require("compared", 3000)
    c.require("fn_compared", 300)
    c.require("hof_compared", 50)
    forms = {}
    nlib, nexpr, nenv = c.n(40, 600), c.n(130, 160), 4
    for L in range(nlib):
        rng = c.rng("lib", L)
        decls, sigs = fnlib.library(rng, {**FEAT, "types": FNT})
        fns = {d.name(): d for d in decls}
        ns = helpers()
        for d in decls:
            before = repr(d)
            t = d.to_python()
            if repr(d) != before or d.to_python() != t:
                c.fail("render-mutates", f"rendering changed {before}")
            try:
                exec(compile(t, "<fn>", "exec"), ns)
                f = ns[d.name()]
            except Exception as x:
                c.fail("fn-ill-formed", f"{type(x).__name__} {x}\n{t}")
                continue
            ret, args = sigs[d.name()]
            names = list(f.__code__.co_varnames[:f.__code__.co_argcount])
            hints = [f.__annotations__.get(n) for n in names] + [f.__annotations__.get("return")]
            if names != [a.args[0] for a in d.arguments()] or hints != [HINT[a] for a in args] + [HINT[ret]]:
                c.fail("fn-signature", f"{d.name()} with {args}->{ret} rendered as {t.splitlines()[0]}")
            c.count("signatures")
        for d in decls:
            if d.name() not in ns:
                continue
            ret, args = sigs[d.name()]
            for _ in range(c.n(8, 12)):
                vals = [irgen.rand_val(rng, k) for k in args]
                try:
                    ref = irgen.StrictEv(fns).call(d, vals)
                except (ireval.Undefined, RecursionError):
                    continue
                c.case(("fn", L, d.name(), tuple(vals)))
                c.count("fn_compared")
                try:
                    got = ns[d.name()](*[enc(v) for v in vals])
                except Exception as x:
                    got = x
                if not eqv(enc(ref), got):
                    c.fail("fn-value", f"{d.name()}{tuple(vals)!r}: text computes {got!r}, declaration computes {ref!r}\n{d.to_python()}")
        scope = irgen.scope_for(FEAT)
        scope["f1"] = ("F", "i", "i")
        scope["f2"] = ("F", "b", "i", "i")
        fvals = {"f1": lambda x: x * 3 - 1, "f2": lambda x, y: x < y}
        for k in range(nexpr):
            g = irgen.Gen(rng, FEAT, scope, sigs)
            e = g.expr(rng.choice(FEAT["types"] + ["i", "b", "b"]), rng.randint(1, 4))
            try:
                before = repr(e)
                text = e.to_python()
                if repr(e) != before or e.to_python() != text:
                    c.fail("render-mutates", f"rendering changed {before} (or is not repeatable)")
            except Exception as x:
                def bad(y):
                    try:
                        y.to_python()
                        return False
                    except Exception:
                        return True
                s = irgen.shrink(e, bad)
                c.fail("render-crash", f"to_python raised {type(x).__name__}: {x} on {s!r}")
                continue
            for u in g.used:
                forms[u] = forms.get(u, 0) + 1
            n = irgen.size(e)
            for _ in range(nenv):
                env = {**irgen.rand_env(rng, scope), **fvals}
                st, msg = judge(e, text, env, fns, ns)
                key = (text, tuple(sorted(((k, v) for k, v in env.items() if not callable(v)), key=str)))
                c.case(key)
                if st == "skip":
                    c.count("undefined_valuation")
                    continue
                c.count("compared")
                if n >= 3:
                    c.nontrivial(key)
                if st == "bad":
                    def bad(y):
                        return judge(y, y.to_python(), env, fns, ns)[0] == "bad"
                    s = irgen.shrink(e, bad)
                    c.fail("value", f"{judge(s, s.to_python(), env, fns, ns)[1]}\n   expr {s!r}\n   text {s.to_python()}\n   env "
                           f"{ {k: v for k, v in env.items() if not callable(v)} }", expr=repr(s), text=s.to_python())
                    break
            if len(c.samples) < 4 and n > 8:
                c.sample(text[:400])
        # function-valued parameters, assertions, tuple projection nodes, the object layer
        fx = ir.Var("fx", ir.make_fn_type(ir.Int, ir.Int))
        xs = ir.Var("xs", ir.List[ir.Int])
        body = irgen.Gen(rng, FEAT, {"fx": ("F", "i", "i"), "xs": "l", "k": "i"}, {}).expr("i", 3)
        d = (ir.FnDecl if rng.random() < .5 else ir.FnDeclRecursive)("hof", ir.Int, body, fx, xs, ir.Var("k", ir.Int))
        try:
            exec(d.to_python(), ns)
            for _ in range(4):
                vals = (lambda x: 2 * x - 3, irgen.rand_val(rng, "l"), irgen.rand_val(rng, "i"))
                try:
                    ref = irgen.StrictEv({}).call(d, vals)
                except ireval.Undefined:
                    continue
                c.count("hof_compared")
                got = ns["hof"](vals[0], enc(vals[1]), vals[2])
                if not eqv(enc(ref), got):
                    c.fail("hof", f"{d.to_python()} on {vals[1:]}: {got!r} instead of {ref!r}")
        except Exception as x:
            c.fail("hof", f"{type(x).__name__} {x}\n{d.to_python()}")
        t = ir.TupleExpr(*[irgen.Gen(rng, FEAT, scope, {}).expr("i", 2) for _ in range(rng.randint(1, 3))])
        i = rng.randrange(len(t.args))
        e = ir.TupleGet(t, ir.IntLit(i))
        env = irgen.rand_env(rng, scope)
        st, msg = judge(e, e.to_python(), {**env, **fvals}, {}, ns)
        c.count("tupleget_nodes")
        if st == "bad":
            c.fail("tupleget", f"{msg}\n{e.to_python()}")
        a = ir.Assert(irgen.Gen(rng, FEAT, scope, {}).expr("b", 2))
        try:
            ref = irgen.StrictEv({}).ev(a.e(), {**env, **fvals})
            try:
                exec(a.to_python(), {**ns, **{k: enc(v) for k, v in env.items()}, **fvals})
                got = True
            except AssertionError:
                got = False
            c.count("asserts")
            if got != ref:
                c.fail("assert", f"{a.to_python()} passes={got}, condition is {ref}")
        except ireval.Undefined:
            pass
    for u in ("add", "sub", "mul", "div", "mod", "ite", "and", "or", "not", "eq", "eqb", "lt", "le", "gt", "ge", "append", "prepend",
              "tail", "take", "slice", "slicelen", "callvalue", "call", "len", "get", "row", "mk", "tupget", "tupget_expr", "listeq"):
        if not forms.get(u):
            c.require("form_" + u, 1)
    c.counters["forms"] = forms
    ns = helpers()
    irgen.sweep(c, FEAT, lambda e: e.to_python(), lambda e, t, code, env: judge(e, t, env, {}, ns))
    c.require("form_pairs", 1600)


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
