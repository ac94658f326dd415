import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, fnlib, ireval, rkteval, sexp
from mon.harness import quiet

PID, LEVEL = "C05", "exploration"
RULE = "a rendered expression evaluated on a valuation where the reference semantics is defined, with at least 3 nodes"
FEAT = {**irgen.ROS, "tupexpr_ite": True, "shadow_types": True, "types": irgen.ROS["types"] + ["B"]}


def judge(e, text, env, fns, rk):
    try:
        ref = irgen.StrictEv(fns).ev(e, env)
    except (ireval.Undefined, RecursionError):
        return "skip", ""
    try:
        renv = {k: (v if callable(v) else rkteval.enc(v)) for k, v in env.items()}
        got = rk.value(sexp.read_one(text, racket=True), renv)
    except ireval.Undefined as x:
        return "bad", f"evaluation of the text does not end ({x}); reference value {ref!r}"
    except (rkteval.RktError, sexp.ReadError) as x:
        return "bad", f"text does not evaluate: {x}"
    if not rkteval.equal(rkteval.enc(ref), got):
        return "bad", f"text evaluates to {got!r}, expression denotes {ref!r}"
    return "ok", ""


def run(c):
    from metalift import ir
    from metalift.ir import Object
    c.require("compared", 3000)
    c.require("fn_compared", 300)
    forms = {}
    nlib, nexpr, nenv = c.n(24, 200), c.n(130, 160), 4
    for L in range(nlib):
        rng = c.rng("lib", L)
        decls, sigs = fnlib.library(rng, {**FEAT, "types": irgen.ROS["types"]})
        fns = {d.name(): d for d in decls}
        rk = rkteval.library()
        for d in decls:
            before = repr(d)
            t = d.to_rosette()
            if repr(d) != before or d.to_rosette() != t:
                c.fail("render-mutates", f"rendering changed {before}")
            try:
                form = sexp.read_one(t, racket=True)
                want = [d.name()] + [a.args[0] for a in d.arguments()]
                if [str(x) for x in form[1]] != want:
                    c.fail("fn-signature", f"{want} rendered as {t}")
                if isinstance(d, ir.FnDeclRecursive) != (form[0] == "define-bounded"):
                    c.fail("fn-boundedness", f"recursive={isinstance(d, ir.FnDeclRecursive)} rendered as {t[:200]}")
                rk.toplevel(form)
            except (sexp.ReadError, rkteval.RktError) as x:
                c.fail("fn-ill-formed", f"{x}\n{t}")
        for d in decls:
            ret, args = sigs[d.name()]
            for _ in range(c.n(8, 12)):
                vals = [irgen.rand_val(rng, k) for k in args]
                try:
                    ref = irgen.StrictEv(fns).call(d, vals)
                except (ireval.Undefined, RecursionError):
                    continue
                c.case(("fn", L, d.name(), tuple(vals)))
                c.count("fn_compared")
                try:
                    rk.fuel = rk.fuel0
                    got = rk.top[d.name()](*[rkteval.enc(v) for v in vals])
                    if not rkteval.equal(rkteval.enc(ref), got):
                        c.fail("fn-value", f"{d.name()}{tuple(vals)!r}: text computes {got!r}, declaration computes {ref!r}\n{d.to_rosette()}")
                except (ireval.Undefined, rkteval.RktError) as x:
                    c.fail("fn-value", f"{d.name()}{tuple(vals)!r}: {type(x).__name__} {x}; declaration computes {ref!r}\n{d.to_rosette()}")
        scope = irgen.scope_for(FEAT)
        scope["f1"] = ("F", "i", "i")
        scope["f2"] = ("F", "b", "i", "i")
        fvals = {"f1": lambda x: x * 3 - 1, "f2": lambda x, y: x < y}
        for k in range(nexpr):
            g = irgen.Gen(rng, FEAT, scope, sigs)
            code = rng.choice(irgen.ROS["types"] + ["i", "b"])
            e = g.expr(code, rng.randint(1, 4))
            try:
                before = repr(e)
                text = e.to_rosette()
                if repr(e) != before or e.to_rosette() != text:
                    c.fail("render-mutates", f"rendering changed {before} (or is not repeatable)")
            except Exception as x:
                def bad(y):
                    try:
                        y.to_rosette()
                        return False
                    except Exception:
                        return True
                s = irgen.shrink(e, bad)
                c.fail("render-crash", f"to_rosette raised {type(x).__name__}: {x} on {s!r}")
                continue
            for u in g.used:
                forms[u] = forms.get(u, 0) + 1
            n = irgen.size(e)
            for _ in range(nenv):
                env = {**irgen.rand_env(rng, scope), **fvals}
                st, msg = judge(e, text, env, fns, rk)
                key = (text, tuple(sorted(((k, v) for k, v in env.items() if not callable(v)), key=str)))
                c.case(key)
                if st == "skip":
                    c.count("undefined_valuation")
                    continue
                c.count("compared")
                if n >= 3:
                    c.nontrivial(key)
                if st == "bad":
                    def bad(y):
                        return judge(y, y.to_rosette(), env, fns, rk)[0] == "bad"
                    s = irgen.shrink(e, bad)
                    c.fail("value", f"{judge(s, s.to_rosette(), env, fns, rk)[1]}\n   expr {s!r}\n   text {s.to_rosette()}\n   env "
                           f"{ {k: v for k, v in env.items() if not callable(v)} }", expr=repr(s), text=s.to_rosette())
                    break
            if len(c.samples) < 4 and n > 8:
                c.sample(text[:400])
        # lambdas and the object layer
        for k in range(6):
            x, y = ir.Var("x", ir.Int), ir.Var("y", ir.Int)
            body = irgen.Gen(rng, FEAT, {"x": "i", "y": "i", "i0": "i"}, {}).expr("i", 3)
            lam = ir.Lambda(ir.Int, body, x, y)
            f = rk.value(sexp.read_one(lam.to_rosette(), racket=True), {"i0": 3})
            for _ in range(3):
                a, b = rng.randint(-4, 6), rng.randint(-4, 6)
                try:
                    ref = irgen.StrictEv({}).ev(body, {"x": a, "y": b, "i0": 3})
                except ireval.Undefined:
                    continue
                c.count("lambda_compared")
                if not rkteval.equal(rkteval.enc(ref), f(a, b)):
                    c.fail("lambda", f"{lam.to_rosette()} on {a},{b}: {f(a, b)!r} instead of {ref!r}")
            o = ir.Int(body)
            if o.to_rosette() != body.to_rosette():
                c.fail("object-render", f"Int({body!r}).to_rosette() differs from the expression's")
        # uninterpreted functions
        for k in range(3):
            args = [rng.choice(["i", "b"]) for _ in range(rng.randint(1, 3))]
            ret = rng.choice(["i", "b"])
            cls = rng.choice([ir.FnDecl, ir.FnDeclRecursive])
            d = cls(f"unint{k}", irgen.ty(ret), None, *[ir.Var(f"a{j}", irgen.ty(a)) for j, a in enumerate(args)])
            P = {"i": "integer?", "b": "boolean?"}
            want = f"(define-symbolic unint{k} (~> {' '.join(P[a] for a in args)} {P[ret]}))"
            c.count("uninterpreted")
            if sexp.show(sexp.read_one(d.to_rosette(is_uninterp=True), racket=True)) != want:
                c.fail("uninterpreted", f"expected {want}, got {d.to_rosette(is_uninterp=True)}")
    for u in ("add", "sub", "mul", "div", "mod", "ite", "let", "and", "or", "not", "implies", "eq", "lt", "le", "gt", "layer",
              "ge", "member", "subset", "insert", "minus", "union", "single", "append", "prepend", "tail", "take", "slice", "callvalue",
              "slicelen", "concat", "transpose", "colslice", "tupget", "tupget_expr", "tupget_ite", "mk", "call", "listeq", "seteq"):
        if not forms.get(u):
            c.require("form_" + u, 1)
    c.counters["forms"] = forms
    rk = rkteval.library()
    irgen.sweep(c, FEAT, lambda e: e.to_rosette(), lambda e, t, code, env: judge(e, t, env, {}, rk))
    c.require("form_pairs", 2200)


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
