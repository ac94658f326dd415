import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, fnlib, ireval, smteval, boot, sexp
from mon.harness import quiet

PID, LEVEL = "C04", "exploration"
RULE = ("a rendered expression evaluated on a valuation where the reference semantics is defined, with at least 3 nodes")


def sort(c):
    """SMT sort of a type code, written independently of the repository."""
    if c == "i":
        return "Int"
    if c == "b":
        return "Bool"
    if c == "l":
        return "(MLList Int)"
    if c in ("m", "n"):
        return "(MLList (MLList Int))"
    if c == "s":
        return "(Set Int)"
    if c[0] == "T":
        return f"(Tuple{len(c) - 1} " + " ".join(sort(x) for x in c[1:]) + ")"
    raise ValueError(c)


def norm(x):
    return sexp.show(x)


FEAT = {**irgen.SMT, "tupexpr_ite": True, "shadow_types": True}


def judge(e, text, c, env, fns, smt):
    """-> (status, message). status: ok / skip / bad"""
    try:
        ref = irgen.RectEv(fns).ev(e, env)
    except (ireval.Undefined, RecursionError):
        return "skip", ""
    try:
        got = smt.value(sexp.read_one(text), env)
    except ireval.Undefined as x:
        return "bad", f"text denotes no value ({x}); reference value {ref!r}"
    except (smteval.SmtError, sexp.ReadError, ireval.EvalError) as x:
        return "bad", f"text is not well-formed: {x}"
    if not ireval.same(ref, got):
        return "bad", f"text denotes {got!r}, expression denotes {ref!r}"
    return "ok", ""


def report(c, mech, e, code, env, fns, smt, msg):
    def bad(x):
        t = x.toSMT()
        return judge(x, t, code, env, fns, smt)[0] == "bad"
    try:
        small = irgen.shrink(e, bad)
    except Exception:
        small = e
    t = small.toSMT()
    c.fail(mech, f"{judge(small, t, code, env, fns, smt)[1] or msg}\n   expr {small!r}\n   text {t}\n   env {env}",
           expr=repr(small), text=t, env=repr(env))


def run(c):
    from metalift import ir
    c.require("compared", 3000)
    c.require("fn_compared", 300)
    c.require("axioms", 30)
    c.require("parsed_by_cvc5", 500)
    nlib, nexpr, nenv = c.n(14, 120), c.n(110, 160), 4
    forms = {}
    cvc_terms = []
    for L in range(nlib):
        rng = c.rng("lib", L)
        decls, sigs = fnlib.library(rng, FEAT)
        fns = {d.name(): d for d in decls}
        smt = smteval.library()
        block = []
        for d in decls:
            before = repr(d)
            with quiet():
                t = d.toSMT()
            if repr(d) != before or d.toSMT() != t:
                c.fail("render-mutates", f"rendering changed {before}")
            try:
                form = sexp.read_one(t)
                smt.command(form)
                ret, args = sigs[d.name()]
                want = [[a.args[0], sort(k)] for a, k in zip(d.arguments(), args)]
                got = [[str(p[0]), norm(p[1])] for p in form[2]]
                if got != want or norm(form[3]) != sort(ret) or form[1] != d.name():
                    c.fail("fn-signature", f"{d.name()} {want} -> {sort(ret)} rendered with signature {got} -> {norm(form[3])}: {t}")
            except (sexp.ReadError, smteval.SmtError) as x:
                c.fail("fn-ill-formed", f"{x}\n{t}")
                continue
            block.append(t)
        # functions
        for d in decls:
            ret, args = sigs[d.name()]
            for _ in range(c.n(8, 12)):
                vals = [irgen.rand_val(rng, k) for k in args]
                try:
                    ref = irgen.RectEv(fns).call(d, vals)
                except (ireval.Undefined, RecursionError):
                    continue
                c.case(("fn", L, d.name(), tuple(vals)))
                c.count("fn_compared")
                try:
                    smt.fuel = smt.fuel0
                    got = smt.apply(d.name(), list(vals))
                    if not ireval.same(ref, got):
                        c.fail("fn-value", f"{d.name()}{tuple(vals)!r}: text computes {got!r}, declaration computes {ref!r}\n{d.toSMT()}")
                except (ireval.Undefined, smteval.SmtError, ireval.EvalError) as x:
                    c.fail("fn-value", f"{d.name()}{tuple(vals)!r}: {type(x).__name__} {x}; declaration computes {ref!r}\n{d.toSMT()}")
        scope = irgen.scope_for(FEAT)
        terms = []
        for k in range(nexpr):
            g = irgen.Gen(rng, FEAT, scope, sigs)
            code = rng.choice(FEAT["types"] + ["i", "b"])
            e = g.expr(code, rng.randint(1, 4))
            try:
                text = e.toSMT()
            except Exception as x:
                def bad(y):
                    try:
                        y.toSMT()
                        return False
                    except Exception:
                        return True
                s = irgen.shrink(e, bad)
                c.fail("render-crash", f"toSMT raised {type(x).__name__}: {x} on {s!r}")
                continue
            for u in g.used:
                forms[u] = forms.get(u, 0) + 1
            n = irgen.size(e)
            for _ in range(nenv):
                env = irgen.rand_env(rng, scope)
                st, msg = judge(e, text, code, env, fns, smt)
                c.case((text, tuple(sorted(env.items(), key=str))))
                if st == "skip":
                    c.count("undefined_valuation")
                    continue
                c.count("compared")
                if n >= 3:
                    c.nontrivial((text, tuple(sorted(env.items(), key=str))))
                if st == "bad":
                    report(c, "value", e, code, env, fns, smt, msg)
                    break
            terms.append((code, text))
            if len(c.samples) < 4 and n > 8:
                c.sample(text[:400])
        # quantified facts
        for k in range(c.n(6, 8)):
            names = rng.sample([n for n, t in scope.items()], rng.randint(1, 3))
            sc = {n: scope[n] for n in names}
            e = irgen.Gen(rng, FEAT, sc, sigs).expr("b", 3)
            ax = ir.Axiom(e, *[ir.Var(n, irgen.ty(sc[n])) for n in names])
            t = ax.toSMT()
            c.count("axioms")
            try:
                f = sexp.read_one(t)
                ok = f[0] == "assert" and f[1][0] == "forall" and len(f) == 2 and len(f[1]) == 3
                got = [[str(p[0]), norm(p[1])] for p in f[1][1]] if ok else None
                if got != [[n, sort(sc[n])] for n in names]:
                    c.fail("axiom-binders", f"axiom over {names} rendered as {t}")
                    continue
            except (sexp.ReadError, IndexError, TypeError) as x:
                c.fail("axiom-ill-formed", f"{x}: {t}")
                continue
            for _ in range(3):
                env = irgen.rand_env(rng, sc)
                st, msg = judge(e, sexp.show(f[1][2]), "b", env, fns, smt)
                if st == "bad":
                    c.fail("axiom-value", f"{msg}\n   {t}\n   {env}")
            terms.append(("b", None, t))
        # uninterpreted functions
        for k in range(4):
            args = [rng.choice(FEAT["types"]) for _ in range(rng.randint(1, 3))]
            ret = rng.choice(FEAT["types"])
            cls = rng.choice([ir.FnDecl, ir.FnDeclRecursive])
            d = cls(f"unint{k}", irgen.ty(ret), None, *[ir.Var(f"a{j}", irgen.ty(a)) for j, a in enumerate(args)])
            t = d.toSMT()
            want = f"(declare-fun unint{k} ({' '.join(map(sort, args))}) {sort(ret)})"
            c.count("uninterpreted")
            if norm(sexp.read_one(t)) != norm(sexp.read_one(want)):
                c.fail("uninterpreted", f"expected {want}, got {t}")
            block.append(t)
        cvc_terms.append((block, scope, terms))
    for u in ("add", "sub", "mul", "div", "mod", "ite", "let", "and", "or", "not", "implies", "eq", "lt", "le", "gt",
              "ge", "member", "subset", "insert", "minus", "union", "single", "append", "prepend", "tail", "take", "slice",
              "slicelen", "concat", "transpose", "colslice", "tupget", "tupget_expr", "tupget_ite", "mk", "call", "listeq"):
        if not forms.get(u):
            c.require("form_" + u, 1)
    c.counters["forms"] = forms
    smt = smteval.library()
    irgen.sweep(c, FEAT, lambda e: e.toSMT(), lambda e, t, code, env: judge(e, t, code, env, {}, smt))
    c.require("form_pairs", 2000)
    parse_all(c, cvc_terms)
    solver_probe(c)


def parse_all(c, groups):
    """cvc5 must parse and sort-check everything that was rendered."""
    libs = "".join(open(os.path.join(boot.REPO, "metalift/utils", n)).read() for n in smteval.LIBS)
    for gi, (block, scope, terms) in enumerate(groups[:c.n(14, 60)]):
        params = " ".join(f"({n} {sort(k)})" for n, k in scope.items())
        parts = [libs] + block
        for i, t in enumerate(terms):
            if len(t) == 3:
                parts.append(t[2])
            else:
                parts.append(f"(define-fun term_{i} ({params}) {sort(t[0])} {t[1]})")
        p = os.path.join(boot.scratch(), "parse.smt2")
        open(p, "w").write("(set-logic ALL)\n" + "\n".join(parts) + "\n")
        r = subprocess.run(["cvc5", "--lang=smt", "--parse-only", p], capture_output=True, text=True, timeout=300)
        c.count("parsed_by_cvc5", len(parts) - 1)
        if r.returncode or "error" in r.stdout:
            msg = r.stdout.strip()[:500]
            # locate the form
            bad = None
            for i, t in enumerate(terms):
                one = [libs] + block + [t[2] if len(t) == 3 else f"(define-fun term_{i} ({params}) {sort(t[0])} {t[1]})"]
                open(p, "w").write("(set-logic ALL)\n" + "\n".join(one) + "\n")
                r2 = subprocess.run(["cvc5", "--lang=smt", "--parse-only", p], capture_output=True, text=True, timeout=120)
                if r2.returncode or "error" in r2.stdout:
                    bad = one[-1]
                    msg = r2.stdout.strip()[:500]
                    break
            c.fail("solver-rejects", f"cvc5 does not accept the rendered text: {msg}\n{bad or 'one of the function definitions'}")


def solver_probe(c):
    """The solver must not be able to derive false from the library alone on ground terms."""
    libs = "".join(open(os.path.join(boot.REPO, "metalift/utils", n)).read() for n in smteval.LIBS)
    M = "(MLList (MLList Int))"
    one = "(cons 1 (cons 2 (as nil (MLList Int))))"
    e = "(as nil (MLList Int))"
    ms = [f"(as nil {M})", f"(cons {e} (as nil {M}))", f"(cons {one} (cons {one} (as nil {M})))", f"(cons {e} (cons {e} (as nil {M})))"]
    fns_m = ["matrix_transpose {}", "rests {}", "firsts {}", "matrix_col_slice {} 0 1", "matrix_row_slice {} 0 1", "matrix_tail {} 1",
             "matrix_take {} 1", f"matrix_append {{}} {one}", "matrix_get {} 0"]
    fns_l = ["list_tail {} 1", "list_take {} 2", "list_append {} 3", "list_concat {} {}", "vec_slice {} 1 2", "list_contains {} 1", "list_get {} 1"]
    for fs, args in ((fns_m, ms), (fns_l, [e, one])):
        for f in fs:
            body = "\n".join(f"(define-const c{i} {srt(f)} ({f.format(*[a] * f.count('{}'))}))\n(assert (= c{i} c{i}))"
                             for i, a in enumerate(args))
            body = "\n".join(f"(declare-const c{i} {srt(f)})\n(assert (= c{i} ({f.format(*[a] * f.count('{}'))})))" for i, a in enumerate(args))
            p = os.path.join(boot.scratch(), "probe.smt2")
            open(p, "w").write("(set-logic ALL)\n" + libs + "\n" + body + "\n(check-sat)\n")
            r = subprocess.run(["cvc5", "--lang=smt", "--tlimit=1500", p], capture_output=True, text=True, timeout=60)
            c.count("library_probes")
            if r.stdout.strip().split("\n")[0] == "unsat":
                c.fail("library-inconsistent", f"the SMT library refutes the existence of a value for ({f}) on {args}")


def srt(f):
    n = f.split()[0]
    if n in ("firsts",) or n.startswith("list_tail") or n in ("list_take", "list_append", "list_concat", "vec_slice", "matrix_get"):
        return "(MLList Int)"
    if n == "list_contains":
        return "Bool"
    if n == "list_get":
        return "Int"
    return "(MLList (MLList Int))"


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
