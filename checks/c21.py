import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, fnlib, ireval

PID, LEVEL = "C21", "exploration"
RULE = "a library of functions in which at least one constant condition was planted, or a sequence of variable requests with colliding names"
FEAT = {**irgen.ROS, "tupexpr_ite": True}
CONST = [("always_true", True), ("never", False), ("is_on", True), ("is_off", False)]


def key(e):
    from metalift.ir import Expr, Object
    if isinstance(e, Object):
        return key(e.src)
    if isinstance(e, Expr):
        return (type(e).__name__, str(e.type), tuple(key(a) for a in e.args))
    return (type(e).__name__, e)


def calls(k, acc):
    if isinstance(k, tuple) and len(k) == 3 and isinstance(k[2], tuple):
        if k[0] in ("Call", "TargetCall"):
            acc.append(k[2][0][1])
        for a in k[2]:
            calls(a, acc)
    return acc


def rekey(k, f):
    """apply f to every Call key, bottom up"""
    if isinstance(k, tuple) and len(k) == 3 and isinstance(k[2], tuple):
        k = (k[0], k[1], tuple(rekey(a, f) for a in k[2]))
        if k[0] == "Call":
            return f(k)
    return k


def plant(rng, e, consts, planted, depth=0):
    """wrap random sub-expressions into conditionals with a constant condition (sometimes nested); the dead branch is arbitrary"""
    from metalift import ir
    from metalift.ir import Expr
    k = type(e).__name__
    if not isinstance(e, Expr) or k in ("Lambda",):
        return e
    args = []
    for i, a in enumerate(e.args):
        ok = isinstance(a, Expr) and not (k == "Let" and i == 0) and not (k == "TupleGet" and i > 0) and not (k == "CallValue" and i == 0)
        args.append(plant(rng, a, consts, planted, depth + 1) if ok else a)
    y = e.map_args(lambda a: a) if k not in ("Var", "Lit") else e
    if k not in ("Var", "Lit"):
        y.args = type(y.args)(args) if isinstance(y.args, tuple) else args
    if rng.random() > .22 or ir.is_fn_decl_type(e.type) or ir.is_tuple_type(e.type):
        return y
    if k in ("Lit",) and not isinstance(e.args[0], bool) and rng.random() < .5:
        return y

    def cond(d):
        r = rng.random()
        if r < .45:
            v = rng.random() < .5
            return ir.BoolLit(v), v
        if r < .85:
            n, v, arity = rng.choice(consts)
            return ir.Call(n, ir.Bool, *[ir.IntLit(rng.randint(0, 3)) for _ in range(arity)]), v
        if r < .95 or d:
            v = rng.random() < .5
            return ir.Not(ir.BoolLit(not v)), v
        c1, v1 = cond(1)
        a, va = cond(1)
        b, vb = cond(1)
        return ir.Ite(c1, a, b), (va if v1 else vb)
    c, v = cond(0)
    g = irgen.Gen(rng, {**FEAT, "sets": False, "tuples": False, "tupexpr_get": False}, {}, {})
    code = {"Int": "i", "Bool": "b"}.get(getattr(e.type, "__name__", ""), None)
    dead = g.expr(code, 1) if code else y
    planted.append(v)
    return ir.Ite(c, y, dead) if v else ir.Ite(c, dead, y)


def run(c):
    from metalift import ir
    from metalift.analysis import VariableTracker
    from metalift.synthesis_common import prune_fn_decls, get_used_fn_names
    from metalift.smt_util import topological_sort, replace_fn_name, augment_arguments
    simple = [t for t in FEAT["types"] if not isinstance(t, tuple)]
    for R in range(c.n(60, 400)):
        if c.out_of_time():
            break
        rng = c.rng("lib", R)
        decls, sigs = fnlib.library(rng, FEAT, depth=rng.choice([2, 3, 4]), n=rng.randint(2, 5))
        consts, planted = [], []
        for n, v in rng.sample(CONST, rng.randint(1, 4)):
            ar = rng.randint(0, 2)
            consts.append((n, v, ar))
            decls.append(ir.FnDecl(n, ir.Bool, ir.BoolLit(v), *[ir.Var(f"u{i}", ir.Int) for i in range(ar)]))
            sigs[n] = ("b", ["i"] * ar)
        if rng.random() < .5:   # looks constant, is not
            decls.append(ir.FnDecl("almost", ir.Bool, ir.Lt(ir.Var("u0", ir.Int), ir.IntLit(2)), ir.Var("u0", ir.Int)))
            consts_ = consts
            sigs["almost"] = ("b", ["i"])
        new = []
        for d in decls:
            if d.name() in {x[0] for x in consts}:
                new.append(d)
                continue
            b = plant(rng, d.body(), consts, planted)
            if "almost" in sigs and rng.random() < .4 and str(b.type) == str(ir.Int):
                b = ir.Ite(ir.Call("almost", ir.Bool, ir.IntLit(rng.randint(0, 3))), b, ir.IntLit(7))
            new.append(type(d)(d.name(), d.return_type(), b, *d.arguments()))
        decls = new
        rng.shuffle(decls)
        byname = {d.name(): d for d in decls}
        before = {n: key(d) for n, d in byname.items()}
        c.count("functions", len(decls))
        c.count("constant_conditions", len(planted))
        if planted:
            c.nontrivial(("lib", R))

        def unchanged(what):
            for n, d in byname.items():
                if key(d) != before[n]:
                    c.fail("input-changed", f"{what} changed its input {n}")

        def same_meaning(what, f, g, fns, gns, trials=4):
            if type(f) is not type(g) or f.name() != g.name() or str(f.return_type()) != str(g.return_type()) or \
                    [key(a) for a in f.arguments()] != [key(a) for a in g.arguments()]:
                c.fail(what, f"{f.name()}: signature became {g!r}"[:400])
                return
            for _ in range(trials):
                env = [irgen.rand_val(rng, t) for t in sigs[f.name()][1]]
                try:
                    a = ireval.Ev(fns).call(f, env)
                except (ireval.Undefined, RecursionError):
                    c.count("undefined")
                    continue
                c.count("evaluations")
                try:
                    b = ireval.Ev(gns, fuel=60000).call(g, env)
                except (ireval.Undefined, ireval.EvalError) as x:
                    b = x
                if not (not isinstance(b, Exception) and ireval.same(a, b)):
                    c.fail(what, f"{f.name()}{tuple(env)} was {a!r}, is {b!r} afterwards", before=repr(f)[:600], after=repr(g)[:600])
                    return
        # pruning: the functions may not call each other's changed bodies only - evaluate both closed worlds
        out = prune_fn_decls(dict(byname))
        c.case(("prune", R))
        unchanged("pruning")
        if list(out) != list(byname):
            c.fail("prune", f"pruning {list(byname)} returned {list(out)}")
        else:
            for n in byname:
                same_meaning("prune", byname[n], out[n], byname, out)
        c.count("pruned", sum(key(out[n]) != before[n] for n in out))
        # copying, node by node; dropping constant conjuncts
        for n, d in byname.items():
            if key(d.map_args(lambda a: a)) != before[n]:
                c.fail("copy", f"copying {n} changes it: {d.map_args(lambda a: a)!r}"[:400])
            stack = [d.body()]
            while stack:
                e = stack.pop()
                if isinstance(e, ir.Expr):
                    c.count("nodes")
                    if key(e.map_args(lambda a: a)) != key(e):
                        c.fail("copy", f"copying {e!r} gives {e.map_args(lambda a: a)!r}"[:400])
                    stack += list(e.args)
            s = type(d)(n, d.return_type(), d.body().simplify(), *d.arguments())
            same_meaning("simplify", d, s, byname, byname, 2)
        # conjunctions with constants
        for _ in range(3):
            g = irgen.Gen(rng, FEAT, {"i0": "i", "b0": "b"}, {})
            parts = [g.expr("b", 1) if rng.random() < .6 else ir.BoolLit(rng.random() < .8) for _ in range(rng.randint(1, 4))]
            e = ir.And(*parts)
            if rng.random() < .4:
                e = rng.choice([lambda: ir.Not(e), lambda: ir.Or(e, ir.Var("b0", ir.Bool)), lambda: ir.Implies(e, ir.Var("b0", ir.Bool)),
                                lambda: ir.And(e, ir.BoolLit(True)), lambda: ir.Ite(e, ir.And(ir.BoolLit(True), ir.BoolLit(True)), ir.BoolLit(False))])()
            k0 = key(e)
            s = e.simplify()
            c.case(("simplify", k0))
            for _ in range(4):
                env = {"i0": rng.randint(-3, 5), "b0": rng.random() < .5}
                a, b = ireval.try_eval(e, env, {}), ireval.try_eval(s, env, {})
                if a[0] == "ok" and not (b[0] == "ok" and a[1] is b[1]):
                    c.fail("simplify", f"{e!r} is {a[1]} under {env}, simplified {s!r} is {b}")
            if key(e) != k0:
                c.fail("input-changed", f"simplifying changed its input {e!r}")
        # names
        for sub in ([*byname.values()], rng.sample([*byname.values()], rng.randint(0, len(byname))), [rng.choice([*byname.values()])]):
            want = set()
            for d in sub:
                want |= set(calls(key(d.body()), []))
            got = get_used_fn_names(list(sub))
            c.case(("used", tuple(sorted(want))))
            if set(got) != want:
                c.fail("used-names", f"functions {[d.name() for d in sub]} call {sorted(want)}, collected {sorted(got)}")
        unchanged("collecting names")
        # ordering
        order = topological_sort([*byname.values()])
        c.case(("order", tuple(d.name() for d in order)))
        pos = {d.name(): i for i, d in enumerate(order)}
        if sorted(d.name() for d in order) != sorted(byname) or any(key(d) != before[d.name()] for d in order if d.name() in before):
            c.fail("order", f"ordering {list(byname)} gives {[d.name() for d in order]}")
        else:
            for n in byname:
                for m in set(calls(before[n], [])) & set(byname):
                    c.count("call_edges")
                    if m != n and pos[m] > pos[n]:
                        c.fail("order", f"{n} calls {m} but comes before it: {[d.name() for d in order]}")
        # renaming / adding arguments: exactly the calls of one function
        names = sorted({m for n in byname for m in calls(before[n], [])})
        for tgt in rng.sample(names, min(3, len(names))):
            newn = rng.choice(["renamed_fn", tgt + "_x", "list_length"])
            extra = [ir.Var("e0", ir.Int), ir.Add(ir.Var("e1", ir.Int), ir.IntLit(1))][:rng.randint(1, 2)]
            for n, d in byname.items():
                for e, k in ((d, before[n]), (d.body(), key(d.body()))):
                    want = rekey(k, lambda q: (q[0], q[1], (("str", newn),) + q[2][1:]) if q[2][0][1] == tgt else q)
                    got = key(replace_fn_name(expr=e, new_fn_name=newn, fn_name=tgt))
                    c.case(("rename", R, tgt, n))
                    if got != want:
                        c.fail("rename", f"renaming calls of {tgt} to {newn} in {e!r} gives {replace_fn_name(expr=e, new_fn_name=newn, fn_name=tgt)!r}"[:700])
                    arity = max([len(q) for q in _arities(k, tgt)] or [0])
                    at = rng.randint(0, arity)
                    ex = tuple(key(x) for x in extra)
                    want = rekey(k, lambda q: (q[0], q[1], q[2][:1 + at] + ex + q[2][1 + at:]) if q[2][0][1] == tgt else q)
                    r = augment_arguments(expr=e, fn_name=tgt, new_args=list(extra), start_index=at)
                    if key(r) != want:
                        c.fail("augment", f"adding arguments {extra} at {at} to calls of {tgt} in {e!r} gives {r!r}"[:700])
        unchanged("renaming or adding arguments")
    # variable bookkeeping
    for R in range(c.n(400, 4000)):
        rng = c.rng("vars", R)
        t = VariableTracker()
        groups, handed, named, hist = [], {}, {}, []
        base = rng.choice([["a", "a_1", "a_2"], ["x", "x_1", "x_1_1"], ["s", "s_t", "t"]])
        vnames = rng.choice([["x", "x_1", "x_2"], ["1", "1_1", "t"], ["t", "t_1", "s_t"]])
        for _ in range(rng.randint(2, 14)):
            r = rng.random()
            ty = rng.choice([ir.Int, ir.Bool, ir.List[ir.Int]])
            if r < .3 or not groups:
                n = rng.choice(base)
                groups.append(t.group(n))
                hist.append(("group", n))
                continue
            if r < .85:
                gi = rng.randrange(len(groups))
                n = rng.choice(vnames)
                v = groups[gi].variable(n, ty)
                hist.append(("fresh", gi, n, v.args[0]))
                c.count("fresh_requests")
                if v.args[0] in handed or v.args[0] in named:
                    c.fail("fresh-name", f"{v.args[0]} was handed out before: {hist}")
                handed[v.args[0]] = ty
            else:
                n = rng.choice(["a_x", "x_1_x", "out", "s_t", "a_1_x"])
                v = t.variable(n, ty)
                hist.append(("named", n))
                if v.args[0] != n:
                    c.fail("named", f"asked for {n}, got {v.args[0]}")
                (handed if n in handed else named)[n] = ty
            if str(v.type) != str(ty):
                c.fail("type", f"{v!r} has type {v.type}, asked {ty}")
        c.case(tuple(hist))
        c.nontrivial(tuple(hist))
        allv = t.all()
        want = {**handed, **named}
        if sorted(v.args[0] for v in allv) != sorted(want) or any(str(v.type) != str(want[v.args[0]]) for v in allv if v.args[0] in want):
            c.fail("all", f"tracker lists {[(v.args[0], str(v.type)) for v in allv]}, requested {[(n, str(x)) for n, x in want.items()]}: {hist}")
    for k in ("constant_conditions", "pruned", "evaluations", "call_edges", "fresh_requests", "nodes"):
        c.require(k, 100)


def _arities(k, tgt):
    out = []
    def f(q):
        if q[2][0][1] == tgt:
            out.append(q[2][1:])
        return q
    rekey(k, f)
    return out


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
