import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, fnlib, ireval

PID, LEVEL = "C08", "exploration"
RULE = "a rewriting that changed the expression (or met a mapped/shared/constant part), evaluated on a valuation where the original is defined"
FEAT = {**irgen.ROS, "tupexpr_ite": True, "shadow_types": True, "types": irgen.ROS["types"] + [("T", "l", "i", "b")]}


def key(e):
    from metalift.ir import Expr, Object
    if isinstance(e, Object):
        return key(e.src)
    if isinstance(e, Expr):
        return (type(e).__name__, str(e.type), tuple(key(a) for a in e.args))
    return (type(e).__name__, e)


def val(e, env, fns):
    """('v', value) or ('u',); StrictEv would be too strict for rewrites, Kleene is the reference"""
    try:
        return ("v", irgen.RectEv(fns).ev(e, env))
    except (ireval.Undefined, RecursionError):
        return ("u",)


def agree(c, what, e, new, env, env2, fns, fns2=None, note=""):
    a = val(e, env, fns)
    if a[0] == "u":
        c.count("undefined_valuation")
        return True
    try:
        b = val(new, env2, fns if fns2 is None else fns2)
    except ireval.EvalError as x:
        b = ("error", str(x))
    c.case((what, repr(e), tuple(sorted(((k, v) for k, v in env.items() if not callable(v)), key=str))))
    c.count(what)
    if b[0] != "v" or not ireval.same(a[1], b[1]):
        c.fail(what, f"{e!r}\n became {new!r}{note}\n was {a[1]!r}, is {b!r}\n on { {k: v for k, v in env.items() if not callable(v)} }")
        return False
    return True


def expand(e, table):
    """put the shared expressions back (Var '(vN)' / 'vN' -> the shared expression)"""
    from metalift.ir import Expr, Var
    import copy
    if isinstance(e, Var) and e.args[0] in table:
        return expand(table[e.args[0]], table)
    y = copy.copy(e)
    y.args = [expand(a, table) if isinstance(a, Expr) else a for a in e.args]
    if isinstance(e.args, tuple):
        y.args = tuple(y.args)
    return y


def uses(e, into):
    from metalift.ir import Expr, Var
    if isinstance(e, Var):
        into[e.args[0]] = into.get(e.args[0], 0) + 1
    else:
        for a in e.args:
            if isinstance(a, Expr):
                uses(a, into)
    return into


def sprinkle(rng, e):
    """literal booleans inside connectives, so that simplification has work to do"""
    from metalift import ir
    import copy
    y = copy.copy(e)
    y.args = [sprinkle(rng, a) if isinstance(a, ir.Expr) and not (i == 0 and isinstance(e, ir.Let)) else a for i, a in enumerate(e.args)]
    if isinstance(e, (ir.And, ir.Or)) and rng.random() < .6:
        for _ in range(rng.randint(1, 2)):
            y.args.insert(rng.randint(0, len(y.args)), ir.BoolLit(rng.random() < .8))
    elif isinstance(y.args, list) and isinstance(e.args, tuple):
        y.args = tuple(y.args)
    if e.type == ir.Bool and rng.random() < .15:
        y = ir.And(*[y if k else ir.BoolLit(True) for k in rng.choice([(1,), (1, 0), (0, 1), (0, 1, 0)])])
    if isinstance(y, ir.And) and rng.random() < .1:
        y = ir.And(*[ir.BoolLit(True) for _ in range(rng.randint(1, 3))])
    return y


# ---- equi-validity over a finite domain
D = (0, 1, 2)


def fterm(rng, vs, d):
    from metalift import ir
    k = rng.random()
    if d > 0 and k < .15:
        return ir.Ite(ir.Eq(fterm(rng, vs, 0), fterm(rng, vs, 0)), fterm(rng, vs, d - 1), fterm(rng, vs, d - 1))
    if k < .75:
        return ir.Var(rng.choice(vs), ir.Int)
    return ir.IntLit(rng.choice(D))


def fform(rng, vs, d):
    from metalift import ir
    if d <= 0:
        k = rng.random()
        if k < .55:
            a, b = fterm(rng, vs, 1), fterm(rng, vs, 1)
            return ir.Eq(a, b)
        return rng.choice([ir.Lt, ir.Le, ir.Gt, ir.Ge])(fterm(rng, vs, 1), fterm(rng, vs, 1))
    k = rng.random()
    if k < .45:
        # premise with defining equalities
        prem = [ir.Eq(ir.Var(rng.choice(vs), ir.Int), fterm(rng, vs, 1)) for _ in range(rng.randint(1, 3))]
        prem += [fform(rng, vs, d - 2) for _ in range(rng.randint(0, 1))]
        rng.shuffle(prem)
        p = prem[0] if len(prem) == 1 else ir.And(*prem)
        return ir.Implies(p, fform(rng, vs, d - 1))
    if k < .65:
        return ir.And(*[fform(rng, vs, d - 1) for _ in range(2)])
    if k < .8:
        return ir.Or(*[fform(rng, vs, d - 1) for _ in range(2)])
    if k < .9:
        return ir.Not(fform(rng, vs, d - 1))
    return ir.Implies(fform(rng, vs, d - 1), fform(rng, vs, d - 1))


def valid(e, types):
    names = sorted(types)
    for vals in itertools.product(*[D if types[n] == "i" else (False, True) for n in names]):
        env = dict(zip(names, vals))
        if not ireval.evaluate(e, env):
            return False, env
    return True, None


def optimize(e):
    """the fixpoint loop of synthesize(optimize_vc_equality=True), through the public method"""
    new = set()
    prev = e.toSMT()
    for _ in range(30):
        cnt = {}
        e.count_variable_uses(cnt)
        e = e.optimize_useless_equality(cnt, new)
        if e.toSMT() == prev:
            return e, new
        prev = e.toSMT()
    return e, new


def useless(c):
    from metalift import ir
    rng = c.rng("useless")
    tot = {"valid": 0, "invalid": 0, "changed": 0}
    for k in range(c.n(2500, 40000)):
        vs = [f"x{i}" for i in range(rng.randint(1, 5))]
        e = fform(rng, vs, rng.randint(1, 4))
        before = repr(e)
        t0 = {n: "i" for n in uses(e, {})}
        if not t0:
            continue
        try:
            o, new = optimize(e)
        except Exception as x:
            c.fail("useless-equality", f"{type(x).__name__}: {x} on {e.toSMT()}")
            continue
        if repr(e) != before:
            c.fail("mutates", f"optimize_useless_equality changed its operand {before}")
        changed = repr(o) != before
        t1 = {n: ("b" if n in {v.args[0] for v in new} else "i") for n in uses(o, {})}
        if set(t1) - set(t0) != {v.args[0] for v in new if v.args[0] in t1}:
            c.fail("useless-equality", f"variables of {o.toSMT()} are not those of {e.toSMT()} and the new ones {new}")
            continue
        if len(t1) > 9:
            continue
        (v0, w0), (v1, w1) = valid(e, t0), valid(o, t1) if t1 else ((ireval.evaluate(o, {})), {})
        c.case(("useless", before))
        c.count("useless_equality")
        tot["valid" if v0 else "invalid"] += 1
        if changed:
            tot["changed"] += 1
            c.nontrivial(("useless", before))
        if v0 != v1:
            def bad(y):
                t = {n: "i" for n in uses(y, {})}
                z, nv = optimize(y)
                u = {n: ("b" if n in {v.args[0] for v in nv} else "i") for n in uses(z, {})}
                return valid(y, t)[0] != valid(z, u)[0]
            s = irgen.shrink(e, bad)
            c.fail("useless-equality", f"{s.toSMT()} is {'valid' if v0 else 'not valid'}; optimized to {optimize(s)[0].toSMT()}, which is not equivalent")
    c.counters["useless_valid"], c.counters["useless_invalid"], c.counters["useless_changed"] = tot["valid"], tot["invalid"], tot["changed"]
    for n in ("useless_valid", "useless_invalid", "useless_changed"):
        c.require(n, 50)


def prune(c, rng, R):
    """constant predicates make branches removable"""
    from metalift import ir
    from metalift.synthesis_common import prune_fn_decls
    decls, sigs = fnlib.library(rng, {**FEAT, "types": ["i", "b", "l"]}, depth=2, n=2)
    allf = {d.name(): d for d in decls}
    preds = {}
    for i, body in enumerate([ir.BoolLit(True), ir.BoolLit(False), ir.Gt(ir.Var("x", ir.Int), ir.IntLit(1))]):
        n = f"pred{i}"
        preds[n] = ir.FnDeclRecursive(n, ir.Bool, body, ir.Var("x", ir.Int))

    def cond(scope):
        k = rng.random()
        if k < .55:
            return ir.Call(rng.choice(sorted(preds)), ir.Bool, irgen.Gen(rng, FEAT, scope, {}).expr("i", 1))
        if k < .8:
            return ir.BoolLit(rng.random() < .5)
        return irgen.Gen(rng, FEAT, scope, {}).expr("b", 1)

    def tree(code, d, scope):
        if d == 0:
            return irgen.Gen(rng, FEAT, scope, sigs).expr(code, 1)
        a, b = tree(code, d - 1, scope), tree(code, d - 1, scope)
        e = ir.Ite(cond(scope), a, b)
        if code == "i" and rng.random() < .3:
            e = ir.Add(e, tree("i", d - 1, scope))
        return e
    cands = {}
    for i in range(3):
        code = rng.choice(["i", "b", "l"])
        scope = {"i0": "i", "b0": "b", "l0": "l"}
        body = tree(code, rng.randint(1, 3), scope)
        cands[f"cand{i}"] = ir.FnDeclRecursive(f"cand{i}", irgen.ty(code), body, *[ir.Var(n, irgen.ty(k)) for n, k in scope.items()])
    table = {**preds, **cands}
    items = list(table.items())
    rng.shuffle(items)
    table = dict(items)
    before = {n: repr(f) for n, f in table.items()}
    out = prune_fn_decls(table)
    if {n: repr(f) for n, f in table.items()} != before:
        c.fail("mutates", "prune_fn_decls changed its input")
    if set(out) != set(table):
        c.fail("prune", f"functions {sorted(set(table) ^ set(out))} lost or added")
    for n, f in table.items():
        g = out[n]
        if (g.name(), str(g.return_type()), [key(a) for a in g.arguments()]) != (f.name(), str(f.return_type()), [key(a) for a in f.arguments()]):
            c.fail("prune", f"signature of {f!r} became {g!r}")
        for _ in range(4):
            env = {a.args[0]: irgen.rand_val(rng, {"i0": "i", "b0": "b", "l0": "l", "x": "i"}[a.args[0]]) for a in f.arguments()}
            agree(c, "prune", f.body(), g.body(), env, env, {**allf, **table}, {**allf, **out})
        if repr(g) != repr(f):
            c.nontrivial(("prune", repr(f)))


def run(c):
    from metalift import ir
    from metalift.ir import Expr
    from metalift import smt_util
    for n in ("simplify", "rewrite", "share_smt", "share_rosette", "map_identity", "prune", "useless_equality", "rename_function", "augment_arguments",
              "count_uses", "rewrite_scope_let", "rewrite_scope_lambda"):
        if hasattr(smt_util, "replace_fn_name") or n not in ("rename_function", "augment_arguments"):
            c.require(n, 200 if n not in ("rename_function", "augment_arguments") else 60)
    for R in range(c.n(90, 1200)):
        rng = c.rng("round", R)
        decls, sigs = fnlib.library(rng, {**FEAT, "types": irgen.ROS["types"]}, depth=2, n=2)
        fns = {d.name(): d for d in decls}
        scope = irgen.scope_for(FEAT)
        scope["f1"] = ("F", "i", "i")
        fv = {"f1": lambda x: x * 3 - 1}
        for k in range(14):
            e = irgen.Gen(rng, FEAT, scope, sigs).expr(rng.choice(["i", "b", "b", "l", "s", "m", ("T", "i", "i")]), rng.randint(1, 4))
            e = sprinkle(rng, e)
            before = repr(e)
            envs = [{**irgen.rand_env(rng, scope), **fv} for _ in range(3)]

            def same_input(what):
                if repr(e) != before:
                    c.fail("mutates", f"{what} changed its operand from\n{before}\nto\n{e!r}")
            # generic traversal
            m = e.map_args(lambda a: a)
            c.count("map_identity")
            if key(m) != key(e):
                c.fail("map-args", f"map_args with the identity turned {e!r} into {m!r}")

            def deep(x):
                return x.map_args(deep) if isinstance(x, Expr) else x
            if key(deep(e)) != key(e):
                c.fail("map-args", f"deep identity map turned {e!r} into {deep(e)!r}")
            # renaming every variable through map_args
            def ren(x):
                if isinstance(x, ir.Var):
                    return ir.Var("r_" + x.args[0], x.type)
                return x.map_args(ren) if isinstance(x, Expr) else x
            r = ren(e)
            same_input("map_args")
            for env in envs:
                agree(c, "map_rename", e, r, env, {"r_" + n: v for n, v in env.items()}, fns)
            # simplification
            s = e.simplify()
            same_input("simplify")
            if s.type != e.type:
                c.fail("simplify", f"type of {e!r} changed to {s.type}")
            for env in envs:
                agree(c, "simplify", e, s, env, env, fns)
            if key(s) != key(e):
                c.nontrivial(("simplify", before))
            # substitution
            names = [n for n, kk in scope.items() if not (isinstance(kk, tuple) and kk[0] == "F")]
            used = [n for n in names if n in uses(e, {})]
            mp = {}
            for n in set(rng.sample(used, min(len(used), rng.randint(0, 3))) + rng.sample(names, rng.randint(0, 2))):
                mp[n] = irgen.Gen(rng, FEAT, scope, {}).expr(scope[n], rng.randint(0, 2))
            mbefore = {n: repr(x) for n, x in mp.items()}
            w = e.rewrite(mp)
            same_input("rewrite")
            if {n: repr(x) for n, x in mp.items()} != mbefore:
                c.fail("mutates", "rewrite changed the mapping")
            for env in envs:
                env2 = dict(env)
                ok = True
                for n, x in mp.items():
                    v = val(x, env, {})
                    ok = ok and v[0] == "v"
                    env2[n] = v[1] if v[0] == "v" else None
                if ok:
                    agree(c, "rewrite", e, w, env2, env, fns, note=f"\n under {mp!r}")
            if set(mp) & set(used):
                c.nontrivial(("rewrite", before, tuple(mbefore.items())))
            # substitution under a binder whose variable occurs in what is put in
            if len(used) > 1:
                x, y = rng.sample(used, 2)
                g = irgen.Gen(rng, FEAT, scope, {})
                inner = e if rng.random() < .7 else ir.Let(ir.Var(y, irgen.ty(scope[y])), g.expr(scope[y], 1), e)
                bound, arg = ir.Var(x, irgen.ty(scope[x])), g.expr(scope[x], rng.randint(0, 1))
                binder = rng.choice(["let", "lambda"])
                e2 = ir.Let(bound, arg, inner) if binder == "let" else ir.CallValue(ir.Lambda(e.type, inner, bound), arg)
                cand = ir.Var(x, irgen.ty(scope[x])) if scope[x] == scope[y] else None
                for _ in range(30):
                    if cand is not None:
                        break
                    t = irgen.Gen(rng, FEAT, scope, {}).expr(scope[y], 2)
                    if x in uses(t, {}):
                        cand = t
                if cand is not None:
                    mp = {y: cand}
                    if rng.random() < .3:
                        mp[x] = g.expr(scope[x], 1)
                    w = e2.rewrite(mp)
                    c.count("rewrite_scope_" + binder)
                    for env in envs:
                        vs = {n: val(t, env, {}) for n, t in mp.items()}
                        if all(v[0] == "v" for v in vs.values()):
                            agree(c, "rewrite", e2, w, {**env, **{n: v[1] for n, v in vs.items()}}, env, fns, note=f"\n under {mp!r}")
            # variable use counting
            cnt = {"i0": 2}
            e.count_variable_uses(cnt)
            want = uses(e, {"i0": 2})
            c.count("count_uses")
            if cnt != want:
                c.fail("count-uses", f"{e!r}: counted {cnt}, expected {want}")
            # sharing: replacing chosen subexpressions and putting them back is the identity
            subs = [x for x, n in Expr.findCommonExprs(e, []) if x.args and not isinstance(x, (ir.Var, ir.Lit))]
            common = rng.sample(subs, min(len(subs), rng.randint(0, 3)))
            if rng.random() < .5:
                common += [ir.IntLit(1), ir.BoolLit(True)]
            same_input("findCommonExprs")
            for mode, fmt, what in ((ir.PrintMode.SMT, "v%d", "share_smt"), (ir.PrintMode.Rosette, "(v%d)", "share_rosette")):
                top = Expr.replaceExprs(e, common, mode)
                inner = [Expr.replaceExprs(x, common, mode, skipTop=True) for x in common]
                same_input("replaceExprs")
                table = {fmt % i: x for i, x in enumerate(inner)}
                back = expand(top, table)
                c.case((what, before, repr(common)))
                c.count(what)
                if key(back) != key(e):
                    c.fail("sharing", f"{e!r}\n with {common!r} shared is {top!r}\n where {table!r}\n which stands for {back!r}")
                for x, y in zip(common, inner):
                    if key(expand(y, table)) != key(x):
                        c.fail("sharing", f"shared expression {x!r} became {y!r}")
                if key(top) != key(e):
                    c.nontrivial((what, before))
            # renaming a target function
            cands = sorted(n for n in sigs if f"{n!s}" in before)
            if cands and hasattr(smt_util, "replace_fn_name"):
                old = rng.choice(cands)
                e2 = smt_util.replace_fn_name(expr=e, new_fn_name="renamed_fn", fn_name=old)
                same_input("replace_fn_name")
                fns2 = {n: f for n, f in fns.items()}
                fns2["renamed_fn"] = fns[old]
                for env in envs:
                    agree(c, "rename_function", e, e2, env, env, fns, fns2)
                left = []

                def names_of(x):
                    if isinstance(x, ir.Call):
                        left.append(x.name())
                    for a in x.args:
                        if isinstance(a, Expr):
                            names_of(a)
                names_of(e2)
                if old in left:
                    c.fail("rename_function", f"{old} still called in {e2!r}")
                # extra arguments at a position
                na = len(sigs[old][1])
                pos = rng.randint(0, na)
                extra = [ir.Var("i0", ir.Int), ir.IntLit(7)]
                e3 = smt_util.augment_arguments(expr=e2, fn_name="renamed_fn", new_args=extra, start_index=pos)
                same_input("augment_arguments")
                for env in envs:
                    def aug(*a, env=env, f=fns[old], pos=pos):
                        if len(a) != na + 2 or a[pos] != env["i0"] or a[pos + 1] != 7:
                            raise ireval.EvalError(f"called with {a} (extra arguments expected at {pos})")
                        return ireval.Ev(fns).call(f, a[:pos] + a[pos + 2:])
                    if "i0" in [x for x in uses_bound(e)]:
                        continue
                    agree(c, "augment_arguments", e, e3, env, env, fns, {**fns, "renamed_fn": aug})
        for _ in range(3):
            prune(c, rng, R)
    useless(c)


def uses_bound(e):
    """names bound by let/lambda inside e"""
    from metalift import ir
    out = []
    if isinstance(e, ir.Let):
        out.append(e.args[0].args[0])
    if isinstance(e, ir.Lambda):
        out += [a.args[0] for a in e.args[1:]]
    for a in e.args:
        if isinstance(a, ir.Expr):
            out += uses_bound(a)
    return out


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
