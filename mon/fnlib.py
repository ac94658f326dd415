"""Random target-language functions (plain and recursive) for the rendering checks."""
from . import irgen


def library(rng, feat, depth=3, n=4):
    """-> (decls in dependency order, {name: (ret, [args])})."""
    from metalift import ir
    decls, sigs = [], {}
    T = irgen.ty
    simple = [t for t in feat["types"] if not (isinstance(t, tuple) and t[0] == "T" and not feat["tuples"])]
    for k in range(n):
        name = rng.choice(["helper", "op", "fn", "aux"]) + f"_{k}" + rng.choice(["", "_ii", "_x"])
        ret = rng.choice(simple)
        args = [rng.choice(simple) for _ in range(rng.randint(0 if rng.random() < .3 else 1, 3))]
        ps = [f"{rng.choice(['a', 'x', 'q'])}{j}" for j in range(len(args))]
        scope = dict(zip(ps, args))
        g = irgen.Gen(rng, feat, scope, dict(sigs))
        body = g.expr(ret, depth)
        cls = ir.FnDeclRecursive if rng.random() < .4 else ir.FnDecl
        decls.append(cls(name, T(ret), body, *[ir.Var(p, T(c)) for p, c in zip(ps, args)]))
        sigs[name] = (ret, args)
    # a genuinely recursive fold over a list: acc combined with a random pure step
    step_scope = {"h": "i", "acc": "i", "k": "i"}
    nolet = {**feat, "sets": False, "tuples": False, "tupexpr_get": False}
    g = irgen.Gen(rng, nolet, step_scope, {})
    step = g.expr("i", 2)
    stepn, foldn = "step_fn", "fold_list"
    decls.append(ir.FnDecl(stepn, ir.Int, step, *[ir.Var(p, ir.Int) for p in ("h", "acc", "k")]))
    sigs[stepn] = ("i", ["i", "i", "i"])
    xs, k = ir.Var("xs", T("l")), ir.Var("k", ir.Int)
    base = irgen.Gen(rng, nolet, {"k": "i"}, {}).expr("i", 1)
    rec = ir.Ite(ir.Lt(ir.Call("list_length", ir.Int, xs), ir.IntLit(1)), base,
                 ir.Call(stepn, ir.Int, ir.Call("list_get", ir.Int, xs, ir.IntLit(0)),
                         ir.Call(foldn, ir.Int, ir.Call("list_tail", T("l"), xs, ir.IntLit(1)), k), k))
    decls.append(ir.FnDeclRecursive(foldn, ir.Int, rec, xs, k))
    sigs[foldn] = ("i", ["l", "i"])
    # recursive list builder
    mapn = "map_list"
    rec = ir.Ite(ir.Eq(ir.Call("list_length", ir.Int, xs), ir.IntLit(0)), ir.Call("list_empty", T("l")),
                 ir.Call("list_prepend", T("l"), ir.Call(stepn, ir.Int, ir.Call("list_get", ir.Int, xs, ir.IntLit(0)), k, k),
                         ir.Call(mapn, T("l"), ir.Call("list_tail", T("l"), xs, ir.IntLit(1)), k)))
    decls.append(ir.FnDeclRecursive(mapn, T("l"), rec, xs, k))
    sigs[mapn] = ("l", ["l", "i"])
    return decls, sigs
