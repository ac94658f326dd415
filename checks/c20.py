import os, sys, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, fnlib, ireval

PID, LEVEL = "C20", "exploration"
RULE = "a pair of expressions with at least 3 nodes, or a container operation on a set with repeated members"
FEAT = {**irgen.ROS, "tupexpr_ite": True}


def key(e):
    """independent structural key: constructor, type, operands"""
    from metalift.ir import Expr, Object
    if isinstance(e, Object):
        return key(e.src)
    if isinstance(e, Expr):
        return (type(e).__name__, str(e.type), tuple(key(a) for a in e.args))
    return (type(e).__name__, e)


def rebuild(e):
    from metalift.ir import Expr
    y = copy.copy(e)
    y.args = [rebuild(a) if isinstance(a, Expr) else a for a in e.args]
    if isinstance(e.args, tuple):
        y.args = tuple(y.args)
    return y


SWAP = {"Lt": "Le", "Le": "Lt", "Gt": "Ge", "Ge": "Gt", "Add": "Mul", "Mul": "Add", "Sub": "Add", "And": "Or", "Or": "And", "Div": "Mod", "Mod": "Div",
        "Implies": "Or"}


def mutate(rng, e):
    """a structurally different expression, one small edit away (or equal, when the edit is void)"""
    from metalift import ir
    from metalift.ir import Expr
    nodes = []

    def walk(x, path):
        nodes.append((path, x))
        for i, a in enumerate(x.args):
            if isinstance(a, Expr):
                walk(a, path + (i,))
    walk(e, ())
    path, x = rng.choice(nodes)
    kids = [i for i, a in enumerate(x.args) if isinstance(a, Expr)]
    k = type(x).__name__
    ops = []
    if len(kids) >= 2:
        ops += ["swap"]
        if k in ("Add", "Mul", "And", "Or", "Call") and len(kids) > 1:
            ops += ["drop"]
        if k in ("Add", "Mul", "And", "Or"):
            ops += ["dup"]
    if k in SWAP:
        ops.append("ctor")
    if k == "Var":
        ops += ["rename", "retype"]
    if k == "Lit":
        ops += ["lit", "lit", "litkind"]
    if k == "Call":
        ops.append("callname")
    if not ops:
        return rebuild(e)
    op = rng.choice(ops)
    y = rebuild(x)
    args = list(y.args)
    if op == "swap":
        i, j = rng.sample(kids, 2)
        args[i], args[j] = args[j], args[i]
    elif op == "drop":
        del args[rng.choice(kids)]
    elif op == "dup":
        args.append(args[kids[0]])
    elif op == "rename":
        args[0] = rng.choice([args[0] + "_", args[0][:-1] or "z", "i0", "l0"])
    elif op == "callname":
        args[0] = rng.choice([args[0] + "_", "list_tail", "list_take", "vec_slice"])
    elif op == "lit":
        args[0] = (not args[0]) if isinstance(args[0], bool) else args[0] + rng.choice([-1, 1, 2])
    elif op == "litkind":
        v = args[0]
        y = ir.BoolLit(bool(v)) if not isinstance(v, bool) else ir.IntLit(int(v))
        args = y.args
    elif op == "retype":
        y.type = rng.choice([ir.Int, ir.Bool, ir.List[ir.Int], ir.Set[ir.Int], ir.Matrix[ir.Int], ir.List[ir.List[ir.Int]]])
    elif op == "ctor":
        z = getattr(ir, SWAP[k])
        y = copy.copy(x)
        y.__class__ = z
        args = [rebuild(a) if isinstance(a, Expr) else a for a in x.args]
    y.args = tuple(args) if isinstance(x.args, tuple) else args

    def put(n, p):
        if not p:
            return y
        m = copy.copy(n)
        a = list(n.args)
        a[p[0]] = put(n.args[p[0]], p[1:])
        m.args = tuple(a) if isinstance(n.args, tuple) else a
        return m
    return put(e, path)


def obj(e):
    from metalift import ir
    return ir.create_object(e.type, e)


def run(c):
    from metalift import ir
    from metalift.ir import Expr, Object, ObjectWrapper
    from metalift.frontend.utils import ObjectSet
    from metalift.vc_util import and_objects, or_objects
    for n in ("pairs", "equal_pairs", "near_miss_pairs", "objectset_ops", "conjunctions", "triples"):
        c.require(n, 100)
    rounds = c.n(60, 900)
    for R in range(rounds):
        rng = c.rng("round", R)
        decls, sigs = fnlib.library(rng, FEAT, depth=2, n=2)
        scope = irgen.scope_for(FEAT)
        pool = []
        for _ in range(9):
            e = irgen.Gen(rng, FEAT, scope, sigs).expr(rng.choice(["i", "b", "l", "b", "i", "s", "m"]), rng.randint(0, 3))
            pool += [e, rebuild(e)]
            if rng.random() < .8:
                pool += [mutate(rng, e), mutate(rng, e)]
        pool += [ir.Lambda(ir.Int, pool[0], ir.Var("x", ir.Int)), ir.Choose(ir.IntLit(0), ir.IntLit(1)), ir.Choose(ir.BoolLit(False), ir.BoolLit(True)),
                 ir.IntLit(0), ir.BoolLit(False), ir.IntLit(1), ir.BoolLit(True), ir.Var("v", ir.Int), ir.Var("v", ir.Bool)] + decls[:2] + [rebuild(d) for d in decls[:2]]
        keys = [key(e) for e in pool]
        for i, a in enumerate(pool):
            for j, b in enumerate(pool):
                c.case((keys[i], keys[j]))
                c.count("pairs")
                want = keys[i] == keys[j]
                if want and i != j:
                    c.count("equal_pairs")
                if not want and j in (i + 1, i + 2):
                    c.count("near_miss_pairs")
                if irgen.size(a) >= 3 and (want or abs(i - j) <= 3):
                    c.nontrivial((keys[i], keys[j]))
                eq, ne, eq2 = a == b, a != b, Expr.__eq__(a, b)
                if eq is not want or eq2 is not want:
                    c.fail("equality", f"{a!r} == {b!r} gives {eq}/{eq2}, structure says {want}")
                if ne is not (not want):
                    c.fail("inequality", f"{a!r} != {b!r} gives {ne}, structure says {not want}")
                if want and hash(a) != hash(b):
                    c.fail("hash", f"equal expressions hash differently: {a!r}")
        c.count("triples", len(pool) ** 3)
        if len(set(pool)) != len(set(keys)) or len({e: 1 for e in pool}) != len(set(keys)):
            c.fail("python-set", f"a set of {len(set(keys))} distinct expressions has {len(set(pool))} members")
        for e, k in zip(pool, keys):
            if (e in pool[:5]) != (k in keys[:5]) or pool.index(e) != keys.index(k):
                c.fail("python-list", f"membership/index of {e!r} wrong")
        objs = [obj(e) for e in pool if type(e).__name__ not in ("FnDecl", "FnDeclRecursive", "Lambda") and not isinstance(e.type, str)]
        okeys = [key(o) for o in objs]
        wr = {ObjectWrapper(o) for o in objs}
        c.count("wrapper_sets")
        if len(wr) != len(set(okeys)) or {key(w.object) for w in wr} != set(okeys):
            c.fail("object-wrapper", f"a set of wrapped objects has {len(wr)} members, {len(set(okeys))} are distinct")
        # ObjectSet against a model
        def chk(s, model, what):
            got = [key(o) for o in s.objects()]
            c.count("objectset_ops")
            c.case((what, tuple(got)))
            if len(got) != len(set(got)) or set(got) != model or [key(o) for o in s] != got:
                c.fail("object-set", f"{what}: has {len(got)} members ({len(set(got))} distinct), expected {len(model)}; "
                                     f"missing {list(model - set(got))[:2]}, extra {list(set(got) - model)[:2]}")
        for _ in range(c.n(6, 10)):
            A = [rng.randrange(len(objs)) for _ in range(rng.randint(0, 8))]
            B = [rng.randrange(len(objs)) for _ in range(rng.randint(0, 8))]
            s, t = ObjectSet([objs[i] for i in A]), ObjectSet([objs[i] for i in B])
            ms, mt = {okeys[i] for i in A}, {okeys[i] for i in B}
            chk(s, ms, "construct")
            u, d = s + t, s - t
            chk(u, ms | mt, "union")
            chk(d, ms - mt, "difference")
            chk(s, ms, "left operand after union/difference")
            chk(t, mt, "right operand after union/difference")
            for _ in range(4):
                i = rng.randrange(len(objs))
                s.add(objs[i])
                ms = ms | {okeys[i]}
                chk(s, ms, "add")
                u.add(objs[i])
                j = rng.randrange(len(objs))
                if (objs[j] in s) != (okeys[j] in ms):
                    c.fail("object-set", f"membership of {objs[j]!r} is {objs[j] in s}")
            chk(t, mt, "right operand after adding to others")
            if len(A) > len(set(okeys[i] for i in A)):
                c.nontrivial(("set", R, tuple(A), tuple(B)))
            e0 = ObjectSet()
            chk(e0, set(), "empty set")
            e0.add(objs[0])
            chk(ObjectSet(), set(), "a new empty set after adding to another empty set")
        # conjunction / disjunction of objects: no distinct operand lost
        names = [f"q{i}" for i in range(5)]
        for _ in range(c.n(8, 12)):
            es = []
            for _ in range(rng.randint(1, 6)):
                g = irgen.Gen(rng, {**FEAT, "sets": False}, {n: "b" for n in names}, {})
                v = ir.Var(rng.choice(names), ir.Bool)
                es.append(rng.choice([v, v, ir.Not(v), ir.Implies(v, ir.Var(rng.choice(names), ir.Bool)), ir.Or(v, ir.Var(rng.choice(names), ir.Bool)), ir.BoolLit(rng.random() < .7)]))
            before = [repr(e) for e in es]
            A, O = and_objects(*[ir.Bool(e) for e in es]), or_objects(*[ir.Bool(e) for e in es])
            if [repr(e) for e in es] != before or type(A) is not ir.Bool or type(O) is not ir.Bool:
                c.fail("conjunction", "and_objects/or_objects changed its operands or returned another type")
            for m in range(32):
                env = {n: bool(m >> i & 1) for i, n in enumerate(names)}
                vs = [ireval.evaluate(e, env) for e in es]
                c.count("conjunctions")
                if ireval.evaluate(A.src, env) != all(vs):
                    c.fail("conjunction", f"and_objects({es!r}) = {A!r} is {ireval.evaluate(A.src, env)} on {env}, the operands are {vs}")
                if ireval.evaluate(O.src, env) != any(vs):
                    c.fail("disjunction", f"or_objects({es!r}) = {O!r} is {ireval.evaluate(O.src, env)} on {env}, the operands are {vs}")
        # sharing detection keeps every distinct subexpression exactly once
        for e in pool[:6]:
            cnts = Expr.findCommonExprs(e, [])
            allk = set()

            def sub(x):
                allk.add(key(x))
                for a in x.args:
                    if isinstance(a, Expr):
                        sub(a)
            sub(e)
            got = [key(x) for x, _ in cnts]
            c.count("sharing")
            if len(got) != len(set(got)) or set(got) != allk:
                c.fail("sharing", f"findCommonExprs lists {len(got)} expressions ({len(set(got))} distinct), {len(allk)} exist in {e!r}")


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
