"""C12: the emitted verification problem says exactly what has to be verified.

Monitor: random verification problems (target language with helpers, recursive functions, functions the
search has to define, uninterpreted functions, higher-order functions with several function values,
axioms; synthesized predicates calling each other; a verification condition over random variables) go
through the real `verify_synth_result` / `toSMT`; the solver is a stub.  The file left on disk is
re-read by an independent SMT-LIB reader: static scoping (declared once, before use), each definition and
the asserted negation evaluated against the reference semantics of the expressions that were handed in,
axioms compared with the axioms handed in, and cvc5 parses (and on some, must not refute a file for
which a counterexample is known).
"""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, fnlib, ireval, smteval, boot, sexp
from mon.harness import quiet
from mon.sexp import Sym

PID, LEVEL = "C12", "exploration"
RULE = "a problem whose condition and at least one synthesized function were evaluated to a defined value on some valuation"
FEAT = {**irgen.SMT, "tupexpr_ite": True}
NARROW = {**FEAT, "types": ["i", "b", "l"], "sets": False, "tuples": False, "tupexpr_get": False}
T = irgen.ty


def subst(e, m):
    """Replace variables by expressions (their free variables are never rebound: see hole scopes)."""
    from metalift import ir
    if isinstance(e, ir.Var):
        return m.get(e.args[0], e)
    if not isinstance(e, ir.Expr) or isinstance(e, ir.Lit):
        return e
    if isinstance(e, ir.Let):
        inner = {k: v for k, v in m.items() if k != e.args[0].args[0]}
        return ir.Let(e.args[0], subst(e.args[1], m), subst(e.args[2], inner))
    return e.map_args(lambda x: subst(x, m) if isinstance(x, ir.Expr) else x)


def flat(e):
    """Drop one-operand sums/conjunctions (the search never produces them)."""
    from metalift import ir
    if not isinstance(e, ir.Expr) or isinstance(e, (ir.Var, ir.Lit)):
        return e
    if isinstance(e, (ir.Add, ir.Mul, ir.And, ir.Or, ir.Sub)) and len(e.args) == 1:
        return flat(e.args[0])
    return e.map_args(flat)


# ---------------------------------------------------------------- problem generator
class Problem:
    pass


def hof_family(rng, which):
    """Higher-order functions: -> {name: (decl, ret, argcodes with ('F', ret, args..) for functions)}"""
    from metalift import ir
    out = {}
    F1 = ("F", "i", "i")
    F2 = ("F", "i", "i", "i")

    def fv(n, c):
        return ir.Var(n, T(c))
    xs, k, z = ir.Var("xs", T("l")), ir.Var("k", T("i")), ir.Var("z", T("i"))
    f, g = fv("f", F1), fv("g", F2)
    ln = ir.Call("list_length", T("i"), xs)
    hd, tl = ir.Call("list_get", T("i"), xs, ir.IntLit(0)), ir.Call("list_tail", T("l"), xs, ir.IntLit(1))
    if "map" in which:
        first = rng.random() < .5
        a = [f, xs] if first else [xs, f]
        t = [f, tl] if first else [tl, f]
        body = ir.Ite(ir.Lt(ln, ir.IntLit(1)), ir.Call("list_empty", T("l")),
                      ir.Call("list_prepend", T("l"), ir.CallValue(f, hd), ir.Call("map_h", T("l"), *t)))
        out["map_h"] = (ir.FnDeclRecursive("map_h", T("l"), body, *a), "l", [F1, "l"] if first else ["l", F1])
    if "fold" in which:
        body = ir.Ite(ir.Eq(ln, ir.IntLit(0)), z, ir.CallValue(g, hd, ir.Call("fold_h", T("i"), tl, z, g)))
        out["fold_h"] = (ir.FnDeclRecursive("fold_h", T("i"), body, xs, z, g), "i", ["l", "i", F2])
    if "twice" in which:
        body = ir.Add(ir.CallValue(f, ir.CallValue(f, k)), ir.IntLit(rng.randint(0, 3)))
        out["twice_h"] = (ir.FnDecl("twice_h", T("i"), body, k, f), "i", ["i", F1])
    if "map" in which and "nest" in which:      # a higher-order function that hands its function on
        h = fv("step", F1)
        m = lambda x: ir.Call("map_h", T("l"), *([h, x] if first else [x, h]))
        out["again_h"] = (ir.FnDecl("again_h", T("l"), ir.Call("list_concat", T("l"), m(m(xs)), ir.Call("list_take", T("l"), m(xs), k)),
                                    h, k, xs), "l", [F1, "i", "l"])
    if "map" in which and "fold" in which and "nest" in which:      # two function parameters
        a1, b2 = fv("val_i1_0" if rng.random() < .5 else "elem", F1), fv("comb", F2)
        m = ir.Call("map_h", T("l"), *([a1, xs] if first else [xs, a1]))
        out["mapfold_h"] = (ir.FnDecl("mapfold_h", T("i"), ir.Call("fold_h", T("i"), m, ir.CallValue(a1, z), b2), a1, xs, b2, z),
                            "i", [F1, "l", F2, "i"])
    if "pred" in which:     # boolean function value
        p = fv("p", ("F", "b", "i"))
        body = ir.Ite(ir.Lt(ln, ir.IntLit(1)), ir.IntLit(0),
                      ir.Add(ir.Ite(ir.CallValue(p, hd), ir.IntLit(1), ir.IntLit(0)), ir.Call("count_h", T("i"), tl, p)))
        out["count_h"] = (ir.FnDeclRecursive("count_h", T("i"), body, xs, p), "i", ["l", ("F", "b", "i")])
    return out


def problem(rng, feats):
    from metalift import ir
    P = Problem()
    decls, sigs = fnlib.library(rng, FEAT, depth=2, n=rng.randint(1, 4))
    hofs = {}
    if "hof" in feats:
        hofs = hof_family(rng, ([w for w in ("map", "fold", "twice", "pred") if rng.random() < .7] or ["map"]) + ["nest"] * ("nest" in feats))
    uninterp = {}
    if "unint" in feats:
        for i in range(rng.randint(1, 2)):
            args = [rng.choice(["i", "l", "b"]) for _ in range(rng.randint(1, 2))]
            ret = rng.choice(["i", "b"])
            n = f"opaque_{i}"
            uninterp[n] = (ret, args)
            decls.append(ir.FnDeclRecursive(n, T(ret), None, *[ir.Var(f"a{j}", T(a)) for j, a in enumerate(args)]))
    P.uninterp = uninterp
    allsigs = {**sigs, **uninterp}
    # functions the search defines and that the target language only announces
    P.early = {}
    fvals = {}
    if hofs:
        wanted = sorted({a for _, _, args in hofs.values() for a in args if isinstance(a, tuple) and a[0] == "F"}, key=str)
        for w in wanted:
            vals = []
            for j in range(2 if "twofns" in feats else 1):
                n = f"val_{'b' if w[1] == 'b' else 'i'}{len(w) - 2}_{j}"
                ps = [f"p{n[-1]}_{q}" for q in range(len(w) - 2)]
                body = flat(irgen.Gen(rng, NARROW, {p: "i" for p in ps}, {s: v for s, v in sigs.items() if set(v[1]) <= {"i", "l", "b"}}).expr(w[1], 2))
                if rng.random() < .5 and "early" in feats:
                    # announced only; the candidate supplies the body
                    decls.append(ir.FnDeclRecursive(n, T(w[1]), None, *[ir.Var(p, T("i")) for p in ps])
                                 if "early_rec" in feats else ir.FnDecl(n, T(w[1]), None, *[ir.Var(p, T("i")) for p in ps]))
                    P.early[n] = ir.FnDeclRecursive(n, T(w[1]), body, *[ir.Var(p, T("i")) for p in ps])
                else:
                    decls.append(ir.FnDecl(n, T(w[1]), body, *[ir.Var(p, T("i")) for p in ps]))
                vals.append(n)
            fvals[w] = vals
    P.hofs = {n: d for n, (d, _, _) in hofs.items()}
    small = {s: v for s, v in sigs.items() if set(v[1]) <= {"i", "l", "b"}}
    decls += list(P.hofs.values())
    P.decls = decls
    chosen = {}

    def hof_call(scope, depth):
        n = rng.choice(sorted(hofs))
        _, ret, args = hofs[n]
        out = []
        for a in args:
            if isinstance(a, tuple) and a[0] == "F":
                if "lambda" in feats and rng.random() < .3:
                    ps = [f"lam{rng.randint(0, 2)}_{q}" for q in range(len(a) - 2)]
                    out.append(ir.Lambda(T(a[1]), flat(irgen.Gen(rng, NARROW, {p: "i" for p in ps}, small).expr(a[1], 2)),
                                         *[ir.Var(p, T("i")) for p in ps]))
                    continue
                pick = rng.choice(fvals[a])
                chosen.setdefault(n, set()).add(pick)
                out.append(ir.Var(pick, T(a)))
            else:
                out.append(expr(a, scope, depth - 1))
        return ret, ir.Call(n, T(ret), *out)

    def expr(code, scope, depth, fns=None):
        """Random expression, with higher-order calls grafted onto placeholder variables."""
        fns = allsigs if fns is None else fns
        holes = {}
        sc = dict(scope)
        if hofs and depth > 0 and rng.random() < .6:
            for i in range(rng.randint(1, 2)):
                ret, call = hof_call(scope, depth - 1)
                h = f"hole{rng.randrange(10**9)}"
                holes[h] = call
                sc[h] = ret
        e = irgen.Gen(rng, FEAT, sc, fns).expr(code, depth)
        if holes and rng.random() < .8 and not uses(e, holes):   # make sure a hole is used
            h = sorted(holes)[0]
            hv = ir.Var(h, T(sc[h]))
            extra = ir.Eq(hv, hv) if False else (ir.Le(hv, ir.IntLit(3)) if sc[h] == "i" else hv if sc[h] == "b"
                                                 else ir.Lt(ir.Call("list_length", T("i"), hv), ir.IntLit(3)))
            if code == "b":
                e = ir.Or(e, extra)
            else:
                e = ir.Ite(extra, e, irgen.Gen(rng, FEAT, sc, fns).expr(code, 1))
        return flat(subst(e, holes))

    if hofs and "users" in feats:
        for i in range(rng.randint(1, 2)):
            ps = {"up": "i", "uq": "l"}
            ret = rng.choice(["i", "l", "b"])
            e = expr(ret, ps, 3)
            decls.append(ir.FnDecl(f"user_{i}", T(ret), e, *[ir.Var(p, T(k)) for p, k in ps.items()]))
            allsigs[f"user_{i}"] = (ret, list(ps.values()))
    # synthesized functions
    P.cands, P.candsig = [], {}
    order = []
    for i in range(rng.randint(1, 3)):
        n = rng.choice(["prog_inv", "prog_ps", "inv", "cand"]) + str(i)
        ret = "b" if rng.random() < .8 else rng.choice(["i", "l"])
        args = [rng.choice([t for t in FEAT["types"]]) for _ in range(rng.randint(1, 4))]
        order.append((n, ret, args))
    done = {}
    for n, ret, args in order:
        ps = [f"{rng.choice('uvw')}_{n}_{j}" if rng.random() < .5 else f"arg{j}" for j in range(len(args))]
        body = expr(ret, dict(zip(ps, args)), 3, {**allsigs, **done})
        P.cands.append(ir.FnDeclRecursive(n, T(ret), body, *[ir.Var(p, T(a)) for p, a in zip(ps, args)]))
        done[n] = (ret, args)
        P.candsig[n] = (ret, args)
    P.cands += list(P.early.values())
    for n, d in P.early.items():
        P.candsig[n] = ("b" if "_b" in n else "i", ["i"] * len(d.arguments()))
    if "shuffle" in feats:
        rng.shuffle(P.cands)
    if "shuffle" in feats:
        rng.shuffle(decls)
    # verification condition
    scope = {}
    for i in range(rng.randint(2, 6)):
        scope[rng.choice(["i", "acc", "data", "out", "base_k", "x"]) + (str(i) if rng.random() < .8 else "_i%d" % i)] = rng.choice(FEAT["types"])
    P.scope = scope
    vcfns = {**allsigs, **done, **done, **done}
    parts = []
    for n, (ret, args) in done.items():
        g = irgen.Gen(rng, FEAT, scope, done)
        call = ir.Call(n, T(ret), *[g.expr(a, 1) for a in args])
        parts.append(call if ret == "b" else ir.Eq(call, g.expr(ret, 1)) if ret == "i" else ir.Eq(ir.Call("list_length", T("i"), call), g.expr("i", 1)))
    parts.append(expr("b", scope, 3, vcfns) if "vchof" in feats else irgen.Gen(rng, FEAT, scope, vcfns).expr("b", 3))
    rng.shuffle(parts)
    vc = parts[0]
    for p in parts[1:]:
        vc = rng.choice([ir.Implies, ir.And, ir.Or])(vc, p)
    P.vc = vc
    chosen.clear()      # what is really used
    for e in [vc, *[d.body() for d in P.cands], *[d.body() for d in decls if d.name() not in P.hofs]]:
        used_values(e, P.hofs, {v for vs in fvals.values() for v in vs}, chosen)
    # axioms over plain functions (the emitted text only has to say what the object says)
    P.axioms, P.leftout = [], []
    if "axioms" in feats:
        for i in range(rng.choice([1, 2, 3, 3, 10])):
            sc = {f"q{j}": rng.choice(["i", "l", "m", "b"]) for j in range(rng.randint(1, 3))}
            if "left-out" in feats and chosen and rng.random() < .5:
                n = rng.choice(sorted(chosen))
                _, ret, args = hofs[n]
                if sum(isinstance(a, tuple) for a in args) == 1:
                    sc2 = {f"q{j}": a for j, a in enumerate(args) if not isinstance(a, tuple)}
                    base = irgen.Gen(rng, FEAT, {**sc2, "hole": ret, "zz": "i"}, sigs).expr("b", 2)
                    sc2["zz"] = "i"
                    hv = ir.Var("hole", T(ret))
                    base = ir.Or(ir.Lt(hv if ret == "i" else ir.Call("list_get", T("i"), ir.Call("list_append", T("l"), hv, ir.IntLit(0)), ir.IntLit(0)),
                                       ir.Var("zz", T("i"))), ir.And(base, ir.BoolLit(rng.random() < .5)))
                    mk = lambda v: subst(base, {"hole": ir.Call(n, T(ret), *[x for j, a in enumerate(args) for x in (
                        ([ir.Var(v, T(a))] if v else []) if isinstance(a, tuple) else [ir.Var(f"q{j}", T(a))])])})
                    P.leftout.append((ir.Axiom(mk(None), *[ir.Var(v, T(k)) for v, k in sc2.items()]), sc2, [mk(v) for v in sorted(chosen[n])]))
                    continue
            if hofs and rng.random() < .6 and chosen:
                n = rng.choice(sorted(chosen))
                _, ret, args = hofs[n]
                sc2 = {f"q{j}": a for j, a in enumerate(args) if not isinstance(a, tuple)}
                call = ir.Call(n, T(ret), *[ir.Var(rng.choice(fvals[a]), T(a)) if isinstance(a, tuple) else ir.Var(f"q{j}", T(a)) for j, a in enumerate(args)])
                e = subst(irgen.Gen(rng, FEAT, {**sc2, "hole": ret}, sigs).expr("b", 2), {"hole": call})
                e = ir.Implies(e, ir.Eq(call, call)) if ret == "i" else ir.Implies(e, e)
                P.axioms.append((ir.Axiom(e, *[ir.Var(v, T(k)) for v, k in sc2.items()]), sc2))
            else:
                e = irgen.Gen(rng, FEAT, sc, sigs).expr("b", 3)
                P.axioms.append((ir.Axiom(e, *[ir.Var(v, T(k)) for v, k in sc.items()]), sc))
    P.chosen = chosen
    P.fns = {d.name(): d for d in P.decls if d.body() is not None}
    P.fns.update({d.name(): d for d in P.cands})
    return P


def used_values(e, hofs, values, out):
    from metalift import ir
    if not isinstance(e, ir.Expr):
        return
    if isinstance(e, ir.Call) and e.name() in hofs:
        fs = [a for a in e.arguments() if ir.is_fn_decl_type(a.type)]
        if fs and all(isinstance(a, ir.Var) and a.args[0] in values for a in fs):
            out.setdefault(e.name(), set()).update(a.args[0] for a in fs)
    for a in e.args:
        used_values(a, hofs, values, out)


def uses(e, names):
    from metalift import ir
    if isinstance(e, ir.Var):
        return e.args[0] in names
    return isinstance(e, ir.Expr) and any(uses(a, names) for a in e.args if isinstance(a, ir.Expr))


# ---------------------------------------------------------------- driving the real code
def drive(P, uid):
    """-> (text, verdict). The solver is /bin/true: an empty answer."""
    from metalift import ir
    from metalift.synthesis_common import generate_types, verify_synth_result
    target = [*P.decls, *[a for a, _ in P.axioms], *[a for a, _, _ in P.leftout]]
    vs = {ir.Var(n, T(k)) for n, k in P.scope.items()}
    fnst = generate_types(target)
    infos = [ir.Synth(d.name(), d.body(), *d.arguments()) for d in P.cands]
    fnst.update({d.name(): d.type for d in P.cands})
    cd = {d.name(): d.body() for d in P.cands}
    d = boot.scratch() + "/c12/"
    os.makedirs(d, exist_ok=True)
    with quiet():
        r = verify_synth_result("prob", target, vs, [], P.vc, infos, "/bin/true", d, P.cands, cd, fnst, uid)
    return open(d + f"prob_{uid}.smt").read(), r


BUILTIN = set()


def statics(text):
    """-> (commands, message or None): declared exactly once and before use."""
    base = smteval.library()
    try:
        cmds = sexp.read_all(text)
    except sexp.ReadError as x:
        return None, f"unreadable: {x}"
    return cmds, None


KEYW = {"assert", "forall", "exists", "let", "ite", "and", "or", "not", "=>", "=", "<", "<=", ">", ">=", "+", "-", "*", "div", "mod",
        "true", "false", "as", "distinct", "xor", "abs",
        "set.empty", "set.singleton", "set.union", "set.minus", "set.inter", "set.member", "set.subset", "set.insert", "set.card"}


class Scope:
    """Names in order of declaration; a use before (or without) a declaration is an error."""

    def __init__(self):
        self.fns, self.sorts, self.errs = {}, set(), []

    def decl(self, n, what, form):
        n = str(n)
        if n in self.fns:
            self.errs.append(f"{n} is declared twice ({self.fns[n]}, {what})")
        self.fns[n] = what

    def cmds(self, cmds):
        for f in cmds:
            h = f[0]
            if h == "declare-datatypes":
                for (nm, _), body in zip(f[1], f[2]):
                    if body and body[0] == "par":
                        body = body[2]
                    for ctor in body:
                        ctor = ctor if isinstance(ctor, list) else [ctor]
                        self.decl(ctor[0], "constructor", f)
                        for sel in ctor[1:]:
                            self.decl(sel[0], "selector", f)
            elif h == "declare-datatype":
                body = f[2][2] if f[2] and f[2][0] == "par" else f[2]
                for ctor in body:
                    ctor = ctor if isinstance(ctor, list) else [ctor]
                    self.decl(ctor[0], "constructor", f)
                    for sel in ctor[1:]:
                        self.decl(sel[0], "selector", f)
            elif h in ("define-fun", "define-fun-rec"):
                ps = {str(p[0]) for p in f[2]}
                if len(ps) != len(f[2]):
                    self.errs.append(f"{f[1]} has repeated parameters")
                if h == "define-fun-rec":
                    self.decl(f[1], h, f)
                    self.use(f[4], ps, f[1])
                else:
                    self.use(f[4], ps, f[1])
                    self.decl(f[1], h, f)
            elif h == "define-funs-rec":
                for sig in f[1]:
                    self.decl(sig[0], h, f)
                for sig, b in zip(f[1], f[2]):
                    self.use(b, {str(p[0]) for p in sig[1]}, sig[0])
            elif h in ("declare-fun", "declare-const", "declare-var"):
                self.decl(f[1], h, f)
            elif h in ("assert", "constraint"):
                self.use(f[1], set(), "an assertion")
            elif h in ("declare-sort", "define-sort", "set-logic", "set-option", "check-sat", "get-model", "check-synth", "synth-fun", "set-info"):
                pass
            else:
                self.errs.append(f"unexpected command {h}")

    def use(self, e, bound, where):
        if isinstance(e, Sym):
            s = str(e)
            if s.isdigit():
                return
            if s not in bound and s not in self.fns and s not in KEYW and not s.startswith(":"):
                self.errs.append(f"{s} used in {where} but not declared before")
            return
        if not isinstance(e, list):
            return
        if not e:
            self.errs.append(f"() used in {where}")
            return
        if e[0] in ("forall", "exists"):
            return self.use(e[2], bound | {str(p[0]) for p in e[1]}, where)
        if e[0] == "let":
            for b in e[1]:
                self.use(b[1], bound, where)
            return self.use(e[2], bound | {str(b[0]) for b in e[1]}, where)
        if e[0] == "as":
            return self.use(e[1], bound, where)
        if e[0] == "!":
            return self.use(e[1], bound, where)
        if e[0] == "_":
            return
        for x in e:
            self.use(x, bound, where)


def model_of(P, salt):
    """Python functions for the uninterpreted symbols, shared by both sides."""
    import hashlib
    out = {}
    for n, (ret, args) in P.uninterp.items():
        def f(*a, n=n, ret=ret):
            h = int.from_bytes(hashlib.sha256(repr((salt, n, a)).encode()).digest()[:4], "big")
            return h % 2 == 0 if ret == "b" else h % 9 - 4
        out[n] = f
    return out


def check_text(c, P, text, rng, tag):
    """All oracles on one emitted file. -> list of (mech, msg)"""
    bad = []
    try:
        cmds = sexp.read_all(text)
    except sexp.ReadError as x:
        return [("unreadable", str(x))]
    sc = Scope()
    sc.cmds(cmds)
    for e in sc.errs[:2]:
        bad.append(("scoping", e))
    if bad:
        return bad
    heads = [f[0] for f in cmds]
    if heads.count("check-sat") != 1 or (heads.index("check-sat") < max(i for i, h in enumerate(heads) if h in ("assert", "declare-const", "define-fun"))):
        bad.append(("check-sat", f"exactly one (check-sat) must follow everything, got {[h for h in heads if h not in ('define-fun', 'define-fun-rec', 'assert')]}"))
        return bad
    models = model_of(P, rng.randrange(10**6))
    smt = smteval.Smt(models={**smteval.DECLARED, **models}, fuel=200000)
    try:
        for f in cmds:
            smt.command(f)
    except smteval.SmtError as x:
        return [("ill-formed", str(x))]
    # constants
    want = {n: c04sort(k) for n, k in P.scope.items()}
    got = {str(f[1]): sexp.show(f[2]) for f in cmds if f[0] == "declare-const"}
    if got != want:
        bad.append(("constants", f"variables {want} declared as {got}"))
    lib = len([1 for n in smteval.LIBS for f in sexp.read_all(open(os.path.join(boot.REPO, "metalift/utils", n)).read()) if f[0] == "assert"])
    asserts = [f[1] for f in cmds if f[0] == "assert"][lib:]
    ground = [a for a in asserts if not (isinstance(a, list) and a[0] == "forall")]
    if len(ground) != 1 or asserts[-1] is not ground[0]:
        bad.append(("assertion", f"expected exactly one ground assertion, found {[sexp.show(a)[:200] for a in ground]}"))
        return bad
    refs = {**P.fns, **models}
    # the synthesized and announced functions
    defined = 0
    for d in P.cands:
        n = d.name()
        ret, args = P.candsig[n]
        if n not in smt.fns:
            bad.append(("missing-definition", f"synthesized {n} is not defined"))
            continue
        hits = 0
        for _ in range(16):
            if hits >= 5:
                break
            vals = [irgen.rand_val(rng, a) for a in args]
            try:
                ref = irgen.RectEv(refs).call(d, vals)
            except (ireval.Undefined, RecursionError):
                continue
            defined += 1
            hits += 1
            c.count("candidate_evaluations")
            try:
                smt.fuel = smt.fuel0
                g = smt.apply(n, list(vals))
                if not ireval.same(ref, g):
                    bad.append(("candidate-meaning", f"{n}{tuple(vals)!r}: file computes {g!r}, the synthesized function computes {ref!r}"))
                    break
            except (ireval.Undefined, smteval.SmtError, ireval.EvalError, RecursionError) as x:
                bad.append(("candidate-meaning", f"{n}{tuple(vals)!r}: {type(x).__name__} {x}; the synthesized function computes {ref!r}"))
                break
    # helper functions of the target language that kept their name
    for d in P.decls:
        if d.body() is None or d.name() in P.hofs or d.name() not in smt.fns:
            continue
        codes = [code_of(a.type) for a in d.arguments()]
        if None in codes:
            continue
        for _ in range(2):
            vals = [irgen.rand_val(rng, a) for a in codes]
            try:
                ref = irgen.RectEv(refs).call(d, vals)
            except (ireval.Undefined, RecursionError):
                continue
            c.count("helper_evaluations")
            try:
                smt.fuel = smt.fuel0
                g = smt.apply(d.name(), list(vals))
            except (ireval.Undefined, smteval.SmtError, ireval.EvalError, RecursionError) as x:
                g = x
            if isinstance(g, Exception) or not ireval.same(ref, g):
                bad.append(("helper-meaning", f"{d.name()}{tuple(vals)!r}: file computes {g!r}, the declaration computes {ref!r}"))
                break
    # the condition
    seen, before = set(), c.counters.get("valuations", 0)
    for _ in range(c.n(40, 80)):
        if c.counters.get("valuations", 0) - before >= c.n(10, 25):
            break
        env = irgen.rand_env(rng, P.scope)
        try:
            ref = irgen.RectEv(refs).ev(P.vc, env)
        except (ireval.Undefined, RecursionError):
            c.count("undefined_valuation")
            continue
        c.count("valuations")
        seen.add(ref)
        try:
            smt.fuel = smt.fuel0
            g = smt.value(ground[0], env)
        except (ireval.Undefined, smteval.SmtError, ireval.EvalError, RecursionError) as x:
            g = x
        if isinstance(g, Exception) or g is not (not ref):
            bad.append(("condition-meaning", f"condition is {ref} on {env} but the asserted formula is {g!r}"))
            break
        if not ref:
            P.cex = env
    c.count("condition_true" if True in seen else "condition_never_true")
    c.count("condition_false" if False in seen else "condition_never_false")
    # axioms
    quant = [a for a in asserts if isinstance(a, list) and a[0] == "forall"]
    own = quant
    rest = own[len(P.axioms):]
    own = own[:len(P.axioms)]
    if len(own) != len(P.axioms) or (rest and not P.leftout):
        bad.append(("axioms", f"{len(P.axioms)} axioms given, {len(own) + len(rest)} in the file"))
    else:
        for (ax, asc), q in zip(P.axioms, own):
            names = [str(p[0]) for p in q[1]]
            if names != list(asc) or [sexp.show(p[1]) for p in q[1]] != [c04sort(k) for k in asc.values()]:
                bad.append(("axiom-binders", f"axiom over {asc} written over {sexp.show(q[1])}"))
                continue
            for _ in range(4):
                env = irgen.rand_env(rng, asc)
                try:
                    ref = irgen.RectEv(refs).ev(ax.e(), env)
                except (ireval.Undefined, RecursionError):
                    continue
                c.count("axiom_evaluations")
                try:
                    smt.fuel = smt.fuel0
                    g = smt.value(q[2], env)
                except (ireval.Undefined, smteval.SmtError, ireval.EvalError, RecursionError) as x:
                    g = x
                if isinstance(g, Exception) or g is not ref:
                    bad.append(("axiom-meaning", f"axiom {ax.e()!r} is {ref} on {env}; as written it is {g!r}: {sexp.show(q)}"))
                    break
    # axioms that leave the function argument out: one instance per function in use, each saying what the axiom says
    def row(fn, envs):
        r = []
        for e in envs:
            try:
                smt.fuel = smt.fuel0
                r.append(fn(e))
            except (ireval.Undefined, RecursionError):
                r.append(None)
            except (ireval.EvalError, smteval.SmtError) as x:
                r.append(x)
        return r
    if P.leftout:
        insts = []
        for ax, asc, want in P.leftout:
            envs = [irgen.rand_env(rng, asc, maxlen=3) for _ in range(25)]
            cand = [q for q in rest if [str(p[0]) for p in q[1]] == list(asc)]
            rows = [row(lambda e, q=q: smt.value(q[2], e), envs) for q in cand]
            for w in want:
                ref = row(lambda e: irgen.RectEv(refs).ev(w, e), envs)
                c.count("left_out_axioms")
                if not any(all(x is None or x == y for x, y in zip(ref, got)) for got in rows):
                    bad.append(("axiom-left-out", f"no instance of {ax.e()!r} in the file says {w!r}; the file has {[sexp.show(q) for q in cand]}"))
                    break
    if defined and seen:
        c.nontrivial((tag, text))
    return bad


def c04sort(k):
    from checks import c04
    return c04.sort(k)


def code_of(t):
    for k in FEAT["types"] + ["B", "t"]:
        if T(k) == t:
            return k
    return None


LEVELS = [
    ("plain", ["shuffle"]),
    ("opaque", ["shuffle", "unint"]),
    ("axioms", ["shuffle", "axioms", "unint"]),
    ("hof", ["shuffle", "hof"]),
    ("early", ["shuffle", "hof", "early"]),
    ("hof-axioms", ["shuffle", "hof", "early", "axioms"]),
    ("two-values", ["shuffle", "hof", "early", "twofns"]),
    ("nested", ["shuffle", "hof", "early", "nest", "users", "vchof"]),
    ("lambdas", ["shuffle", "hof", "early", "twofns", "lambda", "nest"]),
    ("left-out", ["shuffle", "hof", "early", "twofns", "axioms", "left-out"]),
    ("all", ["shuffle", "hof", "early", "early_rec", "twofns", "axioms", "unint", "nest", "users", "vchof", "lambda", "left-out"]),
]


def run(c):
    import itertools
    uid = itertools.count()
    per = c.n(30, 200)
    for k, n in (('valuations', 800), ('candidate_evaluations', 1500), ('axiom_evaluations', 200), ('left_out_axioms', 20), ('parsed_by_cvc5', 200)):
        c.require(k, n)
    texts = []
    only = os.environ.get("C12_LEVEL")
    for name, feats in LEVELS:
        if only and name != only:
            continue
        for i in range(per):
            if c.out_of_time(400, 3000):
                break
            rng = c.rng(name, i)
            P = problem(rng, feats)
            P.cex = None
            before = [repr(x) for x in [*P.decls, *P.cands, *[a for a, _ in P.axioms], *[a for a, _, _ in P.leftout], P.vc]]
            c.case((name, i))
            c.count("problems_" + name)
            try:
                text, r = drive(P, next(uid))
            except Exception as x:
                import traceback
                c.fail(f"crash-{name}", f"assembling the problem raised {type(x).__name__}: {x}\n{traceback.format_exc()[-600:]}")
                continue
            after = [repr(x) for x in [*P.decls, *P.cands, *[a for a, _ in P.axioms], *[a for a, _, _ in P.leftout], P.vc]]
            if before != after:
                k = next(j for j in range(len(before)) if before[j] != after[j])
                c.fail("inputs-changed-" + name, f"writing the file changed a declaration handed in:\n  {before[k]}\n  {after[k]}")
            for mech, msg in check_text(c, P, text, rng, name):
                c.fail(f"{mech}-{name}", f"{msg}\n{own_part(text)}")
            texts.append((name, P, text))
            if len(c.samples) < 3:
                c.sample(own_part(text)[:700])
    parse_all(c, texts)


def own_part(text):
    """The file without the fixed library prefix."""
    k = 0
    for n in smteval.LIBS:
        s = open(os.path.join(boot.REPO, "metalift/utils", n)).read()
        p = text.find(s.strip())
        if p >= 0:
            k = max(k, p + len(s.strip()))
    return text[k:].strip()[:3000]


def parse_all(c, texts):
    for name, P, text in texts:
        p = os.path.join(boot.scratch(), "c12.smt")
        open(p, "w").write(text)
        r = subprocess.run(["cvc5", "--lang=smt", "--parse-only", p], capture_output=True, text=True, timeout=120)
        c.count("parsed_by_cvc5")
        if r.returncode or "rror" in r.stdout:
            c.fail(f"solver-rejects-{name}", f"{r.stdout.strip()[:400]}\n{own_part(text)}")
    n = 0
    for name, P, text in texts:
        if P.cex is None or n >= c.n(20, 150):
            continue
        n += 1
        p = os.path.join(boot.scratch(), "c12s.smt")
        open(p, "w").write("\n".join(l for l in text.split("\n") if "get-model" not in l))
        r = subprocess.run(["cvc5", "--lang=smt", "--tlimit=700", p], capture_output=True, text=True, timeout=120)
        c.count("solver_on_refutable")
        if r.stdout.strip().split("\n")[0] == "unsat" and not P.axioms and not P.leftout:
            c.fail(f"unsat-{name}", f"cvc5 claims the condition valid, but it is false on {P.cex}\n{own_part(text)}")


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
