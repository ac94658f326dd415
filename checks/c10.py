"""C10: the search grammar handed to the synthesizer denotes exactly its choices.

Monitor: random grammars (nested, shared and repeated choice points, choices in every operand position)
go through the real `synthesize` of both back ends with a recording stand-in for the solver; the grammar
is read out of the file that the solver was given and enumerated, and the set of functions it denotes is
compared with the set obtained by picking one alternative at each choice point of the expression.
"""
import os, sys, re, itertools, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, fnlib, ireval, boot, sexp, fakeproc, smteval, rkteval
from mon.harness import quiet
from mon.sexp import Sym

PID, LEVEL = "C10", "exploration"
RULE = "a grammar with at least two choice points and at least three members, enumerated from the file handed to the solver"
T = irgen.ty
ROS = {**irgen.ROS}
SYG = {**irgen.SMT, "let": False, "types": ["i", "b", "l", "s", ("T", "i", "i"), "m"]}
CAP = 260
PARAMS = [("i0", "i"), ("i1", "i"), ("b0", "b"), ("l0", "l"), ("l1", "l"), ("m0", "m"), ("s0", "s"), ("p0", ("T", "i", "i"))]


def members(e, cap=CAP):
    """Every expression obtained by picking one alternative at each choice point (None if more than cap)."""
    from metalift import ir
    import copy
    if not isinstance(e, ir.Expr) or isinstance(e, (ir.Var, ir.Lit)):
        return [e]
    if isinstance(e, ir.Choose):
        out = []
        for a in e.args:
            m = members(a, cap)
            if m is None or len(out) + len(m) > cap:
                return None
            out += m
        return out
    parts, tot = [], 1
    for a in e.args:
        m = members(a, cap)
        if m is None:
            return None
        tot *= len(m)
        if tot > cap:
            return None
        parts.append(m)
    if tot == 1 and all(len(p) == 1 and p[0] is a for p, a in zip(parts, e.args)):
        return [e]
    out = []
    for combo in itertools.product(*parts):
        x = copy.copy(e)
        x.args = tuple(combo) if isinstance(e.args, tuple) else list(combo)
        out.append(x)
    return out


def code(t):
    for _, c in PARAMS:
        if T(c) == t:
            return c
    return None


class Grammar:
    """Random expression with choice points."""

    def __init__(self, rng, feat, scope, fns):
        self.rng, self.feat, self.scope, self.fns = rng, feat, scope, fns
        self.pool = {}
        self.points = 0

    def plain(self, c, d):
        for _ in range(6):
            e = irgen.Gen(self.rng, self.feat, self.scope, self.fns).expr(c, d)
            if e.type == T(c) and irgen.size(e) < 14:
                return flat(e)
        return flat(irgen.Gen(self.rng, self.feat, self.scope, self.fns).expr(c, 0))

    def choice(self, c, d):
        from metalift import ir
        r = self.rng
        if self.pool.get(c) and r.random() < .35:
            return r.choice(self.pool[c])
        alts = [self.expr(c, d - 1) for _ in range(r.choice([1, 2, 2, 2, 3]))]
        if r.random() < .25 and c in ("i", "b"):
            # alternatives that only differ in one detail
            v = self.plain(c, 1)
            alts.append(ir.Add(v, ir.IntLit(1)) if c == "i" else ir.Not(v))
            alts.append(ir.Add(v, ir.IntLit(2)) if c == "i" else ir.Not(ir.Not(v)))
        self.points += 1
        ch = ir.Choose(*alts)
        self.pool.setdefault(c, []).append(ch)
        return ch

    def expr(self, c, d):
        """Plain expression in which random subterms are choice points."""
        if d <= 0:
            return self.plain(c, 1)
        if self.rng.random() < .35:
            return self.choice(c, d)
        return self.punch(self.plain(c, 2), d, frozenset())

    def punch(self, e, d, bound):
        from metalift import ir
        if not isinstance(e, ir.Expr) or isinstance(e, (ir.Lambda,)) or ir.is_fn_decl_type(e.type):
            return e
        c = code(e.type)
        # a choice point only mentions the parameters of the function, so none of them may be shadowed here
        if c is not None and not bound & set(self.scope) and self.rng.random() < .3:
            return self.choice(c, d)
        if isinstance(e, (ir.Var, ir.Lit, ir.TupleGet)):
            return e
        if isinstance(e, ir.Call):
            if e.name() == "tupleGet":
                return e
            return ir.Call(e.name(), e.type, *[self.punch(a, d - 1, bound) for a in e.arguments()])
        if isinstance(e, ir.Let):
            return ir.Let(e.args[0], self.punch(e.args[1], d - 1, bound), self.punch(e.args[2], d - 1, bound | {e.args[0].args[0]}))
        if isinstance(e, ir.CallValue):
            return e
        return e.map_args(lambda a: self.punch(a, d - 1, bound))


def flat(e):
    from metalift import ir
    if not isinstance(e, ir.Expr) or isinstance(e, (ir.Var, ir.Lit)):
        return e
    if isinstance(e, (ir.Add, ir.Mul, ir.And, ir.Or, ir.Sub)) and len(e.args) == 1:
        return flat(e.args[0])
    return e.map_args(flat)


def tower(rng, c, n, feat, scope, wrap=False):
    """Choice points nested n levels deep; with wrap, inside an expression that is none itself."""
    from metalift import ir
    g = Grammar(rng, feat, scope, {})
    e = g.plain(c, 1)
    for k in range(n):
        e = ir.Choose(ir.Add(e, ir.IntLit(1)) if c == "i" else ir.Not(e), *([ir.IntLit(100 + k)] if c == "i" else [])[:rng.randint(0, 1)])
        if rng.random() < .5 and c == "i":
            e = ir.Mul(ir.IntLit(2), e)
    if wrap and c == "i":
        e = ir.Add(e, ir.IntLit(7))
    elif not wrap and isinstance(e, ir.Mul) and c == "i":
        e = e.args[1]
    return e


def count_points(e):
    from metalift import ir
    if not isinstance(e, ir.Expr):
        return 0
    return isinstance(e, ir.Choose) + sum(count_points(a) for a in e.args)


# ------------------------------------------------------------------ languages of the emitted grammars
class Bad(Exception):
    pass


def lang_rkt(f, prods, depth, cap):
    if isinstance(f, list) and len(f) == 1 and isinstance(f[0], Sym) and str(f[0]) in prods:
        if depth <= 0:
            return []
        return lang_rkt(prods[str(f[0])], prods, depth - 1, cap)
    if isinstance(f, list) and f and f[0] == Sym("choose"):
        out = []
        for a in f[1:]:
            out += lang_rkt(a, prods, depth, cap)
            if len(out) > cap:
                raise Bad("more members than the grammar has")
        return out
    if isinstance(f, list):
        parts = [lang_rkt(x, prods, depth, cap) for x in f]
        n = 1
        for p in parts:
            n *= len(p)
        if n > cap:
            raise Bad("more members than the grammar has")
        return [list(x) for x in itertools.product(*parts)]
    return [f]


def lang_smt(f, prods, cap):
    if isinstance(f, Sym) and str(f) in prods:
        out = []
        for a in prods[str(f)]:
            out += lang_smt(a, prods, cap)
            if len(out) > cap:
                raise Bad("more members than the grammar has")
        return out
    if isinstance(f, list):
        parts = [lang_smt(x, prods, cap) for x in f]
        n = 1
        for p in parts:
            n *= len(p)
        if n > cap:
            raise Bad("more members than the grammar has")
        return [list(x) for x in itertools.product(*parts)]
    return [f]


def distinct(xs):
    return list({sexp.show(x): x for x in xs}.values())


def read_rosette(text, name, cap):
    """(parameters of the function, expression forms it ranges over, in terms of its own parameters)."""
    forms = sexp.read_all("\n".join(l for l in text.splitlines() if not l.startswith("#lang")), racket=True)
    grams = [f for f in forms if isinstance(f, list) and f[0] == Sym("define-grammar") and f[1][0] == Sym(name + "_gram")]
    defs = [f for f in forms if isinstance(f, list) and f[0] == Sym("define") and isinstance(f[1], list) and f[1][0] == Sym(name)]
    if len(grams) != 1 or len(defs) != 1:
        raise Bad(f"{len(grams)} grammars and {len(defs)} definitions for {name}")
    g, d = grams[0], defs[0]
    gp, dp, call = [str(x) for x in g[1][1:]], [str(x) for x in d[1][1:]], d[2]
    if len(set(gp)) != len(gp) or len(set(dp)) != len(dp):
        raise Bad("duplicate parameters")
    prods = {}
    for p in g[2:]:
        if str(p[0]) in prods:
            raise Bad(f"nonterminal {p[0]} defined twice")
        if str(p[0]) in gp:
            raise Bad(f"nonterminal {p[0]} is also a parameter")
        if len(p) != 2:
            raise Bad(f"nonterminal {p[0]} has {len(p) - 1} rules")
        prods[str(p[0])] = p[1]
    if call[0] != Sym(name + "_gram"):
        raise Bad("the definition does not use its grammar")
    args, depth = [], 2
    i = 1
    while i < len(call):
        if call[i] == Sym("#:depth"):
            depth = call[i + 1]
            i += 2
        else:
            args.append(call[i])
            i += 1
    if len(args) != len(gp):
        raise Bad("arguments and parameters of the grammar differ")
    first = str(g[2][0])
    members_ = lang_rkt(prods[first], prods, int(depth), cap)
    if [str(a) for a in args] != gp:
        sub = dict(zip(gp, args))
        members_ = [[Sym("let"), [[Sym(k), v] for k, v in sub.items()], m] for m in members_]
    return dp, distinct(members_)


def read_sygus(text, name, cap):
    forms = sexp.read_all(text)
    fs = [f for f in forms if f and f[0] == Sym("synth-fun") and f[1] == Sym(name)]
    if len(fs) != 1:
        raise Bad(f"{len(fs)} synth-fun commands for {name}")
    f = fs[0]
    params = [(str(p[0]), sexp.show(p[1])) for p in f[2]]
    ret, decls, rules = sexp.show(f[3]), f[4], f[5]
    ds = [(str(d[0]), sexp.show(d[1])) for d in decls]
    rs = [(str(d[0]), sexp.show(d[1])) for d in rules]
    if ds != rs:
        raise Bad("nonterminal declarations and rules do not match")
    names = [n for n, _ in ds] + [n for n, _ in params]
    if len(set(names)) != len(names):
        raise Bad(f"symbol declared twice: {names}")
    if rs[0][1] != ret:
        raise Bad(f"start symbol of sort {rs[0][1]}, function of sort {ret}")
    prods = {n: r[2] for (n, _), r in zip(ds, rules)}
    sorts = {n: (s, distinct(lang_smt(Sym(n), prods, cap))) for n, s in ds}
    return params, ret, sorts[rs[0][0]][1], sorts


def fits(v, sort):
    """Does the value belong to the sort (as far as a value shows it)?"""
    s = sort.replace("(", " ").replace(")", " ").split()
    if s[0] == "Int":
        return isinstance(v, int) and not isinstance(v, bool)
    if s[0] == "Bool":
        return isinstance(v, bool)
    if s[0] == "MLList":
        if not isinstance(v, tuple) or isinstance(v, ireval.TupV):
            return False
        inner = re.match(r"\(MLList (.*)\)$", sort)
        return all(fits(x, inner.group(1)) for x in v)
    if s[0] == "Set":
        return isinstance(v, frozenset)
    return True


# ------------------------------------------------------------------ the emitted files
def record(which, decls, synths, tag="t"):
    """Text of the file that the synthesizer is started on."""
    from metalift import ir, synthesize_rosette as sr, synthesize_cvc5 as sc
    seen = {}

    def solver(w, argv, p):
        seen["text"] = open(argv[-1]).read()
        w.at(.1, lambda: setattr(p, "_rc", 1))
    w = fakeproc.World()
    w.programs = [(lambda a: True, solver)]
    vv = ir.Var("vv", ir.Int)
    err = None
    with w, quiet():
        try:
            mod = sr if which == "rosette" else sc
            mod.synthesize(tag, list(decls), {vv}, list(synths), [], ir.Le(vv, ir.IntLit(3)), list(synths), "cvc5",
                           **({"no_verify": True, "log": False} if which == "rosette" else {}))
        except Exception as x:
            err = x
    return seen.get("text"), err


def names_for(rng):
    """Parameter names, some of them names a grammar could use for itself."""
    ps = list(PARAMS)
    ren = {}
    if rng.random() < .3:
        ren[rng.choice(["i0", "i1", "l0", "b0"])] = rng.choice(["v0", "v1", "rv", "v2"])
    return [(ren.get(n, n), c) for n, c in ps]


SHRINK = [0]


def case(c, rng, i, which, e=None, params=None):
    from metalift import ir
    feat = ROS if which == "rosette" else SYG
    decls, sigs = fnlib.library(rng, feat, depth=2, n=1) if rng.random() < .4 else ([], {})
    sigs = {k: v for k, v in sigs.items() if all(code(T(x)) for x in [v[0], *v[1]])}
    synths, exps = [], {}
    for q in range(rng.choice([1, 1, 2])):
        name = ["f", "prog_inv0"][q]
        if e is not None:
            ps, g, ms = params, e, members(e)
        else:
            for _ in range(30):
                ps = names_for(rng)
                ps = rng.sample(ps, rng.randint(2, len(ps)))
                sc = dict(ps)
                ret = rng.choice(["i", "i", "b", "l", "m", "s", ("T", "i", "i")])
                G = Grammar(rng, feat, sc, {**sigs})
                g = G.expr(ret, rng.choice([1, 2, 3, 3]))
                if rng.random() < .4 and not isinstance(g, ir.Choose):
                    g = ir.Choose(g, G.plain(ret, 1))
                ms = members(g)
                if ms is not None and len(ms) > 1:
                    break
            else:
                continue
        synths.append(ir.Synth(name, g, *[ir.Var(n, T(k)) for n, k in ps]))
        exps[name] = (ps, g, ms)
        if e is not None:
            break
    if not synths:
        return
    before = [repr(s) for s in synths]
    text, err = record(which, decls, synths)
    d = dict(which=which, synths=before, text=(text or "")[-6000:])
    if text is None:
        c.fail(f"{which}-rejected", f"no search problem is written: {type(err).__name__}: {err}", **d)
        return
    if [repr(s) for s in synths] != before:
        c.fail(f"{which}-mutated", f"writing the problem changed a grammar", **d, after=[repr(s) for s in synths])
        return
    for name, (ps, g, ms) in exps.items():
        pts = count_points(g)
        c.case((which, repr(g)))
        check(c, rng, which, decls, name, ps, g, ms, text, d)
        c.count(f"{which}_grammars")
        c.count(f"{which}_members", len(ms))
        c.count("choice_points", pts)
        if pts >= 2 and len(ms) >= 3:
            c.nontrivial((which, repr(g)))
        # the default member used when the synthesizer leaves the function out
        arb = g.chooseArbitrarily()
        if count_points(arb) or not any(repr(arb) == repr(m) for m in ms):
            c.fail("arbitrary", f"the member picked by default {arb!r} is not in the grammar", **d)
    c.sample(text[-700:], cap=4)


def check(c, rng, which, decls, name, ps, g, ms, text, d):
    cap = 4 * CAP
    want = [p for p, _ in ps]
    try:
        if which == "rosette":
            dp, got = read_rosette(text, name, cap)
            render = lambda m: sexp.read_one(m.to_rosette(), racket=True)
        else:
            params, ret, got, sorts = read_sygus(text, name, cap)
            dp = [n for n, _ in params]
            render = lambda m: sexp.read_one(m.toSMT())
    except (Bad, sexp.ReadError) as x:
        c.fail(f"{which}-grammar", f"{name}: {x}\n{g!r}", **d)
        return
    if dp != want:
        c.fail(f"{which}-parameters", f"{name} takes {want}, emitted with {dp}", **d)
        return
    exp = distinct([render(m) for m in ms])
    a, b = {sexp.show(x) for x in got}, {sexp.show(x) for x in exp}
    if a != b or (which != "rosette"):
        envs = []
        for k in range(10):
            env = irgen.rand_env(rng, dict(ps), lo=-9, hi=30)
            envs.append(env)
        sig = signer(which, decls, text, envs)
        if a != b:
            sa, sb = {}, {}
            for x in got:
                sa.setdefault(sig(x), sexp.show(x))
            for x in exp:
                sb.setdefault(sig(x), sexp.show(x))
            miss, extra = set(sb) - set(sa), set(sa) - set(sb)
            if miss:
                c.fail(f"{which}-missing", f"{name}: {sorted(sb[k] for k in miss)[0]} can be expressed in {g!r} but not in the emitted grammar", **d)
                return
            if extra:
                c.fail(f"{which}-extra", f"{name}: {sorted(sa[k] for k in extra)[0]} can be expressed in the emitted grammar but not in {g!r}", **d)
                return
            c.count("compared_by_value")
        else:
            c.count("compared_by_text")
        if which != "rosette":
            for n, (sort, ts) in sorts.items():
                for t in ts[:6]:
                    for v in sig(t):
                        if not isinstance(v, str) and not fits(v, sort):
                            c.fail("sygus-sort", f"{name}: nonterminal {n} of sort {sort} produces {sexp.show(t)} = {v!r}", **d)
                            return
                        c.count("sorted_values", not isinstance(v, str))
    else:
        c.count("compared_by_text")


LIBT = {}


def signer(which, decls, text, envs):
    """form -> its values on the environments."""
    if which == "rosette":
        rk = rkteval.library()
        for t in decls:
            if t.body() is not None:
                rk.load(t.to_rosette())

        def sig(x):
            out = []
            for env in envs:
                try:
                    e2 = {k: rkteval.enc(v) for k, v in env.items()}
                    out.append(repr(rk.value(x, e2)))
                except Exception as ex:
                    out.append("undefined")
            return tuple(out)
        return sig
    m = smteval.Smt(models=dict(smteval.DECLARED), fuel=60000)
    for k in smteval.LIBS:
        pass
    for t in decls:
        if t.body() is not None:
            m.load(t.toSMT())

    def sig(x):
        out = []
        for env in envs:
            try:
                out.append(m.value(x, dict(env)))
            except Exception:
                out.append("undefined")
        return tuple(out)
    return sig


# ------------------------------------------------------------------ cvc5 as an independent reader
def cvc5_reads(c, rng):
    """Grammars over integers and booleans are accepted by a real SyGuS parser."""
    from metalift import ir
    feat = {**SYG, "types": ["i", "b"], "sets": False, "tuples": False, "tupexpr_get": False, "eqlist": False}
    synths = []
    for k in range(40):
        ps = [("i0", "i"), ("i1", "i"), ("b0", "b")]
        if rng.random() < .4:
            ps = [(rng.choice(["v0", "rv", "v1"]), "i"), ("i1", "i"), ("b0", "b")]
        G = Grammar(rng, feat, dict(ps), {})
        g = G.expr(rng.choice(["i", "b"]), 3)
        ms = members(g)
        if ms is None or any(f in repr(g) for f in ("list_", "matrix_", "set-")):
            continue
        synths.append(ir.Synth(f"f{k}", ir.Choose(g, *G.pool.get(code(g.type), [])[:1]), *[ir.Var(n, T(x)) for n, x in ps]))
    for s in synths:
        text = s.toSMT()
        p = os.path.join(boot.scratch(), "g.sl")
        with open(p, "w") as f:
            f.write("(set-logic ALL)\n" + text + "\n(declare-var x Int)\n(constraint (= x x))\n")
        r = subprocess.run(["cvc5", "--lang=sygus2", "--parse-only", p], capture_output=True, text=True, timeout=60)
        c.count("cvc5_parsed")
        if r.returncode or "rror" in r.stdout + r.stderr:
            c.fail("cvc5-rejects", f"cvc5 does not read the grammar: {(r.stdout + r.stderr)[:300]}", text=text)
            return


def run(c):
    os.chdir(boot.scratch())
    os.makedirs("synthesisLogs", exist_ok=True)
    c.require("rosette_grammars", 100)
    c.require("sygus_grammars", 60)
    c.require("choice_points", 500)
    c.require("cvc5_parsed", 10)
    for i in range(c.n(220, 4000)):
        if c.out_of_time(150, 3000):
            break
        case(c, c.rng("ros", i), i, "rosette")
        if i % 2 == 0:
            case(c, c.rng("syg", i), i, "sygus")
    for n in [1, 2, 5, 8, 9, 10, 11, 12, 16, 20, 21, 24, 40] + ([60] if c.thorough else []):
        for which in ("rosette", "sygus"):
            for wrap in (False, True):
                r = c.rng("tower", n, which, wrap)
                ps = [("i0", "i"), ("i1", "i")]
                case(c, r, n, which, tower(r, "i", n, ROS if which == "rosette" else SYG, dict(ps), wrap), ps)
                c.count("towers")
    cvc5_reads(c, c.rng("cvc5"))
    c.assumptions.append("define-grammar is read as in the Rosette documentation: each nonterminal occurrence is an independent hole, "
                         "#:depth bounds the nesting of nonterminals, the first rule is the start")


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
