"""C19: a SyGuS solver's answer is read back as the expression it prints.

Monitor: random well-typed SMT-LIB terms (n-ary operators, parallel and shadowing lets, negative numbers,
sets, tuples, helper calls) are printed in candidate lines for several functions at once and go through the
real `generateCandidates`; every expression read back is evaluated beside an independent evaluator of the
printed term, and so is the text it is rendered to for the verifier.  Real cvc5 runs close the loop: what the
search returns is a member of the grammar that satisfies the specification.
"""
import os, sys, itertools, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, ireval, boot, sexp, smteval
from mon.harness import quiet
from mon.ireval import Undefined, EvalError, TupV, same

PID, LEVEL = "C19", "exploration"
RULE = "a term with at least three operators, read back and compared with the printed term on a valuation where both are defined"
T = irgen.ty
S = "s"
TYPES = ["i", "b", "s", ("T", "i", "i"), ("T", "b", "i"), ("T", "s", "i", "b"), ("T", ("T", "i", "b"), "i"), ("T", "i"), "sb", ("T", "i", "i", "b", "i"), ("T", "i", "b", "i", "s", "i")]


def mty(c):
    from metalift import ir
    if c == "sb":
        return ir.Set[ir.Bool]
    if c[0] == "T":
        return ir.make_tuple_type(*[mty(x) for x in c[1:]])
    return T(c)


def sort(c):
    return {"i": "Int", "b": "Bool", "s": "(Set Int)", "sb": "(Set Bool)"}[c] if isinstance(c, str) else \
        f"(Tuple{len(c) - 1} {' '.join(sort(x) for x in c[1:])})"


def val(rng, c):
    if c == "sb":
        return frozenset(b for b in (True, False) if rng.random() < .5)
    if c[0] == "T":
        return TupV(val(rng, x) for x in c[1:])
    if c == "s":
        return frozenset(rng.randint(-2, 3) for _ in range(rng.randint(0, 3)))
    return irgen.rand_val(rng, c, -3, 5)


NAMES = ["x", "y", "z", "r", "agg.result", "i", "xs", "tuple", "a_1", "set", "e", "k9", "let1", "andy", "n-1", "x!0"]


class G:
    def __init__(self, rng, fns, arity2=False):
        self.r, self.fns, self.ops, self.binary = rng, fns, 0, arity2

    def leaf(self, c, env):
        r = self.r
        vs = [v for v, t in env.items() if t == c]
        if vs and r.random() < .75:
            return r.choice(vs)
        if c == "i":
            k = r.choice([0, 1, 2, 7, 10, 123456789012345678901, -1, -3])
            return str(k) if k >= 0 else f"(- {-k})"
        if c == "b":
            return r.choice(["true", "false"])
        if c in ("s", "sb"):
            return f"(as set.empty {sort(c)})"
        return f"(tuple{len(c) - 1} {' '.join(self.leaf(x, env) for x in c[1:])})"

    def many(self, c, env, d, lo=2):
        n = lo if self.binary else self.r.choice([lo, lo, lo, lo + 1, lo + 2])
        return " ".join(self.e(c, env, d) for _ in range(n))

    def e(self, c, env, d):
        r = self.r
        if d <= 0 or r.random() < .1:
            return self.leaf(c, env)
        d -= 1
        self.ops += 1
        o = ["ite", "let", "call", "get"]
        o += {"i": ["+", "-", "*", "neg", "+", "-", "divmod"], "b": ["cmp", "cmp", "and", "or", "not", "=>", "=", "member", "subset"],
              "s": ["insert", "singleton", "union", "minus"], "sb": ["insert", "singleton", "union", "minus"]}.get(c if isinstance(c, str) else "T", ["mk", "mk"])
        k = r.choice(o)
        if k == "ite":
            return f"(ite {self.e('b', env, d)} {self.e(c, env, d)} {self.e(c, env, d)})"
        if k == "let":
            n = r.choice([1, 1, 2, 3])
            names = r.sample(["_let_1", "_let_2", "x", "y", "z", "_let_3"], n)
            ts = [r.choice(TYPES[:4] + ["i", "b", c]) for _ in names]
            binds = " ".join(f"({v} {self.e(t, env, min(d, 2))})" for v, t in zip(names, ts))
            return f"(let ({binds}) {self.e(c, {**env, **dict(zip(names, ts))}, d)})"
        if k == "call":
            fs = [(f, s) for f, s in self.fns.items() if s[0] == c]
            if not fs:
                return self.e(c, env, d)
            f, s = r.choice(fs)
            return f"({f} {' '.join(self.e(t, env, d) for t in s[1])})"
        if k == "get":
            ts = [t for t in TYPES if t[0] == "T" and c in t[1:]]
            if not ts:
                return self.e(c, env, d)
            t = r.choice(ts)
            j = r.choice([j for j, x in enumerate(t[1:]) if x == c])
            return f"(tuple{len(t) - 1}_get{j} {self.e(t, env, d)})"
        if k in ("+", "*"):
            return f"({k} {self.many('i', env, d)})"
        if k == "-":
            return f"(- {self.many('i', env, d)})"
        if k == "neg":
            return f"(- {self.e('i', env, d)})"
        if k == "divmod":
            return f"({r.choice(['div', 'mod'])} {self.e('i', env, d)} {r.choice(['2', '3', self.e('i', env, 0)])})"
        if k == "cmp":
            return f"({r.choice(['<', '<=', '>', '>='])} {self.many('i', env, d) if r.random() < .2 else self.e('i', env, d) + ' ' + self.e('i', env, d)})"
        if k in ("and", "or"):
            return f"({k} {self.many('b', env, d)})"
        if k == "not":
            return f"(not {self.e('b', env, d)})"
        if k == "=>":
            return f"(=> {self.e('b', env, d)} {self.e('b', env, d)})"
        if k == "=":
            t = r.choice(TYPES + ["i", "i", "b"])
            return f"(= {self.e(t, env, min(d, 2))} {self.e(t, env, min(d, 2))})"
        if k == "member":
            t, s_ = r.choice([("i", "s"), ("b", "sb")])
            return f"(set.member {self.e(t, env, d)} {self.e(s_, env, d)})"
        if k == "subset":
            s_ = r.choice(["s", "sb"])
            return f"(set.subset {self.e(s_, env, d)} {self.e(s_, env, d)})"
        el = "i" if c == "s" else "b"
        if k == "insert":
            n = 1 if self.binary else r.choice([1, 1, 1, 2])
            return f"(set.insert {' '.join(self.e(el, env, d) for _ in range(n))} {self.e(c, env, d)})"
        if k == "singleton":
            return f"(set.singleton {self.e(el, env, d)})"
        if k in ("union", "minus"):
            return f"(set.{k} {self.e(c, env, d)} {self.e(c, env, d)})"
        return f"(tuple{len(c) - 1} {' '.join(self.e(x, env, d) for x in c[1:])})"


FNDEF = {
    "f": ("i", ["i", "i"]), "inc": ("i", ["i"]), "pred": ("b", ["i", "s"]), "mk": (("T", "i", "i"), ["i", "b"]), "grow": ("s", ["s", "i"]),
    "flag": ("b", ["b", ("T", "i", "i")]), "let_it": ("i", ["i"]), "sb_of": ("sb", ["b", "i"]),
}
BODY = {
    "f": lambda a, b: 2 * a - 3 * b, "inc": lambda a: a + 1, "pred": lambda a, s: a in s, "mk": lambda a, b: TupV((a, 1 if b else 0)),
    "grow": lambda s, a: s | {a, a + 1}, "flag": lambda b, p: b != (p[0] > p[1]), "let_it": lambda a: a * a, "sb_of": lambda b, i: frozenset([b, i > 0]),
}


def target_lang():
    """Declarations of the helpers as a driver would pass them (with an axiom among them)."""
    from metalift import ir
    out = []
    for k, (n, (ret, ps)) in enumerate(sorted(FNDEF.items())):
        args = [ir.create_object(mty(p), f"p{j}").src for j, p in enumerate(ps)]
        body = ir.Call(n + "_body", mty(ret), *args)
        out.append((ir.FnDeclRecursive if k % 2 else ir.FnDecl)(n, mty(ret), body, *args))
    x = ir.Int("x").src
    out.insert(2, ir.Axiom(ir.Ge(ir.Call("inc", ir.Int, x), x), x))
    return out


def ev_fns():
    fns = dict(BODY)
    for n in range(1, 6):
        fns[f"tuple{n}"] = lambda *a: TupV(a)
    return fns


def evaluate(e, env):
    return ireval.Ev(ev_fns(), 200000, divmod_=(smteval._smt_div, smteval._smt_mod)).ev(e, env)


def run(c):
    from metalift import ir, synthesize_cvc5 as sc
    lang = target_lang()
    with quiet():
        fnames, rtypes = sc.extractFuns(lang)
    smt = smteval.Smt(fuel=200000)
    smt.fns.update(BODY)
    c.require("functions_read", 500)
    c.require("valuations", 3000)
    c.require("cvc5_runs", 8)
    for i in range(c.n(900, 20000)):
        if c.out_of_time(300, 3000):
            break
        rng = c.rng("line", i)
        nf = rng.choice([1, 1, 2, 3])
        names = rng.sample(["ps", "inv0", "inv1", "f_ps", "s", "candidate", "x", "f_inv0", "sygus", "true_ps", "ps_ps"], nf)
        synths, bodies, envs, rets = [], {}, {}, {}
        for n in names:
            ps = rng.sample(NAMES, rng.randint(1, 5))
            env = {p: rng.choice(TYPES + ["i", "i", "b", "s"]) for p in ps}
            ret = rng.choice(TYPES + ["b", "b", "i"])
            g = G(rng, FNDEF, rng.random() < .4)
            t = g.e(ret, env, rng.choice([0, 1, 2, 3, 4]))
            if len(t) > 3000:
                t = g.leaf(ret, env)
            bodies[n], envs[n], rets[n] = t, env, ret
            synths.append((n, ir.Synth(n, ir.create_object(mty(ret), "q").src, *[ir.create_object(mty(t_), p).src for p, t_ in env.items()]), g.ops))
        order = list(names)
        rng.shuffle(order)
        line = "(sygus-candidate " + " ".join(f"({n} {bodies[n]})" for n in order) + ")\n"
        c.case(("line", line))
        d = dict(line=line)
        try:
            with quiet():
                decls, exprs = sc.generateCandidates([s for _, s, _ in synths], line, list(fnames), list(rtypes))
        except Exception as x:
            c.fail("rejected", f"an answer over the supported operators cannot be read: {type(x).__name__}: {x}", **d)
            continue
        if [f.name() for f in decls] != names or sorted(exprs) != sorted(names):
            c.fail("functions", f"the answer gives {names}, read back are {[f.name() for f in decls]} and {sorted(exprs)}", **d)
            continue
        for (n, syn, ops), f in zip(synths, decls):
            c.count("functions_read")
            if [a.name() for a in f.arguments()] != list(envs[n]) or [a.type for a in f.arguments()] != [mty(t) for t in envs[n].values()]:
                c.fail("parameters", f"{n} is read back with parameters {f.arguments()}", **d)
                continue
            if f.return_type() != mty(rets[n]) or f.body().type != mty(rets[n]):
                c.fail("type", f"{n} of type {mty(rets[n])} is read back with type {f.return_type()} and a body of type {f.body().type}", body=bodies[n], **d)
                continue
            if ireval_diff(exprs[n], f.body()):
                c.fail("two-answers", f"the definition and the expression of {n} differ", **d)
            term = sexp.read_one(bodies[n])
            try:
                text = f.body().toSMT()
                term2 = sexp.read_one(text)
            except Exception as x:
                c.fail("render", f"the answer read back for {n} cannot be rendered: {x}", body=bodies[n])
                continue
            for _ in range(6):
                env = {p: val(rng, t) for p, t in envs[n].items()}
                c.count("valuations")
                try:
                    want = smt.value(term, env)
                except Undefined:
                    c.count("undefined")
                    continue
                try:
                    got = evaluate(f.body(), env)
                    again = smt.value(term2, env)
                except Undefined as u:
                    c.count("undefined")
                    continue
                except (EvalError, smteval.SmtError, KeyError, TypeError) as x:
                    c.fail("ill-formed", f"the answer for {n} is read back as an expression without a value: {x}", body=bodies[n], read=repr(f.body()), env=env)
                    break
                if not same(got, want):
                    c.fail("differs", f"{n} has value {want!r}, the expression read back has {got!r}", body=bodies[n], read=repr(f.body()), env=env)
                    break
                if not same(again, want):
                    c.fail("verified-text", f"{n} has value {want!r}, the text given to the verifier has {again!r}", body=bodies[n], text=text, env=env)
                    break
                if ops >= 3:
                    c.nontrivial((bodies[n], sorted(map(repr, env.items()))))
            if ops >= 3:
                c.sample(bodies[n][:200], 3)
    directed(c, sc, fnames, rtypes)
    real(c)


def ireval_diff(a, b):
    return repr(a) != repr(b)


def directed(c, sc, fnames, rtypes):
    """Answers that do not define every function must not be taken for complete ones."""
    from metalift import ir
    for k in range(c.n(40, 400)):
        rng = c.rng("missing", k)
        names = rng.sample(["ps", "inv0", "inv1", "s"], rng.choice([2, 3]))
        syn = [ir.Synth(n, ir.Int("q").src, ir.Int("x").src, ir.Int("y").src) for n in names]
        left = rng.sample(names, rng.randint(1, len(names) - 1))
        line = "(sygus-candidate " + " ".join(f"({n} (+ x {rng.randint(0, 5)}))" for n in left) + ")\n"
        c.case(("missing", line, tuple(names)))
        try:
            with quiet():
                decls, exprs = sc.generateCandidates(syn, line, list(fnames), list(rtypes))
        except Exception:
            c.count("incomplete_rejected")
            continue
        got = [f.name() for f in decls]
        if sorted(got) != sorted(left) or sorted(exprs) != sorted(left):
            c.fail("invented", f"the answer defines {left} but {got} are read back", line=line)
        c.count("incomplete_read")


# ---------------------------------------------------------------- real searches
class Late(Exception):
    pass


def real(c):
    """Search with the real cvc5 for a random member of a random grammar, given as its specification."""
    from metalift import ir, synthesize_cvc5 as sc
    sys.path.insert(0, os.path.join(boot.VERIF, "checks"))
    import c10
    os.makedirs(os.path.join(boot.scratch(), "cvc5"), exist_ok=True)
    os.chdir(os.path.join(boot.scratch(), "cvc5"))

    def alarm(*a):
        raise Late()
    signal.signal(signal.SIGALRM, alarm)
    for i in range(c.n(14, 120)):
        rng = c.rng("real", i)
        x, y, z = ir.Int("x"), ir.Int("y"), ir.Int("z")
        vs = [x.src, y.src, z.src]

        def leaf():
            return rng.choice(vs + [ir.IntLit(rng.randint(0, 2))])

        def ch(f, n):
            xs = []
            for _ in range(n):
                e = f()
                if not any(repr(e) == repr(o) for o in xs):
                    xs.append(e)
            return ir.Choose(*xs) if len(xs) > 1 else xs[0]
        a, b = ch(leaf, 3), ch(leaf, 3)
        cmp_ = ch(lambda: rng.choice([ir.Lt, ir.Le, ir.Gt, ir.Ge, ir.Eq])(leaf(), leaf()), 3)
        arith = ch(lambda: rng.choice([ir.Add, ir.Sub])(leaf(), leaf()), 2)
        body = rng.choice([lambda: ir.Ite(cmp_, a, arith), lambda: ir.Ite(ir.And(cmp_, ch(lambda: ir.Le(leaf(), leaf()), 2)), a, b), lambda: ir.Add(a, b, leaf()),
                           lambda: ir.Choose(ir.Ite(cmp_, a, b), arith), lambda: ir.Ite(ir.Not(cmp_), a, ir.Sub(b, leaf())), lambda: ir.Ite(ir.Or(cmp_, cmp_), arith, b)])()
        ms = c10.members(body, 4000)
        if not ms or len(ms) < 3:
            continue
        target = rng.choice(ms)
        syn = ir.Synth("goal", body, *vs)
        vc = ir.Eq(ir.Call("goal", ir.Int, *vs), target)
        c.case(("real", i, repr(body), repr(target)))
        signal.alarm(25)
        try:
            with quiet():
                out = sc.synthesize(f"t{i}", [], set(vs), [syn], [], vc, [], "cvc5")
        except Late:
            c.count("cvc5_late")
            continue
        except Exception as x:
            c.fail("search", f"the search for a member of its own grammar ends with {type(x).__name__}: {x}", grammar=repr(body), target=repr(target))
            continue
        finally:
            signal.alarm(0)
        c.count("cvc5_runs")
        got = out[0].body()
        if repr(got) not in {repr(m) for m in ms}:
            c.fail("outside-grammar", f"the search returns {got!r}, which is not in the grammar", grammar=repr(body), target=repr(target))
        for vals in itertools.product(range(-2, 4), repeat=3):
            env = dict(zip("xyz", vals))
            if evaluate(got, env) != evaluate(target, env):
                c.fail("wrong", f"the search returns {got!r} for the specification {target!r}; they differ on {env}", grammar=repr(body))
                break
        c.nontrivial(("real", repr(got), repr(target)))


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
