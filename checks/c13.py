"""C13: every axiom given to the verifier is true of the functions it describes.

Monitor: the axioms are taken from the objects and files the library really hands to the solver
(the `(assert (forall ...))` lines of the SMT libraries, every Axiom object of the tensor library,
also through the name -> axioms table) and each instance is evaluated in a total model of SMT-LIB in
which the functions are computed from their own defining equations (the rendered definitions).
Whatever the standard leaves open (head of nil, out-of-range element, division by zero) is resolved
by several different interpretations: an axiom must hold in all of them, because the solver may pick
any.  Values are enumerated exhaustively for small sizes and drawn at random beyond.
A solver probe asks cvc5 directly whether axioms and definitions contradict each other.
"""
import sys, os, itertools, subprocess, hashlib, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, boot, smteval, sexp, ireval
from mon.smteval import Smt, SmtError, Fn, PRIM
from mon.ireval import Undefined, EvalError, TupV

PID = "C13"
LEVEL = "monitored: exhaustive small values + random values in several total models of the theory"
RULE = "an axiom instance counts as non-trivial when its premise holds (or it has none) and its conclusion was evaluated to a value"


class Total(Smt):
    """Total model: operations outside their domain return an arbitrary value fixed by the salt."""

    def __init__(self, salt, **k):
        self.salt = salt
        super().__init__(models={
            "list_length": len, "matrix_length": len,
            "list_append": lambda l, x: l + (x,), "matrix_append": lambda l, x: l + (x,),
            "list_get_helper": lambda l, i: self.get(l, i, "i"), "matrix_get_helper": lambda l, i: self.get(l, i, "l"),
            "list_take": lambda l, n: l[:n] if n > 0 else (), "matrix_take": lambda l, n: l[:n] if n > 0 else (),
            "div": self.div, "mod": self.mod,
        }, **k)

    def pick(self, *key):
        return int.from_bytes(hashlib.sha256(repr((self.salt, key)).encode()).digest()[:4], "big")

    def get(self, l, i, kind):
        while l:
            if i <= 0:
                return l[0]
            l, i = l[1:], i - 1
        v = (self.pick("get", i) % 201) - 100 if self.salt else 0
        if kind == "i":
            return v
        n = self.pick("getl", i) % 4 if self.salt else 0
        return tuple((self.pick("getl", i, k) % 11) - 5 for k in range(n))

    def div(self, a, b):
        return smteval._smt_div(a, b) if b else (self.pick("div", a) % 21) - 10 if self.salt else 0

    def mod(self, a, b):
        return smteval._smt_mod(a, b) if b else (self.pick("mod", a) % 21) - 10 if self.salt else a

    def apply(self, name, args):
        if name in ("list_tail", "matrix_tail"):    # declared by define-fun-rec over (tail nil): nil by its own axioms
            return args[0][args[1]:] if args[1] > 0 else args[0]
        if name in ("div", "mod"):
            return self.models[name](*args)
        if name == "tail" and not args[0]:
            return ()
        return super().apply(name, args)


def sorts_of(c, names, extra=()):
    """Total models with the SMT libraries loaded."""
    out = []
    for salt in (0, 1, 2, 3):
        m = Total(salt, fuel=400000)
        for n in smteval.LIBS:
            for cmd in sexp.read_all(open(os.path.join(boot.REPO, "metalift", "utils", n)).read()):
                m.command(cmd)
        out.append(m)
    return out


INTS = (-2, -1, 0, 1, 2, 3)


def lists(el, maxlen):
    for n in range(maxlen + 1):
        yield from itertools.product(el, repeat=n)


def domain(sort, small):
    """Exhaustive small domain of a sort."""
    s = sexp.show(sort)
    if s in ("Int", "List_T1", "K_Map", "V_Map"):
        return INTS
    if s == "Bool":
        return (False, True)
    if s in ("(MLList List_T1)", "(MLList Int)"):
        return tuple(lists((-1, 0, 2) if not small else (-1, 2), 3 if not small else 2))
    if s in ("(MLList (MLList Int))", "(MLList (MLList List_T1))"):
        rows = tuple(lists((-1, 2), 2 if not small else 1))
        return tuple(lists(rows, 2))
    raise SmtError(f"axiom over unknown sort {s}")


def draw(sort, r):
    s = sexp.show(sort)
    if s in ("Int", "List_T1"):
        return r.choice((-100, -33, -7, -3, -2, -1, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 31, 32, 64, 1000))
    if s == "Bool":
        return r.random() < .5
    if s in ("(MLList List_T1)", "(MLList Int)"):
        return tuple(r.randint(-40, 40) for _ in range(r.choice((0, 1, 1, 2, 3, 4, 6))))
    w = r.choice((0, 1, 2, 3))
    ragged = r.random() < .3
    return tuple(tuple(r.randint(-9, 9) for _ in range(r.randint(0, 3) if ragged else w)) for _ in range(r.choice((0, 1, 2, 3, 4))))


def matched(sorts, r):
    """Random values; variables of equal sort often get equal shapes (premises like len a = len b)."""
    vals, last = [], {}
    for s in sorts:
        k = sexp.show(s)
        v = draw(s, r)
        if k in last and isinstance(v, tuple) and r.random() < .8:
            o = last[k]
            v = tuple(tuple(r.randint(-9, 9) for _ in x) if isinstance(x, tuple) else r.randint(-40, 40) for x in o)
        last[k] = v
        vals.append(v)
    lens = [len(v) for v in vals if isinstance(v, tuple)]
    if lens and r.random() < .7:      # integers near the sizes
        vals = [v if isinstance(v, (tuple, bool)) or r.random() < .4 else r.randint(-1, max(lens) + 1) for v in vals]
    return vals


def forall(term):
    """(vars, sorts, body) of an asserted term."""
    if isinstance(term, list) and term and term[0] == "forall":
        vs = [str(v[0]) for v in term[1]]
        if len(set(vs)) != len(vs):
            raise SmtError("a variable is bound twice")
        return vs, [v[1] for v in term[1]], term[2]
    return [], [], term


def premise(body):
    return body[1] if isinstance(body, list) and body and body[0] == "=>" else None


def instances(c, sorts, salt, n_random, cap):
    try:
        small = len(sorts) >= 3
        doms = [domain(s, small) for s in sorts]
        size = 1
        for d in doms:
            size *= len(d)
        r = c.rng("inst", salt)
        if size <= cap:
            yield from itertools.product(*doms)
        else:
            for _ in range(cap):
                yield tuple(r.choice(d) for d in doms)
        if sorts:
            for _ in range(n_random):
                yield tuple(matched(sorts, r))
    except GeneratorExit:
        return


def check_axiom(c, name, term, models, n_random, cap):
    vs, sorts, body = forall(term)
    prem = premise(body)
    hits = 0
    for vals in instances(c, sorts, name, n_random, cap):
        for m in models:
            env = dict(zip(vs, vals))
            try:
                if prem is not None and m.value(prem, env) is not True:
                    c.count("premise_false")
                    break
                ok = m.value(body, env)
            except Undefined:
                c.count("undefined")
                continue
            c.count("instances")
            c.case((name, vals))
            c.nontrivial((name, vals))
            hits += 1
            if ok is not True:
                c.fail(f"axiom:{name}", f"{name} is false for {env} (interpretation {m.salt} of the unspecified values): {sexp.show(term)[:600]}",
                       axiom=sexp.show(term), values=repr(env), interpretation=m.salt)
                return hits
    if not hits:
        c.fail(f"vacuous:{name}", f"no instance of {name} has a true premise: {sexp.show(term)[:400]}")
    return hits


def library_axioms(c):
    models = sorts_of(c, None)
    for k, t in enumerate(models[0].asserts):
        if c.out_of_time():
            break
        check_axiom(c, f"library[{k}] {sexp.show(t)[:60]}", t, models, c.n(200, 4000), c.n(1500, 40000))
        c.count("library_axioms")
    # definitions the models stand for: the text of the library must compute them
    m = models[0]
    raw = Smt(models={**smteval.DECLARED, "tail": lambda l: l[1:]})
    for n in smteval.LIBS:
        for cmd in sexp.read_all(open(os.path.join(boot.REPO, "metalift", "utils", n)).read()):
            raw.command(cmd)
    for fn in ("list_tail", "matrix_tail"):
        el = INTS[:3] if fn == "list_tail" else ((), (1,), (2, 3))
        for l in lists(el, 3):
            for n in range(-2, 6):
                got = raw.apply(fn, [l, n]) if fn in raw.fns else None
                want = l[n:] if n > 0 else l
                c.count("definitions")
                if fn in raw.fns and got != want:
                    c.fail(f"model:{fn}", f"{fn} {l} {n} computes {got}, its axioms describe {want}")
    return models


def strip(term, names):
    """Remove function-valued arguments from calls."""
    if isinstance(term, list):
        return [term[0]] + [strip(t, names) for t in term[1:] if not (isinstance(t, sexp.Sym) and str(t) in names)] \
            if term and not isinstance(term[0], list) else [strip(t, names) for t in term]
    return term


def select_fns(salt):
    def f(*a):
        return ((sum((i + 3) * x for i, x in enumerate(a)) + salt) % 17) - 8 if salt else (a[0] if a[0] > a[1] else a[1])
    return f


def define_tensor(m, fns):
    from metalift.ir import is_fn_decl_type
    for d in fns:
        if d.body() is None or d.name() in m.fns:
            continue
        fargs = [a for a in d.arguments() if is_fn_decl_type(a.type)]
        if not fargs:
            m.load(d.toSMT())
            continue
        names = {str(a.args[0]) for a in fargs}
        body = strip(sexp.read_one(d.body().toSMT()), names)
        ps = [str(a.args[0]) for a in d.arguments() if a not in fargs]
        m.fns[d.name()] = Fn(d.name(), ps, [None] * len(ps), None, body)
        for n in names:
            m.fns[n] = select_fns(m.salt)


def tensor_axioms(c):
    import metalift.utils.tenspiler.axioms as A
    import metalift.utils.tenspiler.constants as K
    import metalift.utils.tenspiler.tenspiler_common as T
    from metalift.ir import Axiom, FnDecl, FnDeclRecursive
    axs = {}
    for n in sorted(vars(A)):
        if isinstance(getattr(A, n), Axiom):
            axs[n] = getattr(A, n)
    table = getattr(K, "TENSPILER_FN_NAME_TO_AXIOMS", {})
    for fn in sorted(table):
        for k, ax in enumerate(table[fn]):
            if not any(ax is v for v in axs.values()):
                axs[f"table:{fn}[{k}]"] = ax
            # an axiom filed under a function's name must be about that function
            c.count("table_entries")
            if fn not in sexp.show(sexp.read_all(ax.toSMT())[0]).replace("(", " ").split():
                c.fail(f"table:{fn}", f"the axiom filed under {fn} does not mention it: {ax.toSMT()[:300]}")
    fns = {d.name(): d for d in K.TENSPILER_FNS}
    for v in vars(T).values():
        if isinstance(v, (FnDecl, FnDeclRecursive)):
            fns.setdefault(v.name(), v)
    models = sorts_of(c, None)
    for m in models:
        define_tensor(m, [fns[n] for n in sorted(fns)])
    want = 21
    for n, ax in axs.items():
        if c.out_of_time():
            break
        text = ax.toSMT()
        cmds = sexp.read_all(text)
        if len(cmds) != 1 or cmds[0][0] != "assert":
            c.fail(f"text:{n}", f"{n} does not render to one assertion: {text[:300]}")
            continue
        free_check(c, n, cmds[0][1], models[0])
        check_axiom(c, n, cmds[0][1], models, c.n(600, 12000), c.n(4000, 60000))
        c.count("tensor_axioms")
    return axs, fns


def free_check(c, name, term, m):
    """Every variable of an axiom is bound by its quantifier with the sort it is used at."""
    vs, sorts, body = forall(term)

    def go(t):
        if isinstance(t, sexp.Sym):
            if t in vs or t in ("true", "false", "nil") or t.isdigit() or t in m.fns:
                return
            c.fail(f"free:{name}", f"{name} uses the unbound symbol {t}: {sexp.show(term)[:400]}")
        elif isinstance(t, list) and t and t[0] != "as":
            for x in t[1:]:
                go(x)
    go(body)


def sorts_names(text):
    return {str(x[1]) for x in sexp.read_all(text) if x[0] in ("define-fun", "define-fun-rec", "declare-fun")}


def solver(c, axs, fns):
    """cvc5 must not derive a contradiction from library + definitions + one axiom on a ground instance."""
    import shutil
    exe = shutil.which("cvc5")
    if not exe:
        c.count("no_solver")
        return
    lib = "(set-logic ALL)\n" + "".join(open(os.path.join(boot.REPO, "metalift", "utils", n)).read() + "\n" for n in smteval.LIBS)
    probes = {"library": ""}
    fns = {n: d for n, d in fns.items() if n not in sorts_names(lib)}
    for n, ax in axs.items():
        used = [t for t in sexp.read_all(ax.toSMT())]
        names = set()

        def calls(t):
            if isinstance(t, list):
                for x in t:
                    calls(x)
            else:
                names.add(str(t))
        calls(used)
        todo, defs = [x for x in names if x in fns], {}
        from metalift.ir import is_fn_decl_type
        bad = False
        while todo:
            x = todo.pop()
            if x in defs:
                continue
            d = fns[x]
            if d.body() is None or any(is_fn_decl_type(a.type) for a in d.arguments()):
                bad = True
                break
            defs[x] = d.toSMT()
            sub = set()

            def calls2(t):
                if isinstance(t, list):
                    for y in t:
                        calls2(y)
                else:
                    sub.add(str(t))
            calls2(sexp.read_one(defs[x]))
            todo += [y for y in sub if y in fns and y not in defs]
        if bad:
            continue
        order = sorted(defs)
        # callees first; the functions here are only self-recursive
        out, done = [], set()
        while order:
            for x in list(order):
                if all(("(" + y + " ") not in defs[x] or y == x or y in done for y in defs):
                    out.append(defs[x]); done.add(x); order.remove(x)
                    break
            else:
                break
        if not order:
            probes[n] = "\n".join(out) + "\n" + ax.toSMT()
    d = boot.scratch()
    sel = list(probes) if c.thorough else ["library"] + [n for n in ("reduce_max_axiom", "vec_elemwise_add_axiom", "matrix_vec_mul_axiom", "reduce_sum_axiom") if n in probes]
    procs = []
    for n in sel:
        p = os.path.join(d, f"c13_{n.replace(':', '_')}.smt2")
        open(p, "w").write(lib + probes[n] + "\n(check-sat)\n")
        procs.append((n, p, subprocess.Popen([exe, "--lang=smt", f"--tlimit={c.n(8000, 60000)}", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for n, p, pr in procs:
        out = pr.communicate()[0].strip()
        first = out.splitlines()[0] if out else ""
        c.count("solver_probes")
        if first == "unsat":
            c.fail(f"inconsistent:{n}", f"cvc5 derives a contradiction from the library, the definitions and {n}", problem=open(p).read()[-3000:])
        elif "error" in out.lower() and "timeout" not in out.lower() and "interrupted" not in out.lower():
            c.fail(f"illformed:{n}", f"cvc5 rejects the axioms and definitions of {n}: {out[:400]}")


def run(c):
    c.assumptions.append("uninterpreted/partial operations are resolved by 4 different total interpretations; recursive definitions are evaluated by unfolding")
    c.require("library_axioms", 20)
    c.require("tensor_axioms", 10)
    c.require("instances", 2000)
    library_axioms(c)
    axs, fns = tensor_axioms(c)
    solver(c, axs, fns)
    c.sample({n: ax.toSMT()[:300] for n, ax in list(axs.items())[:3]})


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
