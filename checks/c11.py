"""C11: the symbolic inputs of the bounded search cover every value up to the bound.

Monitor: random sets of problem variables and bounds go through the real search (recording stand-in for
Racket); the declarations in the emitted program are executed by a Racket evaluator in which
define-symbolic is an input, and every target value of every variable has to be reachable.
"""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, ireval, boot, sexp, fakeproc, rkteval
from mon.harness import quiet
from mon.sexp import Sym

PID, LEVEL = "C11", "exploration"
RULE = "a variable of a composite type for which a value was reached by an assignment of the emitted symbolic constants"


def ty(c):
    from metalift import ir
    if isinstance(c, tuple) and c[0] == "L":
        return ir.List[ty(c[1])]
    if isinstance(c, tuple) and c[0] == "T":
        return ir.make_tuple_type(*[ty(x) for x in c[1:]])
    return {"i": ir.Int, "b": ir.Bool, "l": ir.List[ir.Int], "B": ir.List[ir.Bool], "m": ir.Matrix[ir.Int],
            "t": ir.Tensor3D[ir.Int], "s": ir.Set[ir.Int], "n": ir.List[ir.List[ir.Int]]}[c]


TYPES = ["i", "b", "l", "B", "m", "t", "s", "n", ("T", "i", "i"), ("T", "i", "b"), ("T", "l", "i"), ("T", "i", "s"), ("T", "i"),
         ("T", ("T", "i", "b"), "l"), ("L", ("T", "i", "i")), ("L", "n"), ("T", "m", "i"), ("L", "B")]


def rand(rng, c, b):
    """A value of the type within the bound."""
    I = lambda: rng.randint(-9, 9)
    if c == "i":
        return I()
    if c == "b":
        return rng.random() < .5
    if c == "m":
        return tuple(tuple(I() for _ in range(b)) for _ in range(rng.randint(0, b)))
    if c == "t":
        return tuple(tuple(tuple(I() for _ in range(b)) for _ in range(b)) for _ in range(rng.randint(0, b)))
    if c == "s":
        return frozenset(rng.sample(range(-9, 10), rng.randint(0, b)))
    el = {"l": "i", "B": "b", "n": "l"}.get(c) or (c[1] if c[0] == "L" else None)
    if el is not None:
        return tuple(rand(rng, el, b) for _ in range(rng.choice([0, b, rng.randint(0, b)])))
    return tuple(rand(rng, x, b) for x in c[1:])


def extremes(rng, c, b):
    """Empty, full and one-step values."""
    out = [rand(rng, c, b) for _ in range(5)]
    if c in ("l", "B", "n") or c[0] == "L":
        el = {"l": "i", "B": "b", "n": "l"}.get(c) or c[1]
        out += [tuple(rand(rng, el, b) for _ in range(k)) for k in range(b + 1)]
    if c == "m":
        out += [tuple(tuple(rng.randint(-9, 9) for _ in range(b)) for _ in range(k)) for k in range(b + 1)]
    if c == "t":
        out += [tuple(tuple(tuple(rng.randint(-9, 9) for _ in range(b)) for _ in range(b)) for _ in range(k)) for k in range(b + 1)]
    if c == "s":
        out += [frozenset(rng.sample(range(-9, 10), k)) for k in range(b + 1)]
    return out


def welltyped(v, c, b):
    if c == "i":
        return isinstance(v, int) and not isinstance(v, bool)
    if c == "b":
        return isinstance(v, bool)
    if not isinstance(v, tuple):
        return False
    if c == "s":
        return len(v) <= b and list(v) == sorted(set(v)) and all(welltyped(x, "i", b) for x in v)
    if c in ("m", "t"):
        return len(v) <= b and all(welltyped(x, {"m": "l", "t": "m"}[c], b) for x in v) and len({len(x) for x in v}) <= 1
    el = {"l": "i", "B": "b", "n": "l"}.get(c) or (c[1] if c[0] == "L" else None)
    if el is not None:
        return len(v) <= b and all(welltyped(x, el, b) for x in v)
    return len(v) == len(c) - 1 and all(welltyped(x, y, b) for x, y in zip(v, c[1:]))


class Problem:
    """The declarations of an emitted program, executable for an assignment of its symbolic constants."""

    def __init__(self, text):
        self.lib = rkteval.library()
        body = "\n".join(l for l in text.splitlines() if not l.startswith("#lang"))
        self.symbols, self.steps, self.defined, self.assertion, self.forall = {}, [], [], None, []
        for f in sexp.read_all(body, racket=True):
            if not isinstance(f, list) or not f:
                continue
            if f[0] == Sym("define-symbolic"):
                for n in f[1:-1]:
                    if str(n) in self.defined:
                        raise ValueError(f"{n} is declared twice")
                    self.symbols[str(n)] = str(f[-1])
                    self.defined.append(str(n))
                    self.steps.append(("sym", str(n), None))
            elif f[0] == Sym("define") and isinstance(f[1], Sym):
                if isinstance(f[2], list) and f[2] and f[2][0] == Sym("synthesize"):
                    i = f[2].index(Sym("#:forall"))
                    self.forall.append([str(x) for x in f[2][i + 1][1:]])
                    continue
                if str(f[1]) in self.defined:
                    raise ValueError(f"{f[1]} is declared twice")
                self.defined.append(str(f[1]))
                self.steps.append(("def", str(f[1]), f[2]))
            elif f[0] == Sym("define") and f[1] == [Sym("assertions")]:
                if self.assertion is not None:
                    raise ValueError("assertions defined twice")
                self.assertion = f[2][1]

    def run(self, a):
        self.lib.fuel = self.lib.fuel0
        env = {}
        for kind, n, f in self.steps:
            env[n] = a[n] if kind == "sym" else self.lib.ev(f, env)
        return env

    def get(self, a, name):
        try:
            return self.run(a)[name]
        except (rkteval.RktError, ireval.Undefined, IndexError, ValueError):
            return None


def paths(v, p=()):
    yield p, v
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            yield from paths(x, p + (i,))


def at(v, p):
    for i in p:
        if not isinstance(v, tuple) or i >= len(v):
            return "gone"
        v = v[i]
    return v


def structure(P, name, b):
    """Which symbolic constant decides which element or length of the variable (everything at its full size)."""
    full = {s: (b if t == "integer?" else True) for s, t in P.symbols.items()}
    v0 = P.get(full, name)
    elem, length = {}, {}
    if v0 is None:
        return None, elem, length
    for s, t in P.symbols.items():
        alt = P.get({**full, s: 0 if t == "integer?" else False}, name)
        if alt is None or alt == v0:
            continue
        # shortest path at which the two differ in shape, else the element that differs
        short = [p for p, x in paths(v0) if isinstance(x, tuple) and isinstance(at(alt, p), tuple) and len(at(alt, p)) != len(x)]
        if short:
            length.setdefault(min(short, key=len), []).append(s)
        else:
            for p, x in paths(v0):
                if not isinstance(x, tuple) and at(alt, p) != x:
                    elem.setdefault(p, []).append(s)
    return full, elem, length


def reach(P, name, target, st):
    """An assignment under which the variable has the target value, or None."""
    full, elem, length = st
    if full is None:
        return None
    a = dict(full)
    for p, x in paths(target):
        if isinstance(x, tuple):
            for s in length.get(p, []):
                a[s] = len(x)
        else:
            for s in elem.get(p, []):
                a[s] = x
    return a if P.get(a, name) == target else None


def has_set(c):
    return c == "s" or isinstance(c, tuple) and any(has_set(x) for x in c[1:])


def brute(P, name, c, target, used):
    """Search the constants of the variable exhaustively over the interesting values."""
    vals = sorted({x for _, x in paths(target) if isinstance(x, int) and not isinstance(x, bool)} | {len(x) for _, x in paths(target) if isinstance(x, tuple)})
    dom = {s: ([False, True] if P.symbols[s] != "integer?" else vals or [0]) for s in used}
    n = 1
    for s in used:
        n *= len(dom[s])
    if n > 300000:
        return "too many"
    base = {s: (0 if t == "integer?" else False) for s, t in P.symbols.items()}
    for combo in itertools.product(*[dom[s] for s in used]):
        a = {**base, **dict(zip(used, combo))}
        if P.get(a, name) == target:
            return a
    return None


def affects(rng, P, names, b):
    """{variable: constants that its value depends on}, from random single changes."""
    out = {n: set() for n in names}
    for s, t in P.symbols.items():
        for _ in range(3):
            a = {k: (rng.choice([b, b, rng.randint(0, b)]) if tt == "integer?" else rng.random() < .5) for k, tt in P.symbols.items()}
            for k in (1, 2):
                if _ == 0:
                    a = {kk: (b if tt == "integer?" else True) for kk, tt in P.symbols.items()}
            alts = [0, 1, b] if t == "integer?" else [True, False]
            vs = [{**a, s: x} for x in alts]
            for n in names:
                got = {repr(P.get(v, n)) for v in vs}
                if len(got) > 1:
                    out[n].add(s)
    return out


def emit(rng, vars, vc, bound, unbounded, lang=(), uninterp=()):
    from metalift import ir, synthesize_rosette as sr
    seen = {}

    def solver(w, argv, p):
        seen["text"] = open(argv[-1]).read()
        w.at(.1, lambda: setattr(p, "_rc", 1))
    w = fakeproc.World()
    w.programs = [(lambda a: True, solver)]
    s = ir.Synth("f", ir.Choose(ir.Var("x", ir.Int), ir.IntLit(0)), ir.Var("x", ir.Int))
    err = None
    with w, quiet():
        try:
            sr.synthesize("t", list(lang), vars, [s], [], vc, [s], "cvc5", no_verify=True, log=False, list_bound=bound, unbounded_ints=unbounded, uninterp_fns=list(uninterp))
        except Exception as x:
            err = x
    return seen.get("text"), err


def width(text):
    """The integer widths the program asks for (None: unbounded)."""
    out = []
    for f in sexp.read_all("\n".join(l for l in text.splitlines() if not l.startswith("#lang")), racket=True):
        if isinstance(f, list) and f and f[0] == Sym("current-bitwidth"):
            out.append(None if str(f[1]) == "#f" else int(str(f[1])))
    return out


def widths(c):
    """unbounded_ints gives mathematical integers; otherwise the integers are at least as wide as the lengths."""
    from metalift import ir
    x, l = ir.Var("x", ir.Int), ir.Var("l", ir.List[ir.Int])
    vc = ir.Le(x, ir.Call("list_length", ir.Int, l))
    for bound in (1, 2, 3, 4, 5, 8):
        for unbounded in (True, False):
            c.case(("width", bound, unbounded))
            text, err = emit(None, {x, l}, vc, bound, unbounded)
            if text is None:
                c.fail("width", f"no search problem for bound {bound}, unbounded_ints={unbounded}: {err}")
                continue
            ws = width(text)
            c.count("widths")
            if unbounded and ws != [None]:
                c.fail("width", f"unbounded_ints=True, but the integers have {ws} bits", text=text[-2000:])
            if not unbounded and not (ws == [] or len(ws) == 1 and (ws[0] is None or 2 ** (ws[0] - 1) > bound)):
                c.fail("width", f"integers of {ws} bits cannot be {bound}", text=text[-2000:])


def unknown_functions(c):
    """A function without a meaning is one unknown of its type: declared once, before its uses, and with no grammar."""
    from metalift import ir
    sort = {ir.Int: "integer?", ir.Bool: "boolean?"}
    for cls in (ir.FnDecl, ir.FnDeclRecursive):
        for k, (ret, args) in enumerate([(ir.Int, [ir.Int]), (ir.Bool, [ir.Int, ir.Int]), (ir.Int, [ir.Bool, ir.Int, ir.Int]), (ir.Bool, [ir.Bool])]):
            x, b = ir.Var("x", ir.Int), ir.Var("b", ir.Bool)
            given = {ir.Int: x, ir.Bool: b}
            uf = cls("uf", ret, None, *[ir.Var(f"a{j}", t) for j, t in enumerate(args)])
            user = ir.FnDeclRecursive("user", ret, ir.Call("uf", ret, *[ir.Var({ir.Int: "p", ir.Bool: "q"}[t], t) for t in args]), ir.Var("p", ir.Int), ir.Var("q", ir.Bool))
            vc = ir.Eq(ir.Call("uf", ret, *[given[t] for t in args]), ir.Call("user", ret, x, b))
            for lang in ([uf], [uf, user]):
                c.case(("uninterpreted", cls.__name__, k, len(lang)))
                text, err = emit(None, {x, b}, vc, 2, False, lang, ["uf"])
                if text is None:
                    c.fail("uninterpreted", f"no search problem with an uninterpreted function: {err}")
                    continue
                found, used, late = [], False, False
                for f in sexp.read_all("\n".join(l for l in text.splitlines() if not l.startswith("#lang")), racket=True):
                    if isinstance(f, list) and f and f[0] == Sym("define-symbolic") and Sym("uf") in f[1:-1]:
                        found.append(sexp.show(f[-1]))
                        late = late or used
                    elif isinstance(f, list) and len(f) > 1 and f[0] in (Sym("define"), Sym("define-bounded"), Sym("define-grammar")):
                        head = f[1][0] if isinstance(f[1], list) and f[1] else f[1]
                        if head in (Sym("uf"), Sym("uf_gram")):
                            found.append(sexp.show(f)[:60])
                        elif f[0] != Sym("define-bounded") and "(uf " in sexp.show(f):
                            used = True
                want = [f"(~> {' '.join(sort[t] for t in args)} {sort[ret]})"]
                c.count("uninterpreted functions")
                if found != want:
                    c.fail("uninterpreted", f"uf is declared as {found}, expected {want}", text=text[:3000])
                elif late:
                    c.fail("uninterpreted", "uf is used before it is declared", text=text[:3000])


def conj(rng, vs):
    """A condition that mentions every variable."""
    from metalift import ir
    out = []
    for v, c in vs:
        if c == "i":
            out.append(ir.Lt(v, ir.IntLit(rng.randint(-3, 5))))
        elif c == "b":
            out.append(ir.Not(v) if rng.random() < .5 else ir.Or(v, ir.BoolLit(False)))
        elif c == "l":
            out.append(ir.Le(ir.Call("list_length", ir.Int, v), ir.IntLit(rng.randint(0, 2))))
        elif c in ("m", "n"):
            out.append(ir.Le(ir.Call("matrix_length", ir.Int, v), ir.IntLit(rng.randint(0, 2))))
        elif c == "t":
            out.append(ir.Le(ir.Call("tensor3d_length", ir.Int, v), ir.IntLit(rng.randint(0, 2))))
        elif c == "s":
            out.append(ir.Call("set-member", ir.Bool, ir.IntLit(rng.randint(0, 2)), v))
        elif isinstance(c, tuple) and c[0] == "T" and c[1] == "i":
            out.append(ir.Lt(ir.TupleGet(v, ir.IntLit(0)), ir.IntLit(2)))
        else:
            out.append(ir.Eq(v, v))
    rng.shuffle(out)
    return ir.Or(*out) if len(out) > 1 else out[0]


def case(c, rng, spec, bound):
    from metalift import ir
    vs = [(ir.Var(n, ty(k)), k) for n, k in spec]
    vc = conj(rng, vs)
    text, err = emit(rng, {v for v, _ in vs}, vc, bound, rng.random() < .3)
    key = (tuple(spec), bound)
    c.case(key)
    d = dict(spec=spec, bound=bound, text=(text or "")[:5000])
    if text is None:
        c.fail("rejected:" + "+".join(sorted({str(k) for _, k in spec})), f"no search problem for variables {spec}, bound {bound}: {type(err).__name__}: {err}", **d)
        return
    try:
        P = Problem(text)
    except (ValueError, sexp.ReadError, KeyError) as x:
        c.fail("declarations", f"variables {spec}, bound {bound}: {x}", **d)
        return
    names = [n for n, _ in spec]
    if any(n not in P.defined for n in names):
        c.fail("undeclared", f"{[n for n in names if n not in P.defined]} not declared", **d)
        return
    for fa in P.forall:
        if sorted(fa) != sorted(P.symbols) or len(set(fa)) != len(fa):
            c.fail("forall", f"search is over all {sorted(fa)}, the symbolic constants are {sorted(P.symbols)}", **d)
            return
        c.count("forall_lists")
    # every assignment gives values of the type, and the condition means the same on them
    hits = 0
    for k in range(60):
        if hits >= 6:
            break
        a = {s: (rng.choice([rng.randint(0, bound), rng.randint(-3, 9)]) if t == "integer?" else rng.random() < .5) for s, t in P.symbols.items()}
        if k < 40:
            a = {s: (rng.randint(0, bound) if t == "integer?" else v) for (s, t), v in zip(P.symbols.items(), a.values())}
        try:
            env = P.run(a)
        except (rkteval.RktError, ireval.Undefined, IndexError, ValueError):
            continue
        hits += 1
        for n, k2 in spec:
            if not welltyped(env[n], k2, bound):
                c.fail("ill-typed", f"{n} of type {k2} takes the value {env[n]!r} (bound {bound})", assignment=a, **d)
                return
            c.count("values_seen")
        known, ref = ireval.try_eval(vc, {n: dec(env[n], k2) for n, k2 in spec})
        try:
            got = P.lib.value(P.assertion, {n: env[n] for n in names})
        except (rkteval.RktError, ireval.Undefined, KeyError) as x:
            got = repr(x)
        if known and ref != got:
            c.fail("assertion", f"the condition {vc!r} is {ref} on {env}, the program asserts {got}", **d)
            return
        c.count("conditions_checked")
    if hits == 0:
        c.fail("no-values", f"no assignment gives values to {spec}, bound {bound}", **d)
        return
    dep = affects(rng, P, names, bound)
    for n, m in itertools.combinations(names, 2):
        if dep[n] & dep[m]:
            c.fail("dependent", f"{n} and {m} both depend on {sorted(dep[n] & dep[m])}", **d)
            return
        c.count("independent_pairs")
    for n, k in spec:
        st = structure(P, n, bound)
        for target in extremes(rng, k, bound):
            t = rkteval.enc(target) if not isinstance(target, frozenset) else tuple(sorted(target))
            t = enc(target)
            a = reach(P, n, t, st) if not has_set(k) else None
            if a is None:
                used = sorted(dep[n])
                a = brute(P, n, k, t, used)
                if a == "too many":
                    if has_set(k):
                        c.count("skipped_sets")
                        continue
                    c.fail(f"unreachable:{k}", f"{n} of type {k} cannot take the value {target!r} (bound {bound})", **d)
                    return
                if a is None:
                    c.fail(f"unreachable:{k}", f"{n} of type {k} cannot take the value {target!r} (bound {bound})", **d)
                    return
                c.count("reached_by_search")
            c.count("reached")
            c.count("reached_" + (k if isinstance(k, str) else k[0]))
            if k not in ("i", "b"):
                c.nontrivial((k, bound, target))
    c.sample("\n".join(l for l in text.splitlines() if "define-symbolic" in l or "take" in l)[:600], cap=4)


def enc(v):
    if isinstance(v, frozenset):
        return tuple(sorted(v))
    if isinstance(v, tuple):
        return tuple(enc(x) for x in v)
    return v


def dec(v, c):
    if c == "s":
        return frozenset(v)
    if isinstance(c, tuple) and c[0] == "T":
        return ireval.TupV(dec(x, y) for x, y in zip(v, c[1:]))
    el = {"n": "l"}.get(c) or (c[1] if isinstance(c, tuple) and c[0] == "L" else None)
    if el is not None:
        return tuple(dec(x, el) for x in v)
    return v


def run(c):
    os.chdir(boot.scratch())
    os.makedirs("synthesisLogs", exist_ok=True)
    c.require("reached", 500)
    c.require("independent_pairs", 30)
    c.require("conditions_checked", 50)
    for k in ("m", "t", "s", "n", "T", "L", "B"):
        c.require("reached_" + k, 10)
    c.require("widths", 12)
    c.require("uninterpreted functions", 10)
    widths(c)
    unknown_functions(c)
    # every type with every small bound on its own
    for k in TYPES:
        for b in range(1, c.n(4, 6)):
            if (k in ("t",) and b > 4) or (k == ("L", "n") and b > 3):
                continue
            case(c, c.rng("single", k, b), [("x", k)], b)
    # names that look like parts of one another
    for k in TYPES:
        if k in ("i", "b"):
            continue
        for part in ("x{}", "x_{}", "x-{}"):
            case(c, c.rng("parts", k, part), [("x", k)] + [(part.format(j), "i") for j in (0, 1, "len")], 1 if k in ("t", ("L", "n")) else 2)
    for i in range(c.n(40, 700)):
        if c.out_of_time(150, 3000):
            break
        r = c.rng("many", i)
        pool = ["x", "y", "x1", "arg_0", "f_rv", "i", "data", "x_len", "X", "lst", "xy", "x_0", "x_1"]
        names = r.sample(pool, r.randint(2, 5))
        b = r.choice([1, 2, 2, 3])
        small = [k for k in TYPES if not (k in ("t", ("L", "n")) and b > 2)]
        case(c, r, [(n, r.choice(small)) for n in names], b)
    c.assumptions.append("in the emitted program only the declarations are executed; values of matrices and tensors have `bound` columns per row, as documented in the property")


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
