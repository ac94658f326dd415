"""C07: a synthesizer answer is read back as the expression it prints.

Monitor: random sets of functions to synthesize go through the real `synthesize_rosette.synthesize` with
a scripted Racket (verification switched off); the answer prints random members of each function's
grammar the way print-forms does (line breaks, source locations, quotes, any order, other output in
between, single choices left as nonterminals).  Every returned definition is evaluated against the
expression that was printed.
"""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, fnlib, ireval, boot, sexp, fakeproc
from mon.harness import quiet
from mon.sexp import Sym

PID, LEVEL = "C07", "exploration"
RULE = "an answer with at least one function whose printed body has an operator and was evaluated to a defined value"
FEAT = {**irgen.ROS, "shadow_types": True, "types": irgen.ROS["types"] + [("T", "b", "i"), ("T", "i", "l")]}
T = irgen.ty
NAMES = ["f", "f_1", "f_10", "inv0", "inv01", "prog_ps", "prog_ps_2", "prog_inv0", "define_it", "x", "lst-sum"]


def flat(e):
    """No one-operand sums etc. and no variable captured by coincidence."""
    from metalift import ir
    if not isinstance(e, ir.Expr) or isinstance(e, (ir.Var, ir.Lit)):
        return e
    if isinstance(e, (ir.Add, ir.Mul, ir.And, ir.Or, ir.Sub)) and len(e.args) == 1:
        return flat(e.args[0])
    return e.map_args(flat)


def pretty(rng, text):
    out = []
    toks = re.findall(r"\(|\)|[^\s()]+", text)
    style = rng.random()
    for i, tok in enumerate(toks):
        if tok == ")":
            out.append(")")
            continue
        if out and out[-1] != "(" and not out[-1].endswith("\n"):
            brk = style < .6 and rng.random() < .2
            out.append("\n" + " " * rng.randint(1, 12) if brk else " ")
        out.append(tok)
    return "".join(out)


def hof(rng):
    """Target functions that take a function."""
    from metalift import ir
    f1, f2 = ir.Var("g", T(("F", "i", "i"))), ir.Var("g", T(("F", "b", "i", "b")))
    a, b = ir.Var("a", T("i")), ir.Var("b", T("b"))
    k = ir.CallValue(f1, ir.CallValue(f1, a))
    return [(ir.FnDecl("twice", T("i"), k, a, f1), "i", ["i", ("F", "i", "i")]),
            (ir.FnDecl("pick_b", T("b"), ir.CallValue(f2, a, ir.Not(b)), f2, a, b), "b", [("F", "b", "i", "b"), "i", "b"])]


class Case:
    pass


def build(rng):
    from metalift import ir
    P = Case()
    decls, sigs = fnlib.library(rng, FEAT, depth=2, n=rng.randint(0, 3))
    if rng.random() < .5:
        decls, sigs = [], {}
    hofs = hof(rng) if rng.random() < .5 else []
    P.decls = decls + [h[0] for h in hofs]
    if hofs:
        P.decls.append(ir.FnDecl("plus3", T("i"), ir.Add(ir.Var("z", T("i")), ir.IntLit(3)), ir.Var("z", T("i"))))
        sigs["plus3"] = ("i", ["i"])
    P.uninterp = {}
    if rng.random() < .3:
        P.uninterp["opaque"] = ("i", ["i", "i"])
        P.decls.append(ir.FnDeclRecursive("opaque", T("i"), None, ir.Var("p", T("i")), ir.Var("q", T("i"))))
        sigs["opaque"] = ("i", ["i", "i"])
    names = rng.sample(NAMES, rng.randint(1, 4))
    P.items = []
    done = dict(sigs)
    scope_all = irgen.scope_for(FEAT)
    for n in names:
        ret = rng.choice(FEAT["types"])
        args = dict(rng.sample(sorted(scope_all.items()), rng.choice([0, 1, 2, 3, 4, 5]) if rng.random() < .8 else len(scope_all)))
        args = {("predefined" if a == "i1" and rng.random() < .3 else a): t for a, t in args.items()}
        sc = dict(args)
        holes = {}
        for h, hr, ha in (hofs if rng.random() < .7 else []):
            hn = f"hole_{h.name()}"
            vals = []
            for a in ha:
                if isinstance(a, tuple):
                    if a == ("F", "i", "i") and rng.random() < .3:
                        vals.append(ir.Var("plus3", T(a)))
                        continue
                    ps = {f"la{q}": c for q, c in enumerate(a[2:])}
                    if rng.random() < .3 and args:
                        ps = dict(zip(rng.sample(sorted(args), min(len(args), len(ps))) + sorted(ps), ps.values()))
                    vals.append(ir.Lambda(T(a[1]), flat(irgen.Gen(rng, FEAT, {**sc, **ps}, done).expr(a[1], 2)),
                                          *[ir.Var(p, T(c)) for p, c in ps.items()]))
                else:
                    vals.append(irgen.Gen(rng, FEAT, sc, done).expr(a, 1))
            holes[hn] = ir.Call(h.name(), T(hr), *vals)
        e = irgen.Gen(rng, FEAT, {**sc, **{h: c.type == ir.Bool and "b" or "i" for h, c in holes.items()}}, done).expr(ret, rng.choice([1, 2, 3, 4]))
        e = flat(plug(e, holes))
        P.items.append((n, ret, args, e))
        done[n] = (ret, list(args.values()))
    P.sigs = done
    return P


def plug(e, m):
    from metalift import ir
    if isinstance(e, ir.Var):
        return m.get(e.args[0], e)
    if not isinstance(e, ir.Expr) or isinstance(e, ir.Lit):
        return e
    if isinstance(e, ir.Let):
        inner = {k: v for k, v in m.items() if k != e.args[0].args[0]}
        return ir.Let(e.args[0], plug(e.args[1], m), plug(e.args[2], inner))
    return e.map_args(lambda x: plug(x, m) if isinstance(x, ir.Expr) else x)


def wrap(rng, e, p):
    """Grammar with exactly one member: choices of one alternative around random subterms."""
    from metalift import ir
    if not isinstance(e, ir.Expr) or isinstance(e, (ir.Lambda, ir.Let)):
        return e
    if isinstance(e, (ir.Var, ir.Lit)):
        return ir.Choose(e) if rng.random() < p else e
    if isinstance(e, ir.TupleGet):
        return e
    if isinstance(e, ir.Call):
        e = ir.Call(e.name(), e.type, *[a if isinstance(a, ir.Expr) and ir.is_fn_decl_type(a.type) else wrap(rng, a, p) for a in e.arguments()])
    elif not isinstance(e, ir.CallValue):
        e = e.map_args(lambda a: wrap(rng, a, p))
    while rng.random() < p:
        e = ir.Choose(e)
    return e


def distinct(rng, e):
    """A different expression of the same type (the alternative that is not printed)."""
    from metalift import ir
    if e.type == ir.Int:
        return ir.Add(e, ir.IntLit(1))
    if e.type == ir.Bool:
        return ir.Not(e)
    return None


def leave_or_expand(rng, form, prods, keep):
    """Replace (vN) of single-alternative productions by their body, or leave them."""
    if isinstance(form, list):
        if len(form) == 1 and isinstance(form[0], Sym) and str(form[0]) in prods:
            if rng.random() < keep:
                return form
            return leave_or_expand(rng, prods[str(form[0])], prods, keep)
        return [leave_or_expand(rng, x, prods, keep) for x in form]
    return form


def racket_show(f):
    if isinstance(f, list):
        return "(" + " ".join(racket_show(x) for x in f) + ")"
    return str(f)


def read_rkt(text):
    """A tiny reader that keeps every token."""
    toks = re.findall(r"[\[(]|[\])]|[^\s()\[\]]+", text)
    pos = 0

    def one():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t in "([":
            out = []
            while toks[pos] not in (")", "]"):
                out.append(one())
            pos += 1
            return out
        return Sym(t)
    out = []
    while pos < len(toks):
        out.append(one())
    return out


def grammars(rkt):
    out = {}
    for m in re.finditer(r"\(define-grammar \((\S+)_gram", rkt):
        # one balanced form
        i, d = m.start(), 0
        for j in range(i, len(rkt)):
            d += rkt[j] in "(["
            d -= rkt[j] in ")]"
            if d == 0:
                break
        f = read_rkt(rkt[i:j + 1])[0]
        out[m.group(1)] = {str(p[0]): p[1][1:] for p in f[2:]}
    return out


def answer(rng, P, rkt, shown):
    where = rng.choice(["/home/u/w/synthesisLogs/t.rkt", "/tmp/define/x.rkt", "/opt/a(b)/t.rkt", "/x y/t.rkt"])
    parts = []
    order = list(P.items)
    rng.shuffle(order)
    for i, (n, ret, args, e) in enumerate(order):
        mode = P.modes[n]
        if mode == "omitted":
            continue
        if mode == "kept":
            prods = {k: v[0] for k, v in grammars(rkt)[n].items() if len(v) == 1}
            body = racket_show(leave_or_expand(rng, prods["rv"], prods, rng.choice([.3, .7, 1.0])))
        else:
            body = e.to_rosette()
        body = pretty(rng, body.replace("[", "(").replace("]", ")"))
        lead = rng.choice(["", "'", "'"])
        sep = "\n" + " " * (2 + len(lead)) if rng.random() < .7 or len(body) > 60 else " "
        parts.append(f"{where}:{20 + i}:0\n{lead}(define ({' '.join([n, *args])}){sep}{body})")
        shown[n] = parts[-1]
    return "#t\n" + "\n".join(parts) + "\n"


def form_case(rng, forms):
    """Functions whose bodies are single constructors (or two of them) on their parameters."""
    P = Case()
    P.decls, P.uninterp, P.sigs = [], {}, {}
    P.items = [(f"f{j}", ret, args, e) for j, (_, ret, args, e) in enumerate(forms)]
    P.sigs = {n: (ret, list(args.values())) for n, ret, args, _ in P.items}
    return P


def case(c, rng, i, broken=None, P=None, env_of=irgen.rand_env):
    from metalift import ir, synthesize_rosette as sr
    forms = P is not None
    P = P or build(rng)
    P.modes, synths = {}, []
    for n, ret, args, e in P.items:
        m = rng.choice(["plain", "plain", "kept", "omitted"] if broken is None and not forms else ["plain"])
        if m == "plain":
            d = distinct(rng, e)
            alts = [e] if d is None else rng.sample([e, d], 2)
            if rng.random() < .3:
                alts = [rng.choice(alts)]
            g = ir.Choose(*alts) if d is not None or rng.random() < .5 else e
        else:
            g = wrap(rng, e, .25)
        P.modes[n] = m
        synths.append(ir.Synth(n, g, *[ir.Var(a, T(t)) for a, t in args.items()]))
    shown = {}
    state = {}

    def racket(w, argv, p):
        rkt = open(argv[-1]).read()
        out = re.search(r'"(synthesisLogs/[^"]+)"', rkt).group(1)
        text = answer(rng, P, rkt, shown)
        if broken:
            text = broken(rng, text, P, state)
        state["text"] = text
        w.at(.1, lambda: open(out, "w").write(text))
        w.at(.2, lambda: setattr(p, "_rc", 0 if p._rc is None else p._rc))
    w = fakeproc.World()
    w.programs = [(lambda a: True, racket)]
    infos = list(synths)
    vs = {ir.Var("vv", ir.Int)}
    kind, res = None, None
    with w, quiet():
        try:
            res = sr.synthesize("t", list(P.decls), vs, synths, [], ir.Le(ir.Var("vv", ir.Int), ir.IntLit(3)), infos, "cvc5",
                                no_verify=True, log=False, uninterp_fns=list(P.uninterp))
            kind = "ok"
        except fakeproc.Hang as x:
            kind, res = "hang", x
        except Exception as x:
            kind, res = "error", x
    if broken:
        return P, kind, res, state
    c.case(tuple((n, repr(e)) for n, _, _, e in P.items))
    d = dict(text=state.get("text", "")[:3000], synths=[repr(s)[:500] for s in synths])
    if kind != "ok":
        c.fail("rejected" if kind == "error" else "hang", f"a well-formed answer is not read back: {type(res).__name__}: {res}", **d)
        return
    if [f.name() for f in res] != [n for n, *_ in P.items] and sorted(f.name() for f in res) != sorted(n for n, *_ in P.items):
        c.fail("functions", f"answer defines {[n for n, *_ in P.items]}, read back {[f.name() for f in res]}", **d)
        return
    got = {f.name(): f for f in res}
    opaque = lambda a, b: a * 3 - b
    refs = {x.name(): x for x in P.decls if x.body() is not None}
    refs["opaque"] = opaque
    ref_items = {n: ir.FnDeclRecursive(n, T(ret), e, *[ir.Var(a, T(t)) for a, t in args.items()]) for n, ret, args, e in P.items}
    R1, R2 = {**refs, **ref_items}, {**refs, **{k: v for k, v in got.items()}}
    done_names = {x.replace("-", "_") for x in P.sigs}
    for n, ret, args, e in P.items:
        g = got[n]
        if [(a.args[0], a.type) for a in g.arguments()] != [(a, T(t)) for a, t in args.items()]:
            c.fail("parameters", f"{n} takes {args}, read back with {[(a.args[0], a.type) for a in g.arguments()]}", **d)
            return
        if not sametype(g.body().type, e.type) or not sametype(g.return_type(), e.type):
            c.fail("type", f"{n} returns {e.type}, read back as {g.body().type} / {g.return_type()}: {shown.get(n)}", **d)
            return
        hits = 0
        for _ in range(24 if forms else 14):
            if hits >= (8 if forms else 5):
                break
            env = env_of(rng, args)
            try:
                ref = irgen.RectEv(R1).ev(e, env)
            except (ireval.Undefined, RecursionError):
                continue
            hits += 1
            c.count("evaluations")
            try:
                v = irgen.RectEv(R2).ev(g.body(), env)
            except (ireval.Undefined, ireval.EvalError, RecursionError, KeyError, AttributeError) as x:
                v = x
            if isinstance(v, Exception) or not ireval.same(ref, v):
                c.fail("meaning", f"{n}: printed\n{shown.get(n)}\n means {ref!r} on {env}, read back {g.body()!r} means {v!r}", **d)
                return
        c.count(f"mode_{P.modes[n]}")
        c.count("functions_read")
        for k in kinds(e):
            if k not in done_names:
                c.count("form_" + k)
        if hits and e.args and any(isinstance(a, ir.Expr) for a in e.args):
            c.nontrivial((n, repr(e)))
    c.sample(state["text"][:400], cap=5)


def kinds(e):
    from metalift import ir
    out = set()

    def go(x):
        if isinstance(x, ir.Expr):
            out.add(x.name().replace("-", "_") if isinstance(x, ir.Call) else type(x).__name__)
            for a in x.args:
                go(a)
    go(e)
    return out


def sametype(a, b):
    """Types up to the matrix / nested list difference, which the printed text does not show."""
    def n(t):
        s = str(t).replace("metalift.ir.", "").replace("<class 'Int'>", "Int")
        return s.replace("Matrix[Int]", "List[List[Int]]").replace("Tensor3D[Int]", "List[List[List[Int]]]")
    return a == b or n(a) == n(b)


# ---------------------------------------------------------------- answers that mean nothing
def unknown_fn(rng, text, P, st):
    heads = [m for m in re.finditer(r"\((\+|-|\*|<|<=|>|>=|equal\?|&&|if|length)[ \n]", text)]
    if not heads:
        return None
    m = rng.choice(heads)
    return text[:m.start(1)] + rng.choice(["frobnicate", "bvadd", "list-reverse", "string-append"]) + text[m.end(1):]


def unknown_var(rng, text, P, st):
    out = []
    for n, _, args, e in P.items:
        for a in args:
            out += [m for m in re.finditer(r"(?<=[ \n])" + re.escape(a) + r"(?=[ )\n])", text)
                    if "define" not in text[text.rfind("\n", 0, m.start()) + 1:m.start()] or text[:m.start()].rfind(")") > text[:m.start()].rfind("define")]
    body = [m for m in out if text[max(0, m.start() - 200):m.start()].rfind("(define (") < text[max(0, m.start() - 200):m.start()].rfind(")")
            and not re.search(r"\(let \(\([^)]*$|lambda \([^)]*$", text[:m.start()])]
    if not body:
        return None
    m = rng.choice(body)
    return text[:m.start()] + "nonexistent" + text[m.end():]


def unbalanced(rng, text, P, st):
    idx = [i for i, ch in enumerate(text) if ch == "(" and "define" not in text[i:i + 8] and not text[i - 8:i].endswith("define ")
           and "/" not in text[text.rfind("\n", 0, i) + 1:i + 1]]
    if not idx:
        return None
    i = rng.choice(idx)
    return text[:i] + " " + text[i + 1:]


def rejected(c, rng, i, how):
    for _ in range(20):
        def broken(r, t, P, st):
            b = how(r, t, P, st)
            st["mutated"] = b is not None
            return b if b is not None else t
        P, kind, res, st = case(c, rng, i, broken)
        if st.get("mutated"):
            break
    else:
        return
    c.case((how.__name__, st["text"]))
    if kind != "error":
        c.fail(f"accepts-{how.__name__}", f"an answer with {how.__name__.replace('_', ' ')} is read as {[f.body() for f in res] if kind == 'ok' else kind}", text=st["text"][:2500])
    else:
        c.count("rejected_" + how.__name__)


def run(c):
    os.chdir(boot.scratch())
    os.makedirs("synthesisLogs", exist_ok=True)
    c.require("evaluations", 800)
    c.require("functions_read", 300)
    c.require("mode_kept", 30)
    for k in ("Let", "Lambda", "list_append", "tensor3d_slice", "Ite", "TupleExpr", "Mod", "Or", "set_union"):
        if k != "set_union":
            c.require("form_" + k, 2)
    for i in range(c.n(350, 6000)):
        if c.out_of_time(200, 3600):
            break
        case(c, c.rng("case", i), i)
    fs = list(irgen.form_exprs(FEAT))
    c.rng("forms").shuffle(fs)
    c.require("forms_read", len(fs) * 9 // 10)
    for i in range(0, len(fs), 16):
        if c.out_of_time(400, 4800):
            break
        case(c, c.rng("forms", i), i, None, form_case(c.rng("forms", i), fs[i:i + 16]), irgen.form_env)
        c.count("forms_read", len(fs[i:i + 16]))
    for how in (unknown_fn, unknown_var, unbalanced):
        c.require("rejected_" + how.__name__, 5)
        for i in range(c.n(20, 200)):
            rejected(c, c.rng(how.__name__, i), i, how)
    c.assumptions.append("what Racket prints is modelled from the emitted grammar; Racket itself is not installed")


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
