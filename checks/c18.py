"""C18: the language-model pipeline accepts a solution only when the verifier proved the condition for that solution.

Monitor: the shipped benchmark drivers run unchanged against scripted model answers and scripted solver outcomes.
Whenever the pipeline starts a solver, the file it is given is loaded into an independent evaluator and compared with
the answers that are being tried (run as Python) and with the verification condition of the driver; the sequence of
solver runs and the final acceptance are compared with what the script allows.
"""
import os, re, sys, io, ast, json, types, shutil, random, hashlib, runpy, subprocess, contextlib, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import boot, harness, ireval, fakeproc, smteval, rkteval, sexp
from mon.ireval import Undefined, EvalError, same

PID, LEVEL = "C18", "exploration"
RULE = "a solver run of the real pipeline whose file was evaluated against the submitted answers (distinct = answers x method x outcome)"
OUTCOMES = {
    "cvc5": {"unsat": (b"unsat\n(error \"cannot get model\")\n", 0), "unsat-only": (b"unsat\n", 0), "sat": (b"sat\n(\n(define-fun i () Int 0)\n)\n", 0),
             "unknown": (b"unknown\n(\n)\n", 0), "timeout": (b"cvc5 interrupted by timeout.\n", 0), "empty": (b"", 0), "segv": (b"", -11), "killed": (b"", -9),
             "error": (b"(error \"Parse Error: x.smt:3.2: Symbol 'unsat' not declared\")\n", 1), "abort": (b"", 134), "sat-unsat": (b"sat\nunsat\n", 0),
             "missing": None, "unsat-killed": (b"unsat\n", -15), "unsat-segv": (b"unsat\n", -11), "error0": (b"(error \"unsat core\")\n", 0)},
    "racket": {"unsat": (b"(unsat)\n", 0), "unsat-only": (b"(unsat)", 0), "sat": (b"(model\n [i 0])\n", 0), "unknown": (b"(unknown)\n", 0), "timeout": (b"", -15),
               "empty": (b"", 0), "segv": (b"", -11), "error": (b"", 1), "abort": (b"", 134), "sat-unsat": (b"(model\n [i 0])\n(unsat)\n", 0), "missing": None,
               "unsat-failed": (b"(unsat)\n", 1), "unsat-killed": (b"(unsat)\n", -9), "unsat-segv": (b"(unsat)", -11), "error0": (b"error: (unsat)\n", 0), "plain": (b"#<void>\n", 0)},
}
GOOD = ("unsat", "unsat-only")
BENCH = ["darken_blend_8", "multiply_blend_8", "linear_burn_8", "color_burn_8", "lighten_blend_8", "screen_blend_8", "linear_dodge_8", "color_dodge_8",
         "overlay_blend_8", "dissolve_blend_8", "normal_blend_8", "normal_blend_f", "matmul", "transformer_part3", "transformer_part4"]


# ------------------------------------------------------------------ stand-ins for what the sandbox cannot have
class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class Model:
    """One scripted conversation partner behind all three client libraries."""
    ask = staticmethod(lambda messages: "")


def install():
    g, gg = types.ModuleType("google"), types.ModuleType("google.generativeai")

    class GenerativeModel:
        def __init__(self, *a, **k):
            pass

        def start_chat(self, history=()):
            hist = [{"role": m["role"], "content": m["parts"]} for m in history]

            def send(text, *a, **k):
                return Obj(text=Model.ask(hist + [{"role": "user", "content": text}]))
            return Obj(send_message=send)
    gg.GenerativeModel = GenerativeModel
    gg.configure = lambda *a, **k: None
    g.generativeai = gg
    sys.modules["google"], sys.modules["google.generativeai"] = g, gg
    o = types.ModuleType("openai")

    class OpenAI:
        def __init__(self, *a, **k):
            def create(messages, **k):
                return Obj(choices=[Obj(message=Obj(content=Model.ask([m for m in messages if m["role"] != "system"])))])
            self.chat = Obj(completions=Obj(create=create))
    o.OpenAI = OpenAI
    sys.modules["openai"] = o
    an = types.ModuleType("anthropic")

    class Anthropic:
        def __init__(self, *a, **k):
            self.messages = Obj(create=lambda messages, **k: Obj(content=[Obj(text=Model.ask(list(messages)))]))
    an.Anthropic = Anthropic
    sys.modules["anthropic"] = an
    if "dotenv" not in sys.modules:
        try:
            import dotenv  # noqa
        except ImportError:
            d = types.ModuleType("dotenv")
            d.load_dotenv = lambda *a, **k: False
            sys.modules["dotenv"] = d
    os.environ["BITWUZLA_PATH"] = "/nonexistent/bitwuzla"


def norm(text):
    return re.sub(r"\s|\(|\)", "", text)


# ------------------------------------------------------------------ the solver file against the submitted answers
def hpred(name, args):
    def canon(x):
        return tuple(canon(y) for y in x) if isinstance(x, (tuple, list)) else x
    return hashlib.blake2b(repr((name, [canon(a) for a in args])).encode(), digest_size=1).digest()[0] % 3 > 0


def rand_of(r, t, n=None):
    from metalift import ir
    if t == ir.Int:
        return r.choice([0, 0, 1, 1, 2, 3, 32, 40])
    if t == ir.Bool:
        return r.random() < .5
    if ir.is_list_type(t) and not ir.is_nested_list_type(t):
        return tuple(rand_of(r, ir.Int) for _ in range(r.randint(0, 3) if n is None else n))
    w = r.randint(1, 3)
    return tuple(tuple(rand_of(r, ir.Int) for _ in range(w)) for _ in range(r.randint(1, 3)))


def env_of(r, variables):
    """Values for the variables of a driver: matrices share their shape most of the time."""
    from metalift import ir
    h, w = r.randint(1, 3), r.randint(1, 3)
    env = {}
    for v in variables:
        n, t = v.name(), v.type
        if t == ir.Int or t == ir.Bool:
            env[n] = rand_of(r, t)
        elif ir.is_list_type(t) and not ir.is_nested_list_type(t) and not ir.is_matrix_type(t):
            env[n] = rand_of(r, t, w if r.random() < .6 else None)
        else:
            hh = h if r.random() < .8 else r.randint(0, 3)
            env[n] = tuple(tuple(r.choice([0, 1, 2, 3, 32]) for _ in range(w)) for _ in range(hh))
    return env


def fdiv(a, b):
    """Division where the languages agree about it."""
    if a < 0 or b <= 0:
        raise Undefined("division")
    return a // b


def fmod(a, b):
    return a - b * fdiv(a, b)


class Div(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.FloorDiv: "__fdiv", ast.Mod: "__fmod"}.get(type(n.op))
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n) if f else n


def pyexec(text, ns):
    ns.update(__fdiv=fdiv, __fmod=fmod)
    exec(compile(ast.fix_missing_locations(Div().visit(ast.parse("from typing import *\n" + text))), "answers", "exec"), ns)


class Text:
    """The answers being tried, run as Python."""

    def __init__(self, dsl_code, ps, inv, bench):
        ns = {}
        pyexec(dsl_code, ns)
        ns2 = dict(ns)
        pyexec(ps, ns)
        pyexec(inv, ns2)
        self.f = {}
        for tree, n in ((ast.parse(ps), ns), (ast.parse(inv), ns2)):
            for d in tree.body:
                if isinstance(d, ast.FunctionDef):
                    k = {"invariant": f"{bench}_inv0", "invariant1": f"{bench}_inv0", "invariant2": f"{bench}_inv1", bench: f"{bench}_ps"}.get(d.name, d.name)
                    self.f[k] = (sorted(a.arg for a in d.args.args), {a.arg: ast.unparse(a.annotation) for a in d.args.args}, n[d.name], k.endswith("_ps"))

    def call(self, name, args):
        ps, _, f, isps = self.f[name]
        out = None
        if isps:
            args, out = args[:-1], args[-1]
        if len(args) != len(ps):
            raise EvalError(f"{name} takes {len(ps)} arguments")

        def lst(x):
            return [lst(y) for y in x] if isinstance(x, tuple) else x
        try:
            v = f(**{p: lst(a) for p, a in zip(ps, args)})
        except (IndexError, ZeroDivisionError, RecursionError, TypeError):
            raise Undefined("python")
        return v == lst(out) if isps else v

    def output(self, name, args):
        ps, _, f, _ = self.f[name]

        def lst(x):
            return [lst(y) for y in x] if isinstance(x, tuple) else x

        def tup(x):
            return tuple(tup(y) for y in x) if isinstance(x, list) else x
        try:
            return tup(f(**{p: lst(a) for p, a in zip(ps, args)}))
        except (IndexError, ZeroDivisionError, RecursionError, TypeError, Undefined):
            return None


TYPES = {"int": "i", "bool": "b", "List[int]": "l", "List[List[int]]": "n"}


def arg_values(r, ps, ann):
    h, w = r.randint(1, 3), r.randint(1, 3)
    out = []
    for p in ps:
        t = ann[p]
        if t == "int":
            out.append(r.randint(0, {"row": h, "col": w}.get(p, 3)))
        elif t == "bool":
            out.append(r.random() < .5)
        elif t == "List[int]":
            out.append(tuple(r.randint(0, 3) for _ in range(w)))
        else:
            out.append(tuple(tuple(r.choice([0, 1, 2, 3, 32]) for _ in range(w)) for _ in range(h)))
    return out


def load_smt(path):
    s = smteval.Smt(fuel=400000)
    s.load(open(path).read())
    def words(t):
        return {str(t)} if not isinstance(t, list) else set().union(*[words(x) for x in t]) if t else set()
    goals = [a for a in s.asserts if not (isinstance(a, list) and a and a[0] == "forall") and words(a) & set(s.consts)]
    if len(goals) != 1:
        raise smteval.SmtError(f"{len(goals)} assertions about the variables of the program")
    names = set(s.fns) | set(s.declared)

    def over(name, f):
        s.fns[name] = f

    def query(env):
        return not s.value(goals[0], env)
    return names, lambda n, a: s.apply(n, list(a)), over, query, (smteval.SmtError,)


def load_rkt(path):
    rk = rkteval.library()
    goal = []
    for f in sexp.read_all("\n".join(l for l in open(path).read().split("\n") if not l.startswith("#lang")), racket=True):
        h = f[0] if isinstance(f, list) and f else None
        if h in ("require", "define-symbolic", "define-symbolic*", "current-solver", "current-bitwidth"):
            continue
        if h == "define" and not isinstance(f[1], list):
            if isinstance(f[2], list) and f[2] and f[2][0] == "verify":
                if len(f[2]) != 2 or f[2][1][0] != "assert" or len(f[2][1]) != 2:
                    raise rkteval.RktError("unexpected verification query")
                goal.append(f[2][1][1])
            continue
        if not isinstance(f, list):
            continue
        rk.toplevel(f)
    if len(goal) != 1:
        raise rkteval.RktError(f"{len(goal)} verification queries")
    names = set(rk.top)

    def apply(n, a):
        rk.fuel = rk.fuel0
        return rk.top[n](*[rkteval.enc(x) for x in a])

    def over(n, f):
        rk.top[n] = f

    def query(env):
        return rk.value(goal[0], {k: rkteval.enc(v) for k, v in env.items()})
    return names, apply, over, query, (rkteval.RktError,)


def inspect(path, kind, st, r, nval, fail, count):
    """The file given to the solver is the driver's condition with the submitted functions."""
    try:
        names, apply, over, query, bad = (load_smt if kind == "cvc5" else load_rkt)(path)
    except Exception as x:
        fail("ill-formed", f"the file given to {kind} cannot be read: {type(x).__name__}: {x}", file=open(path).read()[-4000:])
        return
    t = Text(st["dsl"], st["ps"], st["inv"], st["bench"])
    ext = {}
    for n, (ps, ann, f, isps) in sorted(t.f.items()):
        if n not in names:
            fail("missing", f"{n} of the answer is not defined in the file given to {kind}", answers=st["ps"] + st["inv"], file=open(path).read()[-4000:])
            return
        for _ in range(nval):
            args = arg_values(r, ps, ann)
            if isps:
                want_out = t.output(n, args)
                if want_out is None:
                    count("undefined")
                    continue
                args = args + [want_out if r.random() < .6 else arg_values(r, ["out"], {"out": "List[int]" if want_out and isinstance(want_out[0], int) else "List[List[int]]"})[0]]
            elif st["output"] in ps and r.random() < .7:
                # make the equations of the invariant true half of the time
                args = st["inv_values"](t, n, ps, args, r)
            try:
                want = t.call(n, args)
                got = apply(n, args)
            except (Undefined, RecursionError):
                count("undefined")
                continue
            except bad as x:
                # a list operation out of its range
                if re.search(r"out of range|empty list", str(x)):
                    count("undefined")
                    continue
                fail("ill-formed", f"{n} in the file given to {kind} cannot be evaluated: {x}", file=open(path).read()[-4000:])
                return
            count("functions compared")
            if want:
                count("functions compared true")
            if bool(want) != bool(got):
                fail("other-solution", f"{n} on {args}: the submitted function gives {want}, the one given to {kind} gives {got}", answers=st["ps"] + st["inv"])
                return
    # the condition itself, with arbitrary functions in place of the candidates
    vc = None
    for n in t.f:
        def p(*a, n=n):
            return hpred(n, a)
        over(n, p)
        ext[n] = p
    fns = {**{f.name(): f for f in st["dsl_fns"]}, **ext}
    ev = lambda e, env: ireval.Ev(fns, 200000, divmod_=(fdiv, fmod)).ev(e, env)
    from metalift import ir
    for _ in range(nval * 2):
        env = env_of(r, st["driver"].var_tracker.all())
        try:
            want = all([ev(a.src if hasattr(a, "src") else a, env) for a in st["asserts"]])
            got = query(env)
        except (Undefined, RecursionError):
            count("undefined")
            continue
        except bad as x:
            if re.search(r"out of range|empty list", str(x)):
                count("undefined")
                continue
            fail("ill-formed", f"the condition given to {kind} cannot be evaluated: {x}", file=open(path).read()[-4000:])
            return
        count("conditions compared")
        if not want:
            count("conditions compared false")
        if bool(want) != bool(got):
            fail("other-condition", f"the driver's condition is {want} and the one given to {kind} is {got} on {env}", file=open(path).read()[-5000:])
            return


# ------------------------------------------------------------------ scripted answers
def mutate_text(r, text):
    """A well-typed variation of an answer."""
    lines = text.strip("\n").split("\n")
    for _ in range(20):
        k = r.choice(["const", "swap", "fn", "cmp"])
        body = "\n".join(lines)
        if k == "const":
            ms = [m for m in re.finditer(r"(?<![\w.])\d+(?!\w)", body)]
            if ms:
                m = r.choice(ms)
                return body[:m.start()] + str(int(m.group()) + 1) + body[m.end():]
        elif k == "swap":
            ms = [m for m in re.finditer(r"return .*", body)]
            m = r.choice(ms)
            s = m.group()
            s2 = re.sub(r"\b(base|active)\b", lambda x: {"base": "active", "active": "base"}[x.group()], s)
            if s2 != s:
                return body[:m.start()] + s2 + body[m.end():]
        elif k == "fn":
            ms = [m for m in re.finditer(r"(vec|matrix)_(elemwise|scalar)_(add|sub|mul|div)\(", body)]
            if ms:
                m = r.choice(ms)
                o = r.choice([x for x in ("add", "sub", "mul") if x != m.group(3)])
                return body[:m.start()] + f"{m.group(1)}_{m.group(2)}_{o}(" + body[m.end():]
        else:
            ms = [m for m in re.finditer(r"<=|>=", body)]
            if ms:
                m = r.choice(ms)
                return body[:m.start()] + m.group()[0] + body[m.end():]
    return text


def other_lambda(r, texts):
    """The answers with every lambda given another body, the same in each."""
    free = [v for v in ("opacity", "rand_cons") if all(v in t for t in texts)]
    b = r.choice(["{x} - 2 * {y}", "{x} if {x} > {y} + 1 else {y} * 3", "{x} * 3 + {y}"]) if not free else \
        r.choice(["{x} + opacity - 2 * rand_cons", "{x} if opacity > rand_cons else {y}", "{x} * opacity - {y} * 2 - rand_cons",
                  "{x} if opacity - rand_cons > {y} else {y} - rand_cons", "opacity if {x} > {y} else rand_cons"])
    out = []
    for t in texts:
        i = 0
        while m := re.compile(r"lambda (\w+), (\w+): ").search(t, i):
            j, d = m.end(), 0
            while d or t[j] not in "),":
                d += {"(": 1, ")": -1}.get(t[j], 0)
                j += 1
            new = b.format(x=m.group(1), y=m.group(2))
            t, i = t[:m.end()] + new + t[j:], m.end() + len(new)
        out.append(t)
    return out


def bad_answer(r, what, bench, text, output):
    k = r.choice(["syntax", "none", "unknown-function", "loop", "ninvs", "wrong-name", "out-param"] if what == "ps" else ["syntax", "none", "unknown-function", "loop", "ninvs"])
    if k == "syntax":
        return text.replace("return", "retrun ((", 1)
    if k == "none":
        return ""
    if k == "unknown-function":
        return re.sub(r"\b(vec|matrix)_\w+|\bselection_two_args", "not_in_the_dsl", text)
    if k == "loop":
        return text.replace("    return", "    for q in range(3):\n        pass\n    return", 1)
    if k == "ninvs":
        return text.split("def invariant2")[0] if "def invariant2" in text else text + "\n" + re.sub(r"def (\w+)\(", r"def \1_b(", text)
    if k == "wrong-name":
        return re.sub(r"def \w+\(", r.choice([f"def f_{bench}(", "def steps(", "def invariant("]), text, count=1)
    # the result is "computed" from a parameter that has the name of the output
    m = re.match(r"\s*def (\w+)\((.*?)\) -> (.*?):", text)
    ps = [[y.strip() for y in p.split(":")] for p in re.split(r",(?![^\[]*\])", m.group(2))]
    drop = r.choice([p for p in ps if p[1] == m.group(3)] or ps)
    ps = [p for p in ps if p is not drop] + [[output, m.group(3)]]
    return f"\ndef {m.group(1)}({', '.join(': '.join(p) for p in ps)}) -> {m.group(3)}:\n    return {output}\n"


def block(r, text, model):
    lead = r.choice(["", "Here is the solution:\n\n", "Sure!\n"])
    return f"{lead}```{r.choice(['python', 'Python', 'python'])}\n{text.strip(chr(10))}\n```\n" + r.choice(["", "\nThis is equivalent."])


class Found(Exception):
    pass


def episode(k, j, seed, thorough, root, out):
    """One run of a shipped driver against one script."""
    h = hashlib.sha256(repr((PID, seed, "episode", k, j)).encode()).digest()
    r = random.Random(int.from_bytes(h[:8], "big"))
    import llmlift_scripts.synthesis as S
    from llmlift_scripts.correct_sols import correct_sols
    bench = BENCH[(k + 8 * j) % len(BENCH)] if r.random() < .85 else "dissolve_blend_8"
    kind = r.choice(["cvc5", "racket"])
    model = r.choice(["GPT", "GPT", "CLAUDE", "GEMINI"])
    max_ps, max_inv = r.choice([(1, 3), (2, 2), (2, 1), (2, 2)])
    script = {"bench": bench, "solver": kind, "model": model, "max": (max_ps, max_inv)}
    S_ps, S_inv = re.sub(r"def \w+\(", f"def {bench}(", correct_sols[bench]["ps"], count=1), correct_sols[bench]["inv"]
    if "lambda" in S_ps and r.random() < .5:
        S_ps, S_inv = other_lambda(r, [S_ps, S_inv])

    path = next(os.path.join(root, "benchmarks", d, "driver", f"{bench}_driver.py") for d in ("blend", "llama")
                if os.path.exists(os.path.join(root, "benchmarks", d, "driver", f"{bench}_driver.py")))
    m = re.search(r"output_var = .*?\"(\w+)\"\)\n", open(path).read())
    output = m.group(1) if m else "out"
    # the script, and what it allows
    plan, expect, accepted = [], [], None
    for a in range(max_ps):
        x = r.random()
        if x < .2:
            plan.append(("ps", bad_answer(r, "ps", bench, S_ps, output), False))
            continue
        ps = S_ps if x < .6 else mutate_text(r, S_ps)
        plan.append(("ps", ps, True))
        for b in range(max_inv):
            y = r.random()
            if y < .2:
                plan.append(("inv", bad_answer(r, "inv", bench, S_inv, output), False))
                continue
            inv = S_inv if y < .7 else mutate_text(r, S_inv)
            plan.append(("inv", inv, True))
            o = r.choice(sorted(o for o in OUTCOMES[kind] if o not in GOOD and not (OUTCOMES[kind][o] is None)))
            if kind == "racket" and OUTCOMES[kind][o][1] != 0:
                o = r.choice(["sat", "unknown", "empty", "sat-unsat", "error0"])
            if r.random() < .3:
                o = r.choice(GOOD)
            expect.append((ps, inv, o))
            if o in GOOD:
                accepted = ps
                break
        if accepted:
            break
    script["plan"] = [(w, g) for w, _, g in plan]
    script["outcomes"] = [o for _, _, o in expect]
    st = {"bench": bench, "ps": None, "inv": None, "output": output}
    asked, started, first = [], [], []

    def fail(mech, msg, **d):
        out["fails"].append([mech, msg, {**{kk: str(v) for kk, v in d.items()}, "script": json.dumps(script)}])

    def count(n, by=1):
        out["cnt"][n] = out["cnt"].get(n, 0) + by

    def ask(messages):
        prompt = messages[0]["content"]
        if not first:
            first.append(prompt)
        what = "ps" if prompt == first[0] else "inv"
        i = len(asked)
        asked.append(what)
        if i >= len(plan) or plan[i][0] != what:
            raise Found(f"answer {i} asked for is for {what}; the script has {[w for w, _ in script['plan']]}, solver outcomes {script['outcomes']}, {len(started)} solver runs so far")
        st[what] = plan[i][1]
        return block(r, plan[i][1], model)
    Model.ask = staticmethod(ask)

    def inv_values(t, n, ps, args, r):
        """Arguments on which the equations of an invariant have a chance to hold."""
        env = dict(zip(ps, args))
        row, col = env.get("row", 0), env.get("col", 0)
        psf = t.f.get(f"{bench}_ps")
        ins = [p for p in psf[0] if psf[1][p].startswith("List")]
        try:
            cut = row if "row" in env else env.get("i", 0)
            o = t.output(f"{bench}_ps", [env[p][:cut] if p in ins else env[p] for p in psf[0]])
            if o is not None:
                env[output] = o
            if "row_vec" in env:
                o = t.output(f"{bench}_ps", [(env[p][row][:col],) if p in ins else env[p] for p in psf[0]])
                if o:
                    env["row_vec"] = o[0]
        except (IndexError, KeyError, TypeError):
            pass
        return [env[p] for p in ps]
    st["inv_values"] = inv_values

    world = fakeproc.World()
    real = subprocess.Popen

    def passthrough(w, argv, p):
        q = real(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        p.out, p.err = q.communicate()
        p._rc = q.returncode

    def solver(w, argv, p):
        i = len(started)
        started.append((st["ps"], st["inv"]))
        path = next((a for a in argv[1:] if os.path.isfile(a)), None)
        if path is None:
            fail("no-file", f"{argv} is started without an existing file")
        else:
            with contextlib.redirect_stdout(io.StringIO()):
                inspect(path, kind, st, r, 10 if not thorough else 30, fail, count)
        o = expect[i][2] if i < len(expect) else r.choice(["sat", "unknown"])
        out["nt"].append(repr((bench, kind, o, st["ps"], st["inv"])))
        count("solver runs")
        p.out, p._rc = OUTCOMES[kind][o]
    world.programs.append((lambda argv: "filt" in argv[0], passthrough))
    world.programs.append((lambda argv: kind in os.path.basename(argv[0]), solver))

    orig = S.run_llm_synthesis_algorithm
    entered = []

    def run(**kw):
        entered.append(1)
        st["driver"], st["asserts"] = kw["driver"], list(kw["driver"].asserts)
        st["dsl_fns"] = list(kw["dsl_fns"])
        st["dsl"] = "\n\n".join(f.to_python() for f in kw["dsl_fns"])
        kw.update(max_num_ps_sols=max_ps, max_num_inv_sols=max_inv, llm_model=S.LLMModel[model],
                  verification_method=S.VerificationMethod.SMT if kind == "cvc5" else S.VerificationMethod.ROSETTE)
        return orig(**kw)
    S.run_llm_synthesis_algorithm = run
    text, ended = io.StringIO(), "returned"
    shutil.rmtree(os.path.join(root, "synthesisLogs"), ignore_errors=True)
    try:
        with world, contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(path, run_name="__main__")
    except Found as x:
        ended = "script"
        fail("sequence", str(x))
    except (Exception, SystemExit, fakeproc.Hang) as x:
        ended = f"{type(x).__name__}: {x}"
    finally:
        S.run_llm_synthesis_algorithm = orig
    if not entered:
        fail("driver", f"the driver of {bench} does not reach the pipeline: {ended}")
        return
    out["cases"] += 1
    count("episodes " + kind)
    count("episodes " + model)
    if out["fails"]:
        out["fails"][-1][2]["printed"] = "\n".join(l for l in text.getvalue().split("\n") if "Failed" in l or "Exception" in l)[-1500:]
        out["fails"][-1][2]["answers"] = "\n====".join(p for _, p, _ in plan)
    if ended == "script":
        return
    tail = text.getvalue().split("Found PS solution")[-1] if "Found PS solution" in text.getvalue() else ""
    if accepted is None:
        if ended == "returned":
            fail("accepted", f"a run in which no verification succeeded (outcomes {script['outcomes']}) ends with a solution", tail=tail)
            return
        count("not accepted")
    elif ended != "returned":
        fail("lost", f"a run in which the verification of a solution succeeded ends with {ended[:300]}", runs=len(started))
        return
    else:
        count("accepted")
        if tail and norm(accepted) not in norm(tail) and any(norm(p) in norm(tail) for w, p, _ in plan if w == "ps" and p):
            fail("other-answer", "the solution reported at the end is not the one that was verified", tail=tail, verified=accepted)
    if started != [(p, i) for p, i, _ in expect]:
        fail("runs", f"the script asks for {len(expect)} verifications, {len(started)} took place ({script['plan']}, outcomes {script['outcomes']}); ended: {ended[:200]}")
    if asked != [w for w, _ in script["plan"]]:
        fail("asked", f"the model was asked for {asked}, the script allows {script['plan']}; ended: {ended[:200]}")


# ------------------------------------------------------------------ workers
def worker(k, nw, root, seed, n, deadline, thorough):
    t0 = time.time()
    os.chdir(root)
    out = {"cases": 0, "cnt": {}, "fails": [], "nt": []}
    install()
    for j in range(n):
        if time.time() - t0 > deadline or len(out["fails"]) > 3:
            break
        episode(k, j, seed, thorough, root, out)
    out["done"] = True
    sys.stdout.write(json.dumps(out))
    sys.stdout.flush()


def copy_sources(dst):
    for d in ("metalift", "llmlift_scripts", "benchmarks"):
        shutil.copytree(os.path.join(boot.REPO, d), os.path.join(dst, d), ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "verification_with_testing"))
    os.symlink(os.path.join(boot.REPO, "tests"), os.path.join(dst, "tests"))
    # some drivers name the place where these files used to be
    os.makedirs(os.path.join(dst, "tenspiler", "llama", "cpp"))
    os.symlink(os.path.join(dst, "benchmarks", "llama", "cpp"), os.path.join(dst, "tenspiler", "llama", "cpp", "for_synthesis"))


def run(c):
    nw = 8
    base = boot.scratch()
    procs = []
    for k in range(nw):
        root = os.path.join(base, f"w{k}")
        os.makedirs(root)
        copy_sources(root)
        env = dict(os.environ, MON_SCRATCH=base)
        args = [sys.executable, "-W", "ignore", os.path.abspath(__file__), "--worker", str(k), str(nw), root, str(c.seed), str(c.n(11, 200)),
                str(c.n(300, 4800)), str(int(c.thorough))]
        procs.append(subprocess.Popen(args, cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    c.require("solver runs", 40)
    c.require("functions compared", 500)
    c.require("functions compared true", 100)
    c.require("conditions compared", 300)
    c.require("accepted", 5)
    c.require("not accepted", 5)
    c.require("verdicts", 60)
    try:
        collect(c, base, procs)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()


def collect(c, base, procs):
    here = os.getcwd()
    verdicts(c, os.path.join(base, "direct"))
    os.chdir(here)
    fails = []
    for k, p in enumerate(procs):
        o, e = p.communicate()
        try:
            o = json.loads(o[o.index('{"cases"'):])
        except ValueError:
            raise harness.Inconclusive(f"worker {k} ended early: {e[-1500:]}")
        c.evals += o["cases"]
        for n, v in o["cnt"].items():
            c.count(n, v)
        for x in o["nt"]:
            c.nontrivial(x)
            c.case(x)
        fails += o["fails"]
    for mech, msg, d in fails:
        c.fail(mech, msg, **d)


def verdicts(c, root):
    """Every solver outcome at the two verification functions."""
    os.makedirs(root)
    os.symlink(os.path.join(boot.REPO, "metalift"), os.path.join(root, "metalift"))
    os.chdir(root)
    install()
    import llmlift_scripts.synthesis as S
    from metalift import ir
    from metalift.frontend.llvm import Driver
    for kind, outcomes in sorted(OUTCOMES.items()):
        for name, res in sorted(outcomes.items()):
            for i in range(c.n(4, 20)):
                rng = c.rng("verdict", kind, name, i)
                b = rng.choice(["prob", "ps_test", "unsat", "true_one"])
                d = Driver()
                x, y = ir.Int("x"), ir.Int("y")
                d.add_var_objects([x, y])
                inc = ir.FnDecl("inc", ir.Int, ir.Add(x.src, ir.IntLit(rng.randint(0, 3))), x.src)
                ps = ir.FnDecl(f"{b}_ps", ir.Bool, ir.Eq(y.src, ir.Call("inc", ir.Int, x.src)), x.src, y.src)
                vc = ir.Implies(ir.Eq(y.src, ir.Add(x.src, ir.IntLit(1))), ir.Call(f"{b}_ps", ir.Bool, x.src, y.src))
                w = fakeproc.World()
                runs = []

                def solver(world, argv, p, res=res):
                    runs.append(argv)
                    p.out, p._rc = res
                if res is not None:
                    w.programs.append((lambda argv: kind in os.path.basename(argv[0]), solver))
                kw = dict(driver=d, benchmark_name=b, synthesized_fn_decls=[ps], in_calls=[], dsl_fns=[inc], vc=vc)
                shutil.rmtree("synthesisLogs", ignore_errors=True)
                try:
                    with w, harness.quiet():
                        got = S.verify_benchmark_smt(dsl_fn_name_to_axioms={}, **kw) if kind == "cvc5" else S.verify_benchmark_rosette(**kw)
                except (Exception, SystemExit) as e:
                    got = e
                c.case((kind, name, i))
                c.count("verdicts")
                ok = name in GOOD
                if isinstance(got, BaseException):
                    if ok:
                        c.fail("verdict", f"{kind} answers {res!r} and the verification step raises {type(got).__name__}: {got}")
                    continue
                if res is not None and len(runs) != 1:
                    c.fail("verdict-runs", f"{kind} is started {len(runs)} times")
                if bool(got) != ok:
                    c.fail("verdict", f"{kind} ends with code {res and res[1]} and output {res and res[0]!r}; the verification step reports {got!r}")
                    return


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        k, nw, root, seed, n, deadline, thorough = sys.argv[2:]
        boot.boot(root)
        boot.REPO = root
        worker(int(k), int(nw), root, int(seed), int(n), float(deadline), bool(int(thorough)))
    else:
        harness.main(PID, LEVEL, RULE, run)
