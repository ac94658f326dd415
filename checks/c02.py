"""C02: the LLVM front end's verification conditions match the compiled program exactly.

Monitor: random C++ functions are compiled the way the repository's script does it (with the repository's pass); an
interpreter of the resulting IR records the states each loop head is reached in and the results; the conditions the
real `Driver` builds from the same file are evaluated with every invariant and summary read as the recorded set.
"""
import os, sys, re, random, collections, tempfile, shutil, signal, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import boot, harness

PID, LEVEL = "C02", "exploration"
RULE = ("random C++ functions (loops, nesting, break/continue, early returns, lists, vectors, matrices, sets, tuples, uninterpreted calls) are compiled, "
        "interpreted and analysed by the front end; a case is one (program, removed tuple or completeness sweep); non-trivial when the program has a "
        "loop or a branch")
TECH = re.compile(r"^(exn\.slot|ehselector\.slot|nrvo|result\.ptr|cleanup|ref\.tmp|retval|agg\.tmp|__)")


def uf(a, b):
    return 3 * a - b


def sqrt_(a):
    return 7 * a + 2


UFS = {"uf": uf, "integer_sqrt": sqrt_, "test_sqrt": sqrt_, "integer_exp": lambda a: 5 * a - 1}


def obj(t, n):
    from metalift.ir import Int, Bool, List, Set, Matrix
    return {"int": lambda: Int(n), "bool": lambda: Bool(n), "list": lambda: List(Int, n), "vec": lambda: List(Int, n),
            "mat": lambda: Matrix(Int, n), "bigvec": lambda: List(Int, n), "bigmat": lambda: Matrix(Int, n), "set": lambda: Set(Int, n)}[t]()


def type_of(o):
    return o.src.type


class TooLong(BaseException):
    pass


class limit:
    """gives up after some CPU seconds: the conditions of a program can be exponentially larger than the program"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def stop(*a):
            raise TooLong()
        self.old = signal.signal(signal.SIGPROF, stop)
        signal.setitimer(signal.ITIMER_PROF, self.s, .5)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


class Module:
    """one compiled file"""

    def __init__(self, stem, text, so, inc):
        from mon import llbuild, llinterp
        if text is not None:
            open(stem + ".cc", "w").write(text)
            self.ll, self.lp = llbuild.compile_cc(stem + ".cc", so, inc)
        else:
            self.ll, self.lp = stem + ".ll", stem + ".loops"
        self.irtext = open(self.ll).read()
        self.fns = llinterp.parse(self.irtext)
        self.loops = open(self.lp).read()
        d = llinterp.demangle(list(self.fns))
        self.by = {}
        for raw, full in zip(self.fns, d):
            self.by.setdefault(llinterp.base_name(full), raw)

    def allocas(self, raw):
        return [l.split(" = ")[0][1:].strip('"') for b in self.fns[raw].blocks.values() for l in b if " = alloca" in l]

    def heads(self, raw):
        from mon import llinterp
        return llinterp.loops(self.loops, raw)


def analyse(M, driver, fn, objs, in_scope, uninterp=tuple(UFS), pre=None, default=False):
    from mon.harness import quiet
    from metalift.frontend.llvm import InvGrammar
    n = max(1, len(M.heads(M.by[fn])))
    # one entry for every loop, or a default as the repository's drivers have it
    g = collections.defaultdict(lambda: InvGrammar(None, in_scope)) if default else {f"{fn}_inv{i}": InvGrammar(None, in_scope) for i in range(n)}
    with quiet():
        f = driver.analyze(M.ll, M.lp, fn, lambda: [], g, None)
        driver.add_var_objects([o for o in objs if type(o.src).__name__ == "Var"])
        if pre is not None:
            driver.add_precondition(pre)
        return f(*objs, uninterp_fns=list(uninterp))


def record(M, raw, params, r, want, tries=60, fixed=None, ok=None):
    """distinct executions inside the domain: [(env, events, result)]"""
    from mon import llinterp, cgen
    heads = M.heads(raw)
    out, seen, n, outside = [], set(), 0, 0
    for _ in range(tries):
        env = {p: cgen.value(r, t) for p, t in params}
        env.update(fixed or {})
        k = tuple(env[p] for p, _ in params)
        if k in seen or ok is not None and not ok(env):
            continue
        seen.add(k)
        m = llinterp.Machine(M.fns, UFS)
        try:
            ret, ev = m.run(raw, k, heads)
        except llinterp.Outside:
            outside += 1
            continue
        if len(ev) > 40:
            continue
        out.append((env, ev, ret))
        if len(out) >= want:
            break
    return out, outside


def relations(driver, M, fn, raw, runs):
    """recorded sets for every predicate of the function; variables that are not initialised yet match anything"""
    from mon import vcmon, llinterp
    heads = M.heads(raw)
    rels, info, ints = {}, {}, {}
    for pred in driver.pred_tracker.predicates.values():
        names = [a.var_name() for a in pred.args]
        ints[pred.name] = [type(a).__name__ == "Int" for a in pred.args]
        m = re.fullmatch(re.escape(fn) + r"_inv(\d+)", pred.name)
        if m:
            info[pred.name] = ("inv", heads[int(m.group(1))] if int(m.group(1)) < len(heads) else None, names)
        elif pred.name == fn + "_ps":
            info[pred.name] = ("ps", None, names)
    for name, (kind, head, names) in info.items():
        rel = rels[name] = vcmon.Rel(name)
        rows = []
        for ri, (env, ev, ret) in enumerate(runs):
            if kind == "ps":
                rows.append((tuple(env[n] if n in env else ret for n in names), ri))
            else:
                rows += [(tuple(s[n] if n in s else env.get(n, vcmon.WILD) for n in names), ri) for h, s in ev if h == head]
        for t, ri in rows:
            # a variable of type i8 may be a boolean or a character; its values are recorded as booleans
            rel.add(tuple(vcmon.WILD if v is llinterp.UNINIT else int(v) if i and isinstance(v, bool) else v for v, i in zip(t, ints[name])), ri)
    return rels, info


def check_fn(M, g, seed, heavy):
    from mon import vcmon, llinterp, typeck
    from mon.ireval import EvalError
    from metalift.frontend.llvm import Driver
    r = random.Random(seed)
    text, fn = g["text"], g["name"]
    res = {"fn": fn, "fails": [], "ev": {}, "text": text, "nt": [], "features": g["feat"], "wild": g["wild"]}

    def cnt(k, n=1):
        res["ev"][k] = res["ev"].get(k, 0) + n

    raw = M.by[fn]
    lo = g.get("pre")
    pre = None
    ints = [p for p, t in g["params"] if t == "int"]
    if lo is not None and ints:
        pre = obj("int", ints[0]) >= lo
        cnt("with_precondition")
    ok = (lambda env: env[ints[0]] >= lo) if pre is not None else None
    unknown = None
    try:
        runs, outside = record(M, raw, g["params"], r, 10 if not heavy else 24, 60 if not heavy else 160, ok=ok)
    except llinterp.Unknown as e:
        if not g["wild"]:
            raise
        cnt("not_interpreted")          # only programs that also use constructs outside the supported subset
        runs, outside = [], 0
        unknown = str(e)
    cnt("inputs_outside_domain", outside)
    res["outside"] = len(runs) < 2
    objs = [obj(t, p) for p, t in g["params"]]
    drv = Driver()
    scope = [a for a in M.allocas(raw) if not TECH.match(a)]
    try:
        rv = analyse(M, drv, fn, objs, scope, pre=pre, default=r.random() < .5)
    except Exception as e:
        cnt("rejected_wild" if g["wild"] else "rejected")
        if not g["wild"]:
            res["fails"].append(("rejects-supported", f"front end fails on a supported program: {type(e).__name__}: {e}", {"program": text, "trace": traceback.format_exc()[-600:]}))
        return res
    if unknown is not None and unknown.startswith("call of touch"):
        res["fails"].append(("accepts-unknown-function", "a call of a function about which nothing is known is accepted", {"program": text}))
        return res
    if len(runs) < 2:
        cnt("programs_without_runs")
        return res
    asserts = list(drv.asserts)
    try:
        rels, info = relations(drv, M, fn, raw, runs)
        sorts = {p.name: [typeck.sort(type_of(a)) for a in p.args] for p in drv.pred_tracker.predicates.values()}
        seen = {}
        for a in asserts:
            if typeck.check(a, sorts, seen) != "Bool":
                raise typeck.Ill(f"the condition {repr(a)[:300]} is not a boolean")
        cnt("sorts_checked", len(seen))
    except Exception as e:
        res["fails"].append(("ill-formed", f"conditions are not well-formed: {type(e).__name__}: {e}", {"program": text, "conditions": [repr(a)[:2000] for a in asserts]}))
        return res
    psn = fn + "_ps"
    facts = list(drv.postconditions)
    if psn not in rels:
        res["fails"].append(("no-ps", "no summary predicate", {"program": text}))
        return res
    cnt("programs")
    cnt("accepted_wild" if g["wild"] else "accepted")
    cnt("runs", len(runs))
    cnt("loop_states", sum(len(x.tuples) for n, x in rels.items() if info[n][0] == "inv"))
    mon = vcmon.Monitor(asserts, rels, UFS, {}, r)
    show = {"program": text}
    try:
        bad, st = mon.complete([e for e, _, _ in runs[:6 if not heavy else 16]], 400 if not heavy else 1500, 12 if not heavy else 40)
        cnt("completeness_assignments", st["leaves"])
        for c, env in bad[:1]:
            res["fails"].append(("incomplete", "a condition is false although invariants and summary are the sets the program really produces",
                                 {**show, "condition": repr(c.expr), "assignment": repr(env), "args": repr({n: i[2] for n, i in info.items()}),
                                  "relations": repr({n: [t for t, _ in x.tuples][:6] for n, x in rels.items()})}))
        res["nt"].append((fn, "complete"))
        # what functions analysed later on this driver may assume: exactly the summary, for the value that the call returned
        rvn = rv.var_name() if hasattr(rv, "var_name") else fn + "_rv"
        mon.dropped = None
        for ri in range(min(5, len(runs))):
            env, _, ret = runs[ri]
            for val in [ret] + ([ret + 1] if isinstance(ret, int) and not isinstance(ret, bool) else []):
                cnt("caller_facts")
                want = rels[psn].has(tuple(env[n] if n in env else val for n in info[psn][2]))
                got = [mon.ev(p.src, {**env, rvn: val}) for p in facts]
                if not facts or all(got) is not want:
                    res["fails"].append(("caller-fact", f"the facts assumed after the call are {got} for {env} and the result {val}; the summary says {want}",
                                         {**show, "facts": repr(facts)}))
                    return res
        order = list(range(len(runs)))
        r.shuffle(order)
        for ri in order[:6 if not heavy else 14]:
            env = runs[ri][0]
            t = [t for t, q in rels[psn].tuples if q == ri][0]
            x = mon.falsifiable((psn, rels[psn].key(t)), ri, env, 6000)
            cnt("summary_tuples_dropped")
            if x == "budget":
                cnt("search_budget_exhausted")
            elif x == "no":
                res["fails"].append(("unsound-summary", f"conditions still hold for a summary that omits {t} which the program produces",
                                     {**show, "run": repr(env), "conditions": [repr(a) for a in asserts]}))
                break
            res["nt"].append((fn, "ps", ri))
        for n, (kind, head, names) in info.items():
            if kind != "inv":
                continue
            ts = [x for x in rels[n].tuples if not rels[n].covered(x[0])]
            if not rels[n].tuples:
                cnt("loops_never_reached")
            r.shuffle(ts)
            for t, ri in ts[:5 if not heavy else 12]:
                env = runs[ri][0]
                x = mon.falsifiable((n, rels[n].key(t)), ri, env, 6000)
                cnt("invariant_states_dropped")
                if x == "budget":
                    cnt("search_budget_exhausted")
                elif x == "no":
                    res["fails"].append(("unsound-invariant", f"conditions still hold for an invariant {n}{names} that omits the reachable state {t}",
                                         {**show, "run": repr(env), "conditions": [repr(a) for a in asserts]}))
                    break
                res["nt"].append((fn, n, repr(t)))
        reached = {h for _, ev, _ in runs for h, _ in ev}
        have = {h for k, h, _ in info.values() if k == "inv"}
        if not reached <= have:
            res["fails"].append(("loop-without-invariant", f"loops at {reached - have} have no invariant", show))
    except EvalError as e:
        res["fails"].append(("ill-formed", f"condition cannot be evaluated: {e}", {**show, "conditions": [repr(a) for a in asserts]}))
    return res


def worker(job):
    from mon import cgen
    seed, k, n, tier, wd, so, inc = job
    try:
        boot.boot()
        r = random.Random(seed * 1000003 + k)
        gs = []
        for i in range(n):
            g = cgen.Gen(random.Random(r.random()), f"f{k}_{i}", wild=r.random() < .3).gen()
            gs.append({"name": g.name, "params": g.params, "ret": g.ret, "text": g.text(), "feat": sorted(g.feat),
                       "wild": sorted(g.wildused), "pre": r.choice([None, None, None, 0, 1])})
        if k % 2:
            gs.reverse()                        # f1_10 comes before f1_1
        M = None
        while M is None:
            text, start = cgen.PRELUDE, []
            for g in gs:
                start.append(text.count("\n") + 1)
                text += ('extern "C" ' if k % 3 == 0 else "") + g["text"] + "\n"
            try:
                M = Module(os.path.join(wd, f"m{k}"), text, so, inc)
            except RuntimeError as e:           # functions that are not C++ (wild ones mix types) are left out
                lines = {int(x) for x in re.findall(r"\.cc:(\d+):\d+: error", str(e))}
                bad = {max(i for i, s0 in enumerate(start) if s0 <= l) for l in lines}
                if not bad or not all(gs[i]["wild"] for i in bad):
                    raise
                gs = [g for i, g in enumerate(gs) if i not in bad]
        out = []
        for g in gs:
            sd = r.random()
            try:
                with limit(15 if tier == "quick" else 60):
                    out.append(check_fn(M, g, sd, tier == "thorough"))
            except TooLong:
                out.append({"fn": g["name"], "fails": [], "ev": {"given_up": 1}, "nt": [], "features": [], "wild": g["wild"]})
        return out
    except Exception:
        return [{"fn": "?", "error": traceback.format_exc()}]


def directed(job):
    """the constructs of cgen.DIRECTED"""
    from mon import cgen
    names, tier, wd, so, inc = job
    try:
        boot.boot()
        text = cgen.PRELUDE
        gs = []
        for i, n in enumerate(names):
            params, body = cgen.DIRECTED[n]
            fn = "d_" + re.sub(r"\W", "_", n)
            src = f"int {fn}({', '.join(cgen.CTY[t] + ' ' + p for p, t in params)}) {{ {body} }}"
            gs.append({"name": fn, "params": params, "ret": "int", "text": src, "feat": ["directed"], "wild": [] if n in cgen.SUPPORTED else [n], "pre": None})
            text += src + "\n"
        M = Module(os.path.join(wd, "d" + str(len(names)) + gs[0]["name"]), text, so, inc)
        return [check_fn(M, g, "directed" + g["name"], True) for g in gs]
    except Exception:
        return [{"fn": "?", "error": traceback.format_exc()}]


def shipped(job):
    """the compiled benchmarks of the repository, as they are"""
    from mon import llinterp
    files, seed = job
    boot.boot()
    out = []
    for ll in files:
        try:
            M = Module(ll[:-3], None, None, None)
            fn = os.path.basename(ll)[:-3]
            full = llinterp.demangle([M.by[fn]])[0]
            types = llinterp.split_args(full[full.index("(") + 1:-1])
            names = [n for _, n, sret in M.fns[M.by[fn]].params if not sret]
            params = [(n, "int" if t == "int" else "bigmat" if t.count("vector") >= 2 else "bigvec") for n, t in zip(names, types)]
            g = {"name": fn, "params": params, "ret": None, "text": os.path.relpath(ll, boot.REPO), "feat": ["shipped"], "wild": [], "pre": None}
            out.append(check_fn(M, g, f"{seed}{fn}", True))
        except Exception:
            out.append({"fn": "?", "error": f"{ll}\n" + traceback.format_exc()})
    return out


def job_(job):
    return {"w": worker, "d": directed, "s": shipped}[job[0]](job[1])


def division_probe(c, wd, so, inc):
    """Directed reproducer of the recorded finding: division of negative numbers."""
    from mon import llinterp, ireval
    from metalift.frontend.llvm import Driver
    src = "int f_div(int p0, int p1) { return p0 / p1; }\nint f_rem(int p0, int p1) { return p0 % p1; }\n"
    M = Module(os.path.join(wd, "probe"), src, so, inc)

    def smt(a, b):
        m = a % abs(b)
        return (a - m) // b, m
    for fn in ("f_div", "f_rem"):
        env = {"p0": -7, "p1": 2}
        want, _ = llinterp.Machine(M.fns, {}, trunc=True).run(M.by[fn], (-7, 2), [])
        drv, got = Driver(), []
        try:
            analyse(M, drv, fn, [obj("int", "p0"), obj("int", "p1")], [])
        except Exception:
            continue
        for a in drv.asserts:
            ireval.evaluate(a.src, env, {fn + "_ps": lambda *t: got.append(t[-1]) or True}, divmod_=(lambda a, b: smt(a, b)[0], lambda a, b: smt(a, b)[1]))
        c.case(("division", fn))
        c.count("known_probes")
        if got != [want]:
            c.fail("division-negative-operand", f"{fn}(-7, 2) is {want}, the conditions require {got}", program=src)


def scope_probe(c, wd, so, inc):
    """invariants range over the parameters, what the loop changes, and exactly the other variables the user declared to be in scope"""
    from metalift.frontend.llvm import Driver
    src = "int f_scope(int p0) { int k = 2; int m = 5; int x = 0; while (x < p0) x = x + k; while (x < m) x = x + 1; return x; }\n"
    M = Module(os.path.join(wd, "scope"), src, so, inc)
    for scope in ([], ["x"], ["k"], ["m", "k"], ["x", "k", "m", "p0"]):
        for default in (False, True):
            drv = Driver()
            try:
                analyse(M, drv, "f_scope", [obj("int", "p0")], scope, default=default)
            except Exception as e:
                c.fail("rejects-supported", f"front end fails on a supported program: {type(e).__name__}: {e}", program=src, scope=scope)
                continue
            c.case(("scope", tuple(scope), default))
            c.count("scope_probes")
            for i in range(2):
                pr = drv.pred_tracker.predicates.get(f"f_scope_inv{i}")
                got = None if pr is None else sorted(a.var_name() for a in pr.args)
                want = sorted({"p0", "x", *scope})
                if got != want:
                    c.fail("scope", f"f_scope_inv{i} ranges over {got} instead of {want} with the variables {scope} in scope, default={default}", program=src)


def chain_probe(c, wd, so, inc):
    """a second function whose argument is the result of the first one, on one driver"""
    from mon import vcmon, llinterp, ireval
    from metalift.frontend.llvm import Driver
    src = ("int ca(int p0) { int x = 1; while (x < p0) x = x + 2; return x; }\n"
           "int cb(int ca_rv, int p1) { if (ca_rv > 2) { return ca_rv + p1; } return p1; }\n")
    M = Module(os.path.join(wd, "chain"), src, so, inc)
    r = c.rng("chain")
    drv = Driver()
    try:
        rv = analyse(M, drv, "ca", [obj("int", "p0")], ["x"])
        analyse(M, drv, "cb", [rv if hasattr(rv, "src") else obj("int", "ca_rv"), obj("int", "p1")], [])
    except Exception as e:
        c.fail("rejects-supported", f"a function cannot take the result of another one: {type(e).__name__}: {e}", program=src)
        return
    runs = []
    for x in range(-1, 7):
        for y in (-2, 3):
            m = llinterp.Machine(M.fns, UFS)
            a, ev = m.run(M.by["ca"], (x,), M.heads(M.by["ca"]))
            b, _ = llinterp.Machine(M.fns, UFS).run(M.by["cb"], (a, y), [])
            runs.append(({"p0": x, "p1": y, "ca_rv": a}, ev, a, b))
    rels, info = relations(drv, M, "ca", M.by["ca"], [(e, v, a) for e, v, a, _ in runs])
    r2, i2 = relations(drv, M, "cb", M.by["cb"], [(e, [], b) for e, _, _, b in runs])
    rels.update(r2)
    m = vcmon.Monitor(list(drv.asserts), rels, UFS, {}, r)
    bad, st = m.complete([e for e, _, _, _ in runs], 1500, 30)
    for cd, env in bad[:1]:
        c.fail("incomplete", "a condition of a function that takes the result of another one is false under the relations of the program",
               program=src, condition=repr(cd.expr), assignment=repr(env))
    for ri, (e, _, _, b) in enumerate(runs):
        t = [t for t, q in rels["cb_ps"].tuples if q == ri][0]
        c.case(("chain", ri))
        c.count("chain_probes")
        if m.falsifiable(("cb_ps", rels["cb_ps"].key(t)), ri, e, 6000) == "no":
            c.fail("unsound-summary", f"conditions still hold for a summary of cb that omits {t}", program=src, conditions=[repr(a) for a in drv.asserts])
    # the facts about the first call hold for its value and for no other one
    for e, _, a, _ in runs:
        for v in (a, a + 1):
            m.dropped = None
            c.count("chain_facts")
            try:
                ok = [m.ev(p.src, {**e, "ca_rv": v, "cb_rv": e["p1"] if not v > 2 else v + e["p1"]}) for p in drv.postconditions[:1]]
            except ireval.EvalError as x:
                ok = str(x)
            if ok != [v == a]:
                c.fail("caller-fact", f"the fact assumed after ca({e['p0']}) is {ok} for the result {v}", program=src, facts=repr(drv.postconditions))


def prepare(wd):
    from mon import cgen, llbuild
    inc = os.path.join(wd, "inc")
    os.makedirs(inc)
    open(os.path.join(inc, "vector"), "w").write(cgen.VECTOR_H)
    open(os.path.join(inc, "tuple"), "w").write(cgen.TUPLE_H)
    return llbuild.build(wd), inc


def run(c):
    wd = tempfile.mkdtemp(prefix="c02-")
    try:
        go(c, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def go(c, wd):
    from mon import cgen
    so, inc = prepare(wd)
    nmod = c.n(36, 240)
    division_probe(c, wd, so, inc)
    scope_probe(c, wd, so, inc)
    chain_probe(c, wd, so, inc)
    c.require("scope_probes", 10)
    c.require("chain_probes", 16)
    c.require("caller_facts", nmod * 80)
    jobs = [("w", (c.seed, k, 36, c.tier, wd, so, inc)) for k in range(nmod)]
    names = sorted(cgen.DIRECTED)
    ships = sorted(os.path.join(r, f) for r, _, fs in os.walk(os.path.join(boot.REPO, "benchmarks")) for f in fs
                   if f.endswith(".ll") and os.path.exists(os.path.join(r, f[:-3] + ".loops")))
    jobs[2:2] = [("d", (names[i::6], c.tier, wd, so, inc)) for i in range(6)] + [("s", (ships[i::6], c.seed)) for i in range(6) if ships[i::6]]
    c.require("programs", nmod * 18)
    c.require("summary_tuples_dropped", nmod * 100)
    c.require("invariant_states_dropped", nmod * 30)
    c.require("completeness_assignments", nmod * 250)
    c.require("feature_directed", len(names))
    if ships:
        c.require("feature_shipped", len(ships))
    for f in ("for", "while", "do-while", "nested-loop", "break", "continue", "early-return", "append", "push_back", "mat-build", "setop", "tuple", "tuple3", "uninterp", "ult", "logic"):
        c.require("feature_" + f, max(1, nmod // 8))
    with mp.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=4) as pool:
        for res in pool.imap_unordered(job_, jobs):
            for x in res:
                if "error" in x:
                    raise RuntimeError(x["error"])
                for k, v in x["ev"].items():
                    c.count(k, v)
                for f in x["features"]:
                    c.count("feature_" + f)
                c.case((x["fn"],))
                for nt in x["nt"]:
                    c.nontrivial(nt)
                for mech, msg, info in x["fails"]:
                    c.fail(mech, msg, wild=x["wild"], **info)
            if c.out_of_time():
                break


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
