import os, sys, random, multiprocessing as mp, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import boot, harness

PID, LEVEL = "C01", "exploration"
RULE = ("random functions of the subset (loops, nesting, early returns, lists, sets, chained comparisons, uninterpreted calls) are run "
        "concretely and analysed by the front end; a case is one (program, removed tuple or completeness sweep); non-trivial when the "
        "program has a loop or a branch and at least two distinct results or loop states were recorded")

def analyse(path, fn, params, driver, uninterp=("uf",), pre=None, objs=None):
    from mon.harness import quiet
    from mon.pyrun import ir_obj
    with quiet():
        f = driver.analyze(path, fn, lambda: [], None, None, list(uninterp))
        objs = objs or [ir_obj(t, p) for p, t in params]
        driver.add_var_objects([o for o in objs])
        if pre:
            driver.add_precondition(pre(dict(zip([p for p, _ in params], objs))))
        n0, p0 = len(driver.asserts), len(driver.postconditions)
        ret = f(*objs)
    return driver.asserts[n0:], driver.postconditions[p0:], ret, objs


def relations(driver, fnname, params, loops, start, runs, formal):
    """Build R_inv / R_ps for one analysed function from its recorded runs [(run index, args, events, result)].
    formal: the parameter that an argument with another name was passed for."""
    from mon import vcmon
    rels, info = {}, {}
    for pred in driver.inv_tracker.predicates.values():
        if pred.name.startswith(fnname + "_inv"):
            line = pred.ast.line
            names = [formal.get(a.var_name(), a.var_name()) for a in pred.args]
            rels[pred.name] = vcmon.Rel(pred.name)
            info[pred.name] = ("inv", line, names)
        elif pred.name == fnname + "_ps":
            names = [formal.get(a.var_name(), a.var_name()) for a in pred.args]
            rels[pred.name] = vcmon.Rel(pred.name)
            info[pred.name] = ("ps", None, names)
    pn = [p for p, _ in params]
    for ri, args, events, ret in runs:
        init = dict(zip(pn, args))
        for name, (kind, line, names) in info.items():
            if kind == "ps":
                rels[name].add(tuple(init[n] if n in init else ret for n in names), ri)
            else:
                defd = set(loops.get(line - start, ())) | set(pn)
                for ln, env in events:
                    if ln == line:
                        rels[name].add(tuple(env[n] if n in defd else vcmon.WILD for n in names), ri)
    return rels, info


def uf(a, b):
    return 3 * a - b


def check_fn(stages, path, prog, seed, heavy):
    """stages: functions called one after another on one driver (each later one takes the previous
    result as its first argument); the last one is the subject.  Returns a result dict."""
    from mon import vcmon, pyrun, typeck
    from mon.ireval import EvalError
    from metalift.frontend.python import Driver
    flags = stages[-1]["flags"]
    name, loops = stages[-1]["name"], stages[-1]["loops"]
    text = "\n".join(st["text"] for st in stages)
    r = random.Random(seed)
    res = {"fn": name, "fails": [], "ev": {}, "text": text, "nt": [], "features": flags["features"] + (["caller"] if len(stages) > 1 else [])}

    def cnt(k, n=1):
        res["ev"][k] = res["ev"].get(k, 0) + n
    pre, prek = None, None
    if flags.get("pre") is not None:
        ints = [p for p, t in stages[0]["params"] if t == "int"]
        if ints:
            prek = (ints[0], flags["pre"])
            pre = lambda o: o[prek[0]] >= prek[1]
            cnt("with_precondition")
    runs, seen = [], set()          # run: (env of all arguments, [(stage, args, events, ret)])
    for _ in range(60 if not heavy else 160):
        env, steps, ok = {}, [], True
        for st in stages:
            for p, t in st["params"]:
                if p not in env:
                    env[p] = pyrun.rand_value(r, t)
            args = tuple(env[p] for p, _ in st["params"])
            if prek and st is stages[0] and not env[prek[0]] >= prek[1]:
                ok = False
                break
            x = prog.run(st["name"], args)
            if x is None:
                cnt("inputs_outside_domain")
                ok = False
                break
            steps.append((st, args, x[0], x[1]))
            env[st["rv"]] = x[1]
        k = tuple(s[1] for s in steps)
        if not ok or k in seen:
            continue
        seen.add(k)
        runs.append((env, steps))
        if len(runs) >= (10 if not heavy else 24):
            break
    if len(runs) < 2:
        cnt("programs_without_runs")
        return res
    drv = Driver()
    rets, posts, formal = {}, [], {}
    try:
        for st in stages:
            ob = [rets[p] if p in rets else pyrun.ir_obj(t, p) for p, t in st["params"]]
            asserts, posts, ret, _ = analyse(path, st["name"], st["params"], drv, pre=pre if st is stages[0] else None, objs=ob)
            rets[st["rv"]] = ret
            formal[ret.var_name()] = st["rv"]
    except Exception as e:
        res["fails"].append(("rejects-supported", f"front end fails on a supported program: {type(e).__name__}: {e}", {"program": text}))
        return res
    asserts = list(drv.asserts)
    try:
        sorts = {p.name: [typeck.sort(a.src.type) for a in p.args] for p in drv.inv_tracker.predicates.values()}
        sn = {}
        for a in asserts + list(posts):
            if typeck.check(a, sorts, sn) != "Bool":
                raise typeck.Ill(f"the condition {repr(a)[:300]} is not a boolean")
        cnt("sorts_checked", len(sn))
    except Exception as e:
        res["fails"].append(("ill-formed", f"conditions are not well-formed: {type(e).__name__}: {e}", {"program": text, "conditions": [repr(a)[:2000] for a in asserts]}))
        return res
    rels, info, info_of = {}, {}, set()
    # the conditions use the names of the returned objects
    actual = {k: o.var_name() for k, o in rets.items()}
    if len(set(actual.values())) < len(actual):
        res["fails"].append(("shared-result", f"several calls return one variable: {actual}", {"program": text}))
        return res
    runs = [({actual.get(k, k): v for k, v in e.items()}, s) for e, s in runs]
    last = actual[stages[-1]["rv"]]
    for st in stages:
        if st["name"] in info_of:
            continue
        info_of.add(st["name"])
        a, b = relations(drv, st["name"], st["params"], st["loops"], st["start"],
                         [(ri, *x[1:]) for ri, (_, s) in enumerate(runs) for x in s if x[0]["name"] == st["name"]], formal)
        rels.update(a)
        info.update(b)
    psn = name + "_ps"
    if psn not in rels:
        res["fails"].append(("no-ps", "no summary predicate", {"program": text}))
        return res
    cnt("programs")
    if len(stages) > 1:
        cnt("caller_programs")
    cnt("runs", len(runs))
    cnt("loop_states", sum(len(x.tuples) for n, x in rels.items() if info[n][0] == "inv"))
    mon = vcmon.Monitor(asserts, rels, {"uf": uf}, {}, r)
    nontriv = any(st["loops"] for st in stages) or "if" in flags["features"]
    try:
        if not any(st["flags"]["write_param_loop"] for st in stages):
            bad, st_ = mon.complete([{k: v for k, v in e.items() if k != last} for e, _ in runs[:6 if not heavy else 16]],
                                    400 if not heavy else 1500, 12 if not heavy else 40)
            cnt("completeness_assignments", st_["leaves"])
            for c, env in bad[:1]:
                res["fails"].append(("incomplete", "a condition is false although invariants and summary are the sets the program really produces",
                                     {"program": text, "condition": repr(c.expr), "assignment": repr(env),
                                      "relations": repr({n: [t for t, _ in x.tuples][:6] for n, x in rels.items()})}))
            res["nt"].append((name, "complete"))
        order = list(range(len(runs)))
        r.shuffle(order)
        for ri in order[:6 if not heavy else 14]:
            env = {k: v for k, v in runs[ri][0].items() if k != last}
            t = [t for t, q in rels[psn].tuples if q == ri][0]
            x = mon.falsifiable((psn, rels[psn].key(t)), ri, env, 6000)
            cnt("summary_tuples_dropped")
            if x == "budget":
                cnt("search_budget_exhausted")
            elif x == "no":
                res["fails"].append(("unsound-summary", f"conditions still hold for a summary that omits {t} which the program produces",
                                     {"program": text, "run": repr(runs[ri][0]), "conditions": [repr(a) for a in asserts]}))
                break
            if nontriv:
                res["nt"].append((name, "ps", ri))
        for n, (kind, line, names) in info.items():
            if kind != "inv":
                continue
            ts = list(rels[n].tuples)
            if not ts:
                cnt("loops_never_reached")
            r.shuffle(ts)
            for t, ri in ts[:5 if not heavy else 12]:
                env = {k: v for k, v in runs[ri][0].items() if k != last}
                x = mon.falsifiable((n, rels[n].key(t)), ri, env, 6000)
                cnt("invariant_states_dropped")
                if x == "budget":
                    cnt("search_budget_exhausted")
                elif x == "no":
                    res["fails"].append(("unsound-invariant", f"conditions still hold for an invariant {n}{names} that omits the reachable state {t}",
                                         {"program": text, "run": repr(runs[ri][0]), "conditions": [repr(a) for a in asserts]}))
                    break
                res["nt"].append((name, n, repr(t)))
        # every loop that runs has an invariant
        lines = {ln for _, steps in runs for s in steps for ln, _ in s[2]}
        have = {line for kind, line, _ in info.values() if kind == "inv"}
        if not lines <= have:
            res["fails"].append(("loop-without-invariant", f"loop at lines {lines - have} has no invariant", {"program": text}))
        # the fact recorded for callers
        ret = rets[stages[-1]["rv"]]
        for e, steps in runs[:5]:
            rv = steps[-1][3]
            env = {k: v for k, v in e.items() if k != last}
            mon.dropped = None
            for good, val in ((True, rv), (False, (rv + 1) if isinstance(rv, int) else None)):
                if val is None:
                    continue
                v = mon.ev(posts[-1].src, {**env, ret.var_name(): val})
                cnt("caller_facts")
                if v is not good and not (good is False and rels[psn].has(tuple(env[actual.get(n, n)] if actual.get(n, n) in env else val for n in info[psn][2]))):
                    res["fails"].append(("caller-fact", f"fact assumed after the call is {v} for {env} result {val} (true result {rv})",
                                         {"program": text, "fact": repr(posts[-1])}))
    except EvalError as e:
        res["fails"].append(("ill-formed", f"condition cannot be evaluated: {e}", {"program": text, "conditions": [repr(a) for a in asserts]}))
    return res


def worker(job):
    from mon import pygen, pyrun, vcmon
    seed, k, n, tier, wd = job
    try:
        boot.boot()
        pyrun.cache_mypy()
        r = random.Random(seed * 1000003 + k)
        plan, fns = [], []
        for i in range(n):
            opts = {"write_params": r.random() < 0.15, "depth": r.choice([2, 3, 3]), "tuples": r.random() < 0.1}
            if opts["tuples"]:
                opts["depth"] = 0
            if r.random() < 0.12:
                f = pygen.Gen(random.Random(r.random()), f"f{i}", {**opts, "ret": "int", "prefix": "q"}).gen()
                g = pygen.Gen(random.Random(r.random()), f"g{i}", {**opts, "first": f"f{i}_rv"}).gen()
                plan.append([f, g])
                fns += [f, g]
            elif r.random() < 0.12:
                # the first function is called twice, the second time with its own result where that is an integer
                f = pygen.Gen(random.Random(r.random()), f"f{i}", {**opts, "ret": "int", "prefix": "q"}).gen()
                g = pygen.Gen(random.Random(r.random()), f"g{i}", {**opts, "first": f"f{i}_rv2"}).gen()
                plan.append([f, f, g])
                fns += [f, g]
            else:
                f = pygen.Gen(random.Random(r.random()), f"f{i}", opts).gen()
                plan.append([f])
                fns.append(f)
        text = pygen.module(fns)
        path = os.path.join(wd, f"m{k}.py")
        open(path, "w").write(text)
        prog = pyrun.Program(text)
        out = []
        for fs in plan:
            st = [{"name": f.name, "params": f.params, "loops": f.loops, "start": f.start, "text": f.text(),
                   "rv": f.name + "_rv", "flags": {"features": sorted(f.features), "write_param_loop": f.written_params and bool(f.loops)}} for f in fs]
            if len(fs) == 3:
                own = [p for p, t in fs[0].params if t == "int"][:1]
                st[1] = {**st[1], "rv": f"{fs[0].name}_rv2", "params": [(f"{fs[0].name}_rv" if p in own else "b" + p, t) for p, t in fs[0].params]}
                st[2]["flags"]["features"].append("called-twice")
            st[-1]["flags"]["pre"] = r.choice([None, None, None, 0, 1])
            out.append(check_fn(st, path, prog, r.random(), tier == "thorough"))
        return out
    except Exception:
        return [{"fn": "?", "error": traceback.format_exc()}]


# ---------------------------------------------------------------- rejection of unsupported constructs
UNSUPPORTED = {
    "for": "def f(p0: int) -> int:\n    x = 0\n    for i in range(p0):\n        x = x + 1\n    return x\n",
    "break": "def f(p0: int) -> int:\n    x = 0\n    while x < p0:\n        x = x + 1\n        break\n    return x\n",
    "continue": "def f(p0: int) -> int:\n    x = 0\n    while x < p0:\n        x = x + 1\n        continue\n    return x\n",
    "augmented": "def f(p0: int) -> int:\n    x = 0\n    x += p0\n    return x\n",
    "while_else": "def f(p0: int) -> int:\n    x = 0\n    while x < p0:\n        x = x + 1\n    else:\n        x = 7\n    return x\n",
    "try": "def f(p0: int) -> int:\n    try:\n        x = p0\n    except ValueError:\n        x = 1\n    return x\n",
    "raise": "def f(p0: int) -> int:\n    if p0 > 0:\n        raise ValueError()\n    return p0\n",
    "assert": "def f(p0: int) -> int:\n    assert p0 > 0\n    return p0\n",
    "mod": "def f(p0: int) -> int:\n    return p0 % 3\n",
    "pow": "def f(p0: int) -> int:\n    return p0 ** 2\n",
    "bitand": "def f(p0: int) -> int:\n    return p0 & 1\n",
    "shift": "def f(p0: int) -> int:\n    return p0 << 1\n",
    "not": "def f(p0: int) -> int:\n    if not p0 > 1:\n        return 1\n    return 0\n",
    "int_truth": "def f(p0: int) -> int:\n    if p0:\n        return 1\n    return 0\n",
    "int_and": "def f(p0: int) -> int:\n    return p0 and 3\n",
    "unknown_call": "def g(a: int) -> int:\n    return a\n\n\ndef f(p0: int) -> int:\n    return g(p0)\n",
    "pop": "def f(p0: List[int]) -> int:\n    return p0.pop()\n",
    "insert": "def f(p0: List[int]) -> List[int]:\n    p0.insert(0, 1)\n    return p0\n",
    "subscript_store": "def f(p0: List[int]) -> List[int]:\n    p0[0] = 1\n    return p0\n",
    "slice": "def f(p0: List[int]) -> List[int]:\n    return p0[1:]\n",
    "list_concat": "def f(p0: List[int]) -> List[int]:\n    return p0 + p0\n",
    "list_literal": "def f(p0: int) -> List[int]:\n    return [p0]\n",
    "multi_assign": "def f(p0: int) -> int:\n    x = y = p0\n    return x + y\n",
    "tuple_assign": "def f(p0: int) -> int:\n    x, y = p0, 1\n    return x + y\n",
    "invert": "def f(p0: int) -> int:\n    return ~p0\n",
    "membership": "def f(p0: List[int]) -> int:\n    if 1 in p0:\n        return 1\n    return 0\n",
    "no_return_value": "def f(p0: int) -> int:\n    return\n",
    "one_branch_var": "def f(p0: int) -> int:\n    if p0 > 0:\n        y = 1\n    return y\n",
    "comparison_lists": "def f(p0: List[int]) -> int:\n    if p0 == p0:\n        return 1\n    return 0\n",
    "len_of_set": "def f(p0: Set[int]) -> int:\n    return len(p0)\n",
    "global": "x = 1\n\n\ndef f(p0: int) -> int:\n    global x\n    x = p0\n    return x\n",
    "with": "def f(p0: int) -> int:\n    with open('x') as y:\n        p0 = 1\n    return p0\n",
    "del": "def f(p0: int) -> int:\n    x = p0\n    del x\n    return p0\n",
    "kwargs_uninterp": "def uf(a: int, b: int) -> int:\n    return 3 * a - b\n\n\ndef f(p0: int) -> int:\n    return uf(b=p0, a=1)\n",
    "starargs_uninterp": "def uf(*a: int) -> int:\n    return 3\n\n\ndef f(p0: List[int]) -> int:\n    return uf(*p0)\n",
    "true_div": "def f(p0: int) -> int:\n    return p0 / 2\n",
    "is_op": "def f(p0: int) -> int:\n    if p0 is 1:\n        return 1\n    return 0\n",

    "lambda": "def f(p0: int) -> int:\n    g = lambda z: z + 1\n    return p0\n",
    "ternary": "def f(p0: int) -> int:\n    return p0 if p0 > 0 else 1\n",
    "ternary_assigned": "def f(p0: int) -> int:\n    x = p0 if p0 > 0 else 1\n    return 3\n",
    "return_str": "def f(p0: int) -> int:\n    return 'a'\n",
    "return_float": "def f(p0: int) -> int:\n    return 1.5\n",
    "return_lambda": "def f(p0: int) -> int:\n    return lambda: 1\n",
    "return_set_literal": "def f(p0: Set[int]) -> Set[int]:\n    return {1, 2}\n",
    "return_comprehension": "def f(p0: List[int]) -> List[int]:\n    return [x for x in p0]\n",
    "uninterp_arg": "def uf(a: int, b: int) -> int:\n    return 3 * a - b\n\n\ndef f(p0: int) -> int:\n    return uf(p0 if p0 > 0 else 1, 2)\n",
    "walrus": "def f(p0: int) -> int:\n    return (x := p0) + 1\n",
}


def rejected(job):
    from mon import pyrun
    from metalift.frontend.python import Driver
    wd, names = job
    boot.boot()
    pyrun.cache_mypy()
    out = []
    for nm in names:
        src = UNSUPPORTED[nm]
        path = os.path.join(wd, f"u_{nm}.py")
        open(path, "w").write("from typing import List, Set\n\n\n" + src)
        t = "list" if "p0: List" in src else "set" if "p0: Set" in src else "int"
        try:
            a, *_ = analyse(path, "f", [("p0", t)], Driver())
            out.append((nm, False, repr(a)))
        except BaseException as e:
            out.append((nm, True, type(e).__name__))
    return out


def known_probes(c):
    """Directed reproducers of the recorded findings (see known_findings.json)."""
    from mon import pyrun, ireval
    from metalift.frontend.python import Driver
    pyrun.cache_mypy()
    hdr = "from typing import List, Set\n\n\n"

    def ps_result(src, params, env, builtins=None, divmod_=None):
        path = os.path.join(boot.scratch(), "k%d.py" % c.counters.get("known_probes", 0))
        c.count("known_probes")
        open(path, "w").write(hdr + src)
        try:
            a, *_ = analyse(path, "f", params, Driver())
        except Exception:
            return "rejected"
        got = []

        def ps(*t):
            got.append(t[-1])
            return True
        for x in a:
            ireval.evaluate(x.src, env, {"f_ps": ps}, builtins=builtins, divmod_=divmod_)
        return got
    b = dict(ireval.BUILTINS)
    b["list_get"] = lambda l, i: l[i] if 0 <= i < len(l) else 0
    probes = [
        ("list-alias", "def f(p0: int) -> int:\n    a: List[int] = []\n    b = a\n    a.append(p0)\n    return len(b)\n",
         [("p0", "int")], {"p0": 3}, 1, None, None),
        ("negative-index", "def f(lp: List[int]) -> int:\n    return lp[-1]\n", [("lp", "list")], {"lp": (4, 5)}, 5, b, None),
        ("floor-division-negative-divisor", "def f(p0: int, p1: int) -> int:\n    return p0 // p1\n", [("p0", "int"), ("p1", "int")],
         {"p0": 7, "p1": -2}, -4, None, (lambda x, y: -(x // -y) if y < 0 else x // y, None)),
    ]
    for mech, src, params, env, want, bu, dm in probes:
        got = ps_result(src, params, env, bu, dm)
        c.case(("known", mech))
        if got != "rejected" and got != [want]:
            c.fail(mech, f"the summary is required to contain {got} for {env}, the program returns {want}", program=src)


def job_(j):
    return (j[0], worker(j[1]) if j[0] == "w" else rejected(j[1]))


def run(c):
    wd = boot.scratch()
    known_probes(c)
    nmod = c.n(14, 96)
    jobs = [("w", (c.seed, k, 36, c.tier, wd)) for k in range(nmod)]
    un = sorted(UNSUPPORTED)
    jobs[4:4] = [("u", (wd, un[i::6])) for i in range(6)]
    c.require("programs", nmod * 20)
    c.require("summary_tuples_dropped", nmod * 60)
    c.require("invariant_states_dropped", nmod * 60)
    c.require("completeness_assignments", nmod * 500)
    c.require("caller_programs", nmod)
    c.require("feature_called_twice", nmod // 2)
    c.require("unsupported_constructs", len(un))
    feats = {}
    with mp.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=4) as pool:
        for kind, res in pool.imap_unordered(job_, jobs):
            if kind == "u":
                for nm, rej, what in res:
                    c.case(("unsupported", nm))
                    c.count("unsupported_constructs")
                    if not rej:
                        c.fail("accepts-" + nm, f"unsupported construct '{nm}' is not rejected", program=UNSUPPORTED[nm], conditions=what)
                continue
            for x in res:
                if "error" in x:
                    raise RuntimeError(x["error"])
                for k, v in x["ev"].items():
                    c.count(k, v)
                for f in x["features"]:
                    feats[f] = feats.get(f, 0) + 1
                    if f == "called-twice":
                        c.count("feature_called_twice")
                c.case(x["text"])
                for t in x["nt"]:
                    c.nontrivial((x["text"], t))
                for mech, msg, d in x["fails"]:
                    c.fail(mech, msg, **d)
                if len(x["nt"]) > 8:
                    c.sample(x["text"], 3)
    c.counters["features"] = feats


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
