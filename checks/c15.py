"""C15: what a transpilation produces depends only on its own inputs.

Monitor: jobs (Python and LLVM analyses with their synthesis problem, verification problems, grammars, bounded problems,
rewriting, parsing of solutions, renderings of the shipped target languages) record every text they produce.  The record of a
job run alone in a new process is the reference; it is compared with its record under other hash seeds and inside random
histories in which many jobs run in one process, their steps interleaved, some of them twice.
"""
import os, sys, time, json, pickle, random, hashlib, tempfile, shutil, subprocess, traceback, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import boot, harness

PID, LEVEL = "C15", "exploration"
RULE = ("a job whose texts were compared with the reference of the same job run alone in a new process; distinct = job x (hash seed or history); "
        "non-trivial when a history ran other jobs before or between its steps, or the hash seed differs")


# ------------------------------------------------------------------ jobs: generators that yield between steps and return {name: text}
def preds_text(preds):
    return "\n".join(f"{p.name} args={[(a.var_name(), str(a.src.type)) for a in p.args]} writes={[a.var_name() for a in p.writes]} "
                     f"reads={[a.var_name() for a in p.reads]} in_scope={[a.var_name() for a in p.in_scope]}" for p in preds.values())


def grammar(kind):
    """every variable may be compared with constants and with each other"""
    from metalift.ir import Int, choose

    def g(writes, reads, in_scope, relaxed=False):
        ints = [x for x in list(writes) + list(reads) + list(in_scope) if type(x).__name__ == "Int"]
        k = choose(Int(0), Int(1), *ints)
        if kind == "ps":
            out = writes[0]
            if type(out).__name__ != "Int":
                return out == out
            return out == choose(k, k + 1)
        if not ints:
            return Int(0) >= Int(0)
        return choose(ints[0] >= k, ints[0] <= k)
    return g


def with_racket(fn):
    """-> text of the file the search is started on; the search finds nothing"""
    from mon import fakeproc
    seen = {}

    def solver(w, argv, p):
        for a in argv:
            if a.endswith(".rkt") and os.path.exists(a):
                seen["rkt"] = open(a).read()
        w.at(.1, lambda: setattr(p, "_rc", 1))
    w = fakeproc.World()
    w.programs = [(lambda a: True, solver)]
    with w, harness.quiet():
        try:
            fn()
            seen["end"] = "returned"
        except Exception as x:
            seen["end"] = f"{type(x).__name__}"
    return seen


def job_py(j, wd):
    from mon import pygen, pyrun
    from metalift.frontend.python import Driver
    from metalift import vc_util
    path = os.path.join(wd, f"py{j['mod']}.py")
    drv, out, rets = Driver(), {}, {}
    fs = []
    for st in j["stages"]:
        with harness.quiet():
            f = drv.analyze(path, st["name"], lambda: [], grammar("inv"), grammar("ps"), ["uf"])
        yield
        ob = [rets[p] if p in rets else pyrun.ir_obj(t, p) for p, t in st["params"]]
        with harness.quiet():
            drv.add_var_objects(ob)
            if j["pre"] is not None and st is j["stages"][0]:
                ints = [o for o in ob if type(o).__name__ == "Int"]
                if ints:
                    drv.add_precondition(ints[0] >= j["pre"])
        yield
        with harness.quiet():
            rets[st["rv"]] = f(*ob)
        fs.append(f)
        out["asserts-" + st["rv"]] = "\n".join(map(repr, drv.asserts))
        yield
    preds = getattr(drv, "inv_tracker", None)
    out["preds"] = preds_text(preds.predicates)
    out["result"] = repr([(k, v.var_name(), str(v.src.type)) for k, v in rets.items()])
    out["facts"] = "\n".join(map(repr, drv.postconditions))
    out["vars"] = repr([(v.name(), str(v.type)) for v in drv.var_tracker.all()])
    yield
    e = vc_util.and_objects(*drv.asserts).src
    out["smt"] = e.toSMT()
    out["rosette"] = e.to_rosette()
    yield
    os.makedirs("synthesisLogs", exist_ok=True)
    for k, v in with_racket(drv.synthesize).items():
        out["search-" + k] = v
    yield
    # nothing that ran since has changed what this driver holds
    out["asserts-again"] = "\n".join(map(repr, drv.asserts))
    out["facts-again"] = "\n".join(map(repr, drv.postconditions))
    out["smt-again"] = e.toSMT()
    return out


def job_ll(j, wd):
    import collections
    from metalift.frontend.llvm import Driver, InvGrammar
    from metalift import vc_util
    from checks import c02
    drv, out = Driver(), {}
    inv = grammar("inv")
    with harness.quiet():
        g = collections.defaultdict(lambda: InvGrammar(inv, j["scope"]))
        f = drv.analyze(j["ll"], j["loops"], j["fn"], lambda: [], g, grammar("ps"))
    yield
    ob = [c02.obj(t, p) for p, t in j["params"]]
    with harness.quiet():
        drv.add_var_objects(ob)
        if j["pre"] is not None:
            ints = [o for o in ob if type(o).__name__ == "Int"]
            if ints:
                drv.add_precondition(ints[0] >= j["pre"])
    yield
    try:
        with harness.quiet():
            f(*ob, uninterp_fns=list(c02.UFS))
    except Exception as x:
        out["rejected"] = f"{type(x).__name__}"
        return out
    out["asserts"] = "\n".join(map(repr, drv.asserts))
    out["preds"] = preds_text(drv.pred_tracker.predicates)
    out["facts"] = "\n".join(map(repr, drv.postconditions))
    out["vars"] = repr([(v.name(), str(v.type)) for v in drv.var_tracker.all()])
    yield
    e = vc_util.and_objects(*drv.asserts).src
    out["smt"] = e.toSMT()
    yield
    os.makedirs("synthesisLogs", exist_ok=True)
    for k, v in with_racket(lambda: drv.synthesize(filename="p")).items():
        out["search-" + k] = v
    yield
    out["asserts-again"] = "\n".join(map(repr, drv.asserts))
    return out


UID = [0]


def job_prob(j, wd):
    from checks import c12
    rng = random.Random(j["seed"])
    P = c12.problem(rng, j["feats"])
    yield
    UID[0] += 1
    text, r = c12.drive(P, 0)
    yield
    return {"smt": text, "inputs": "\n".join(map(repr, [*P.decls, *P.cands, P.vc]))}


def job_gram(j, wd):
    from mon import fnlib
    from checks import c10
    from metalift import ir
    rng = random.Random(j["seed"])
    feat = c10.ROS if j["which"] == "rosette" else c10.SYG
    decls, sigs = fnlib.library(rng, feat, depth=2, n=2)
    sigs = {k: v for k, v in sigs.items() if all(c10.code(c10.T(x)) for x in [v[0], *v[1]])}
    synths = []
    for q in range(2):
        ps = rng.sample(list(c10.PARAMS), 3)
        g = c10.Grammar(rng, feat, dict(ps), {**sigs}).expr(rng.choice(["i", "b", "l"]), rng.choice([1, 2, 3]))
        synths.append(ir.Synth(["f", "prog_inv0"][q], g, *[ir.Var(n, c10.T(k)) for n, k in ps]))
    yield
    text, err = c10.record(j["which"], decls, synths)
    yield
    return {"file": text or "", "error": type(err).__name__, "n": str(len(synths)), "decls": "\n".join(map(repr, decls)), "synths": "\n".join(map(repr, synths))}


def job_bound(j, wd):
    from checks import c11
    from metalift import ir
    rng = random.Random(j["seed"])
    types = ["i", "b", "l", "m", "t", "s", ("T", "i", "l"), ("T", "i", "i"), ("T", "b", "i", "l")]
    vs = [(f"v{i}", rng.choice(types)) for i in range(rng.randint(1, 6))]
    pairs = [(ir.Var(n, c11.ty(c)), c) for n, c in vs]
    vc = c11.conj(rng, pairs)
    yield
    text, err = c11.emit(rng, {v for v, _ in pairs}, vc, rng.randint(0, 3), rng.random() < .5)
    return {"file": text or "", "error": repr(err)}


def job_rew(j, wd):
    from checks import c08
    rng = random.Random(j["seed"])
    out = {}
    for k in range(12):
        e = c08.fform(rng, [f"x{i}" for i in range(rng.randint(1, 5))], rng.randint(1, 4))
        out[f"in{k}"] = repr(e)
        yield
        o, new = c08.optimize(e)
        out[f"out{k}"] = repr(o) + " " + repr(sorted(v.name() for v in new))
        s = e.simplify()
        out[f"simple{k}"] = repr(s)
        out[f"in-again{k}"] = repr(e)
    return out


def job_lib(j, wd):
    """the shipped target languages, rendered"""
    from metalift import ir
    import importlib
    m = importlib.import_module(j["module"])
    names = sorted(n for n, v in vars(m).items() if isinstance(v, (ir.FnDecl, ir.FnDeclRecursive, ir.Axiom)))
    out = {}
    for how in ("__repr__", "toSMT", "to_rosette", "to_python"):
        rows = []
        for n in names:
            try:
                rows.append(f"{n}: {getattr(getattr(m, n), how)()}")
            except Exception as x:
                rows.append(f"{n}: {type(x).__name__}")
        out[how] = "\n".join(rows)
        yield
    fns = []
    for n in sorted(vars(m)):
        if n.startswith(("vec_", "matrix_", "call_", "get_")) and callable(getattr(m, n)):
            fns.append(n)
    out["functions"] = repr(fns)
    return out


def job_verify(j, wd):
    """shipped functions and axioms together in one verification problem"""
    import importlib
    from metalift import ir
    from metalift.synthesis_common import generate_types, verify_synth_result
    rng = random.Random(j["seed"])
    m = importlib.import_module("metalift.utils.tenspiler.tenspiler_common")
    ax = importlib.import_module("metalift.utils.tenspiler.axioms")
    decls = [v for n, v in sorted(vars(m).items()) if isinstance(v, (ir.FnDecl, ir.FnDeclRecursive))]
    vecs = [d for d in decls if not any(ir.is_fn_decl_type(a.type) for a in d.arguments())]
    axs = [v for n, v in sorted(vars(ax).items()) if isinstance(v, ir.Axiom)]
    yield
    target = rng.sample(vecs, min(len(vecs), 14)) + rng.sample(axs, min(len(axs), 6))
    fn = next(d for d in target if isinstance(d, (ir.FnDecl, ir.FnDeclRecursive)) and not isinstance(d, ir.Axiom))
    args = [ir.Var(f"a{k}", a.type) for k, a in enumerate(fn.arguments())]
    rv = ir.Var("f_rv", fn.return_type())
    body = ir.Eq(rv, ir.Call(fn.name(), fn.return_type(), *args))
    ps = ir.FnDeclRecursive("f_ps", ir.Bool, body, *args, rv)
    vc = ir.Call("f_ps", ir.Bool, *args, rv)
    vs = {*args, rv}
    ft = generate_types(target)
    ft["f_ps"] = ps.type
    yield
    before = "\n".join(map(repr, target))
    try:
        with harness.quiet():
            verify_synth_result("v", target, vs, [], vc, [ir.Synth("f_ps", body, *args, rv)], "/bin/true", wd + "/", [ps], {"f_ps": body}, ft, 0)
        text = open(wd + "/v_0.smt").read()
    except Exception as x:
        text = f"{type(x).__name__}: {x}"
    return {"smt": text, "target": before, "target-again": "\n".join(map(repr, target))}


KINDS = {"py": job_py, "ll": job_ll, "prob": job_prob, "gram": job_gram, "bound": job_bound, "rew": job_rew, "lib": job_lib, "verify": job_verify}


def start(j, wd):
    d = os.path.join(wd, f"run{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    return KINDS[j["kind"]](j, wd if j["kind"] in ("py", "ll") else d)


def finish(g):
    try:
        while True:
            next(g)
    except StopIteration as s:
        return s.value


def norm(out):
    # an object's address is not part of what is produced
    return {k: re.sub(r" at 0x[0-9a-f]+", "", str(v)) for k, v in out.items()}


# ------------------------------------------------------------------ processes
def preload():
    boot.boot()
    import metalift.frontend.python, metalift.frontend.llvm, metalift.synthesize_rosette, metalift.synthesize_cvc5
    import mon.pygen, mon.pyrun, mon.cgen, mon.fnlib, mon.irgen
    from checks import c02, c08, c10, c11, c12


def child(spec):
    """--run SPEC: one history per entry, each in a forked process"""
    d = json.load(open(spec))
    preload()
    for h in d["histories"]:
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                history(d, h)
            except BaseException:
                open(h["out"] + ".err", "w").write(traceback.format_exc())
                rc = 1
            os._exit(rc)
        os.waitpid(pid, 0)
    os._exit(0)


def history(d, h):
    jobs, wd = d["jobs"], d["wd"]
    r = random.Random(h["seed"])
    res = []
    todo = list(h["order"])
    open_, active = [], h["active"]
    boot._scratch = os.path.join(wd, f"scratch{os.getpid()}")
    os.makedirs(boot._scratch, exist_ok=True)
    step = 0
    while todo or open_:
        while todo and len(open_) < active:
            k = todo.pop(0)
            try:
                open_.append((k, start(jobs[k], wd), step))
            except Exception:
                res.append((k, {"crash": traceback.format_exc()[-800:]}, step, step))
        i = r.randrange(len(open_))
        k, g, s0 = open_[i]
        step += 1
        try:
            next(g)
        except StopIteration as s:
            open_.pop(i)
            res.append((k, norm(s.value), s0, step))
        except Exception as x:
            open_.pop(i)
            res.append((k, {"crash": f"{type(x).__name__}: {x}", "trace": traceback.format_exc()[-900:]}, s0, step))
    pickle.dump(res, open(h["out"], "wb"))
    os.chdir(wd)
    shutil.rmtree(boot._scratch, ignore_errors=True)
    shutil.rmtree(os.path.join(wd, f"run{os.getpid()}"), ignore_errors=True)


# ------------------------------------------------------------------ workload
def make_jobs(c, wd):
    from mon import pygen, cgen, llinterp
    from checks import c02, c12
    jobs = []
    r = c.rng("jobs")
    for m in range(c.n(4, 12)):
        fns, plans = [], []
        for i in range(3):
            f = pygen.Gen(random.Random(r.random()), f"f{i}", {"ret": "int" if i < 2 else r.choice(["int", "list"]), "prefix": "q", "depth": r.choice([2, 3])}).gen()
            fns.append(f)
            if i == 1:
                g = pygen.Gen(random.Random(r.random()), f"g{i}", {"first": f"f{i}_rv", "depth": 2}).gen()
                fns.append(g)
                plans.append([f, g])
            else:
                plans.append([f])
        text = pygen.module(fns)
        # another module has functions, loops and variables of the same names
        open(os.path.join(wd, f"py{m}.py"), "w").write(text)
        for fs in plans:
            jobs.append({"kind": "py", "mod": m, "pre": r.choice([None, 0]), "label": f"py module {m}: {[f.name for f in fs]}", "text": "\n".join(f.text() for f in fs),
                         "stages": [{"name": f.name, "params": f.params, "rv": f.name + "_rv"} for f in fs]})
    so, inc = c02.prepare(wd)
    for m in range(c.n(3, 8)):
        gs, k = [], 0
        while len(gs) < 5:
            # functions of different files share their names
            g = cgen.Gen(random.Random(r.random()), f"f{len(gs)}", wild=False).gen()
            gs.append(g)
        text = cgen.PRELUDE + "\n".join(g.text() for g in gs)
        M = c02.Module(os.path.join(wd, f"ll{m}"), text, so, inc)
        for g in gs:
            jobs.append({"kind": "ll", "ll": M.ll, "loops": M.lp, "fn": g.name, "params": g.params, "pre": r.choice([None, 1]), "text": g.text(),
                         "scope": [a for a in M.allocas(M.by[g.name]) if not c02.TECH.match(a)], "label": f"C++ module {m}: {g.name}"})
    ships = sorted(os.path.join(q, f) for q, _, fs in os.walk(os.path.join(boot.REPO, "benchmarks")) for f in fs
                   if f.endswith(".ll") and os.path.exists(os.path.join(q, f[:-3] + ".loops")))
    for ll in ships[:c.n(8, 40)]:
        try:
            M = c02.Module(ll[:-3], None, None, None)
            fn = os.path.basename(ll)[:-3]
            full = llinterp.demangle([M.by[fn]])[0]
            types = llinterp.split_args(full[full.index("(") + 1:-1])
            names = [n for _, n, sret in M.fns[M.by[fn]].params if not sret]
            params = [(n, "int" if t == "int" else "bigmat" if t.count("vector") >= 2 else "bigvec") for n, t in zip(names, types)]
        except Exception:
            continue
        jobs.append({"kind": "ll", "ll": ll, "loops": ll[:-3] + ".loops", "fn": fn, "params": params, "pre": None, "text": os.path.relpath(ll, boot.REPO),
                     "scope": [a for a in M.allocas(M.by[fn]) if not c02.TECH.match(a)], "label": "shipped " + fn})
    for name, feats in c12.LEVELS:
        for q in range(c.n(2, 8)):
            jobs.append({"kind": "prob", "seed": r.random(), "feats": feats, "label": "verification problem " + name})
    for which in ("rosette", "cvc5"):
        for q in range(c.n(6, 24)):
            jobs.append({"kind": "gram", "seed": r.random(), "which": which, "label": "grammars for " + which})
    for q in range(c.n(6, 24)):
        jobs.append({"kind": "bound", "seed": r.random(), "label": "bounded problem"})
    for q in range(c.n(4, 16)):
        jobs.append({"kind": "rew", "seed": r.random(), "label": "rewriting"})
    for q in range(c.n(6, 24)):
        jobs.append({"kind": "verify", "seed": r.random(), "label": "shipped functions in a verification problem"})
    for m in ("metalift.utils.tenspiler.tenspiler_common", "metalift.utils.tenspiler.axioms"):
        jobs.append({"kind": "lib", "module": m, "label": m})
    return jobs


def run(c):
    wd = tempfile.mkdtemp(prefix="c15-")
    try:
        go(c, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def go(c, wd):
    jobs = make_jobs(c, wd)
    r = c.rng("plan")
    n = len(jobs)
    hs = []

    def add(order, active, what, hashseed):
        hs.append({"order": order, "active": active, "what": what, "hash": hashseed, "seed": r.random(), "out": os.path.join(wd, f"h{len(hs)}.pkl")})
    for k in range(n):
        add([k], 1, "alone", 0)
    for s in ([1, 4242] if not c.thorough else [1, 2, 7, 99, 4242, 31337]):
        for k in range(n):
            if not c.thorough and s != 1 and jobs[k]["kind"] == "py" and k % 2:
                continue
            add([k], 1, "hash seed", s)
    for q in range(c.n(10, 60)):
        o = [r.randrange(n) for _ in range(r.choice([10, 20, 30]))]
        kind = r.choice([None, None, "py", "ll", "prob"])
        if kind:
            same = [k for k in range(n) if jobs[k]["kind"] == kind]
            o = [r.choice(same) for _ in range(12)]
        o += r.sample(o, min(3, len(o)))                # the same job again
        py = [x for x, k in enumerate(o) if jobs[k]["kind"] == "py"]
        o = [k for x, k in enumerate(o) if x not in py[c.n(6, 12):]]          # these take seconds each
        add(o, r.choice([1, 2, 4]), "history", 0)
    # one process per group of histories with one hash seed, about equally long
    cost = lambda h: .3 + sum(6 if jobs[k]["kind"] == "py" else .1 for k in h["order"])
    total, groups, specs = sum(map(cost, hs)), {}, []
    for h in hs:
        groups.setdefault(h["hash"], []).append(h)
    for s, l in groups.items():
        bins = [[0, []] for _ in range(max(1, min(24, round(sum(map(cost, l)) * 16 / total))))]
        for h in sorted(l, key=cost, reverse=True):
            m = min(bins, key=lambda x: x[0])
            m[0] += cost(h)
            m[1].append(h)
        for p, (w, part) in enumerate(bins):
            f = os.path.join(wd, f"spec{s}_{p}.json")
            json.dump({"jobs": jobs, "wd": wd, "histories": part}, open(f, "w"))
            specs.append((w, s, f))
    specs = [(s, f) for _, s, f in sorted(specs, reverse=True)]
    running = []
    for s, f in specs:
        while len(running) >= 8:
            running = [p for p in running if p.poll() is None]
            time.sleep(.02)
        running.append(subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__), "--run", f],
                                        env={**os.environ, "PYTHONHASHSEED": str(s)}, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in running:
        p.wait()
    ref = {}
    for h in hs:
        if not os.path.exists(h["out"]):
            e = h["out"] + ".err"
            raise RuntimeError("a history gave no record: " + (open(e).read()[-1500:] if os.path.exists(e) else "?"))
        h["res"] = pickle.load(open(h["out"], "rb"))
        if h["what"] == "alone":
            ref[h["order"][0]] = h["res"][0][1]
    for k in ("alone", "hash seed", "history"):
        c.require("records_" + k.replace(" ", "_"), n if k == "alone" else 40)
    c.require("texts_compared", 400)
    c.require("interleaved_records", 20)
    for k, v in ref.items():
        kind = jobs[k]["kind"]
        c.count("job_" + kind)
        if "crash" in v:
            c.count("crash_alone_" + kind)
            c.sample(f"alone: {jobs[k]['label']}: {v['crash']}")
        for a in v:
            b = a.replace("-again", "")
            if a != b and b in v and v[a] != v[b]:
                c.fail("changes-later", f"{jobs[k]['label']}: {b} is another text later on", first=diff(v[b], v[a]), text=jobs[k].get("text"))
    c.require("job_py", 6), c.require("job_ll", 6), c.require("job_prob", 10)
    for h in hs:
        for k, v, s0, s1 in h["res"]:
            c.count("records_" + h["what"].replace(" ", "_"))
            c.case((k, h["what"], h["hash"], h["seed"]))
            if h["what"] == "alone":
                continue
            c.nontrivial((k, h["hash"], h["seed"]))
            if h["active"] > 1:
                c.count("interleaved_records")
            for t in sorted(set(ref[k]) | set(v)):
                c.count("texts_compared")
                if t == "trace" or ref[k].get(t) == v.get(t):
                    continue
                mech = ("hash-" if h["what"] == "hash seed" else "history-") + jobs[k]["kind"]
                c.fail(mech, f"{jobs[k]['label']}: {t} depends on " + (f"the hash seed ({h['hash']})" if h["what"] == "hash seed" else "what ran in the process before")
                       + ": " + diff(ref[k].get(t), v.get(t)), text=jobs[k].get("text"), history=[jobs[q]["label"] for q in h["order"]][:30])
                break


def diff(a, b):
    a, b = str(a).splitlines(), str(b).splitlines()
    for x, y in zip(a, b):
        if x != y:
            p = next((i for i, (u, w) in enumerate(zip(x, y)) if u != w), min(len(x), len(y)))
            return f"...{x[max(0, p - 60):p + 120]!r} / ...{y[max(0, p - 60):p + 120]!r}"
    return f"{len(a)} lines / {len(b)} lines"


if __name__ == "__main__":
    if sys.argv[1:2] == ["--run"]:
        child(sys.argv[2])
    harness.main(PID, LEVEL, RULE, run)
