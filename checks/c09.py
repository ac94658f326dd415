"""C09: only candidates the verifier accepted are ever returned.

Monitor: the real search loops (`synthesize_rosette.synthesize`, `synthesize_cvc5.synthesize`, and the
Python driver on top) run against scripted solver processes on a virtual clock.  The scripts choose
candidates, verdicts, delays, partial writes, crashes, stale files.  The monitor re-reads every file the
verifier is started on with an independent SMT-LIB evaluator and identifies which candidate it defines; a
trace automaton then decides which outcome is allowed.
"""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, irgen, ireval, smteval, boot, sexp, fakeproc
from mon.harness import quiet

PID, LEVEL = "C09", "fault-injection"
RULE = "a search in which at least one candidate reached the verifier"
FEAT = {**irgen.ROS, "types": ["i", "b", "l"], "sets": False, "tuples": False, "tensors": False, "let": False, "implies": False,
        "slices": False, "transpose": False, "concat": False, "eqlist": False, "tupexpr_get": False, "callvalue": False}
T = irgen.ty
ACCEPT = ["unsat\n", 'unsat\n(error "Cannot get model unless after a SAT or UNKNOWN response.")\n', "unsat"]
REJECT = ["sat\n(\n(define-fun x () Int 0)\n)\n", "unknown\n", "unknown\n(\n)\n", "", "\n", "cvc5 interrupted by timeout.\n", "cvc5 interrupted by SIGTERM.\n",
          '(error "Parse Error: x.smt:3.14: Symbol \'unsat\' not declared")\n', '(error "nope")\nunsat\n', "sat\nunsat\n", "unknown\nunsat\n",
          "unsatisfiable?\n", "not unsat\n", "un", "timeout\n", "unsat core requested but not available\n", "\nunsat\n", "Segmentation fault\n"]


def safe(e):
    """Forms this check writes in the synthesizer's syntax; the translation itself is C07's business."""
    from metalift import ir
    if isinstance(e, (ir.Var, ir.Lit)):
        return True
    if isinstance(e, ir.Call):
        if e.name() not in ("list_length",) and not e.name().startswith(("prog", "aux")):
            return False
    elif type(e) not in (ir.Add, ir.Sub, ir.Mul, ir.Eq, ir.Lt, ir.Le, ir.Gt, ir.Ge, ir.And, ir.Not, ir.Ite):
        return False
    elif type(e) in (ir.Add, ir.Sub, ir.Mul, ir.And) and len(e.args) != 2:
        return False
    if type(e) is ir.Eq and e.args[0].type not in (ir.Int, ir.Bool):
        return False
    return all(safe(a) for a in e.args if isinstance(a, ir.Expr))


def has_list(e):
    from metalift import ir
    return isinstance(e, ir.Expr) and ((isinstance(e, ir.Call) and e.name() == "list_length") or any(has_list(a) for a in e.args))


def simple(rng, code, scope, fns=None, depth=2):
    while True:
        e = irgen.Gen(rng, FEAT, scope, fns or {}).expr(code, depth)
        if safe(e):
            return e


def pick(e, rng):
    """One member of the search space: independent pick at every occurrence of a choice."""
    from metalift import ir
    if isinstance(e, ir.Choose):
        return pick(rng.choice(list(e.args)), rng)
    if not isinstance(e, ir.Expr) or isinstance(e, (ir.Var, ir.Lit)):
        return e
    return e.map_args(lambda a: pick(a, rng) if isinstance(a, ir.Expr) else a)


class Prob:
    pass


def problem(rng, sygus=False):
    def simple(rng, code, scope, fns=None, depth=2):
        while True:
            e = globals()["simple"](rng, code, scope, fns, depth)
            if not (sygus and has_list(e)):
                return e
    from metalift import ir
    P = Prob()
    P.scope = {"i": "i", "acc": "i", "xs": "l", "res": "i"}
    P.decls, helpers = [], {}
    if rng.random() < .6:
        body = simple(rng, "i", {"p": "i", "q": "l"})
        P.decls.append((ir.FnDecl if rng.random() < .5 else ir.FnDeclRecursive)("aux", T("i"), body, ir.Var("p", T("i")), ir.Var("q", T("l"))))
        helpers["aux"] = ("i", ["i", "l"])
    P.synths, P.sig = [], {}
    names = rng.sample(["prog_inv0", "prog_ps", "prog_inv1", "prog", "prog_inv"], rng.randint(1, 3))
    done = dict(helpers)
    for n in names:
        args = dict(rng.sample(sorted(P.scope.items()), rng.randint(1, 4)))
        ret = "b" if rng.random() < .85 else "i"
        if "i" not in args.values():
            args["i"] = "i"
        ints = [simple(rng, "i", args, done, 2) for _ in range(rng.randint(2, 4))]
        ints += [ir.IntLit(k) for k in rng.sample(range(0, 9), 3)]
        c1 = ir.Choose(*ints)
        cmp = ir.Choose(*[k(simple(rng, "i", args, done, 1), c1) for k in rng.sample([ir.Le, ir.Lt, ir.Eq, ir.Gt, ir.Ge], rng.randint(1, 3))])
        if ret == "i":
            g = rng.choice([c1, ir.Add(c1, ir.IntLit(1)), ir.Ite(cmp, c1, c1)])
        else:
            g = rng.choice([cmp, ir.And(cmp, ir.Not(cmp)), ir.Eq(ir.Var(rng.choice([a for a, t in args.items() if t == "i"]), T("i")), c1),
                            ir.Ite(cmp, cmp, ir.BoolLit(rng.random() < .5))])
            if rng.random() < .2:
                g = simple(rng, "b", args, done, 2)        # nothing to choose
        P.synths.append(ir.Synth(n, g, *[ir.Var(a, T(t)) for a, t in args.items()]))
        P.sig[n] = (ret, list(args.values()))
        if not sygus:
            done[n] = (ret, list(args.values()))
    gen = lambda code: simple(rng, code, P.scope, {}, 1)
    calls = []
    for n, (ret, args) in P.sig.items():
        call = ir.Call(n, T(ret), *[gen(a) if a != "l" else ir.Var("xs", T("l")) for a in args])
        calls.append(call if ret == "b" else ir.Le(call, gen("i")))
    rng.shuffle(calls)
    vc = calls[0]
    for k in calls[1:]:
        vc = rng.choice([ir.Implies, ir.And, ir.Or])(vc, k)
    P.vc = ir.Implies(gen("b"), vc) if rng.random() < .5 else vc
    P.helpers = {d.name(): d for d in P.decls}
    P.probe = {n: [[irgen.rand_val(rng, a) for a in args] for _ in range(10)] for n, (ret, args) in P.sig.items()}
    P.envs = [irgen.rand_env(rng, P.scope) for _ in range(8)]
    return P


def candidate(P, rng):
    from metalift import ir
    return {s.name(): ir.FnDeclRecursive(s.name(), s.body().type, pick(s.body(), rng), *s.arguments()) for s in P.synths}


def fingerprint(P, cand):
    """What a set of definitions computes on the probes."""
    fns = {**P.helpers, **cand}
    out = []
    for n in sorted(P.probe):
        for vals in P.probe[n]:
            try:
                out.append((n, irgen.RectEv(fns).call(cand[n], vals)))
            except (ireval.Undefined, RecursionError):
                out.append((n, "undefined"))
    return tuple(out)


def file_fingerprint(P, text):
    """The same for the functions an SMT-LIB file defines, and its asserted formula on the environments."""
    smt = smteval.Smt(models=dict(smteval.DECLARED), fuel=200000)
    smt.load(text)
    out = []
    for n in sorted(P.probe):
        for vals in P.probe[n]:
            smt.fuel = smt.fuel0
            try:
                out.append((n, smt.apply(n, list(vals))))
            except (ireval.Undefined, RecursionError):
                out.append((n, "undefined"))
    lib = len([1 for n in smteval.LIBS for f in sexp.read_all(open(os.path.join(boot.REPO, "metalift/utils", n)).read()) if f[0] == "assert"])
    asserts = [f[1] for f in sexp.read_all(text) if f[0] == "assert"][lib:]
    ground = [a for a in asserts if not (isinstance(a, list) and a[0] == "forall")]
    vals = []
    for env in P.envs:
        smt.fuel = smt.fuel0
        try:
            vals.append([smt.value(g, env) for g in ground])
        except (ireval.Undefined, RecursionError):
            vals.append("undefined")
    return tuple(out), vals


def vc_values(P, cand):
    out = []
    for env in P.envs:
        try:
            out.append([not irgen.RectEv({**P.helpers, **cand}).ev(P.vc, env)])
        except (ireval.Undefined, RecursionError):
            out.append("undefined")
    return out


def agree(a, b):
    return len(a) == len(b) and all(x == "undefined" or y == "undefined" or x == y or ("undefined" in (x[-1], y[-1])) for x, y in zip(a, b))


def matches(P, text, cand, cfp):
    """Does the file define exactly this candidate and ask about the condition?"""
    fp, vals = file_fingerprint(P, text)
    if not all(y[1] == "undefined" or x == y for x, y in zip(fp, cfp)):
        return "defines other functions"
    want = vc_values(P, cand)
    if any(w != "undefined" and w != g for w, g in zip(want, vals)):
        return f"asserts something else: {vals} instead of {want}"
    return None


# ---------------------------------------------------------------- scripted programs
def pretty(rng, text):
    """Break a form over several lines as Racket's printer does."""
    out, depth = [], 0
    for tok in re.findall(r"\(|\)|[^\s()]+", text):
        if tok == "(" and out and rng.random() < .25:
            out.append("\n" + " " * rng.randint(1, 6))
        out.append(tok + " ")
    s = "".join(out)
    s = re.sub(r"\(\s", "(", s)
    return re.sub(r"\s\)", ")", s).replace(" )", ")").strip()


def sol_text(P, cand, rng, omit=()):
    """What print-forms shows for a solution."""
    where = rng.choice(["/home/u/work/synthesisLogs/prog.rkt", "/tmp/define/prog.rkt", "/a b/prog.rkt"])
    names = [n for n in cand if n not in omit]
    rng.shuffle(names)
    out = ["#t"]
    for i, n in enumerate(names):
        d = cand[n]
        out.append(f"{where}:{30 + i}:0")
        body = d.body().to_rosette()
        form = f"(define ({n} {' '.join(a.args[0] for a in d.arguments())})\n   {pretty(rng, body) if rng.random() < .5 else body})"
        out.append(("'" if rng.random() < .5 else "") + form)
    return "\n".join(out) + "\n"


class Script:
    """rounds: list of (kind, text, delay); verdicts: list of (stdout, rc); exit: (delay, code, stderr)."""


def racket(world, S, P):
    def start(w, argv, p):
        S.rkt = open(os.path.join(p.cwd or ".", argv[-1])).read()
        outs = re.findall(r'"(synthesisLogs/[^"]+)"', S.rkt)
        S.outs = outs
        t = 0.0
        for i, (kind, text, delay) in enumerate(S.rounds):
            t += delay
            if i >= len(outs):
                break
            path = outs[i]

            def write(path=path, kind=kind, text=text):
                if p._rc is not None:
                    return
                if os.path.exists(path):      # with-output-to-file refuses to overwrite
                    p._rc, p.err = 1, b"with-output-to-file: file exists"
                    return
                S.written.append(path)
                if kind == "slow":
                    open(path, "w").write(text[:S.cut(text)])

                    def rest():
                        if p._rc is None:
                            open(path, "w").write(text)
                    w.at(S.lag, rest)
                else:
                    open(path, "w").write(text)
                if text.startswith("#f") and kind == "full":
                    w.at(.1, lambda: setattr(p, "_rc", 1 if p._rc is None else p._rc))
            w.at(t, write)

        def end():
            if p._rc is None:
                p.err, p._rc = S.exit[2], S.exit[1]
        if S.exit is not None:
            w.at(t + S.exit[0], end)
        S.proc = p
    return start


def verifier(world, S, P):
    def start(w, argv, p):
        path = os.path.join(p.cwd or ".", argv[-1])
        text = open(path).read()
        k = len(S.queries)
        out, rc = S.verdicts[k] if k < len(S.verdicts) else ("unknown\n", 0)
        S.queries.append((text, out, rc))
        p.out = out.encode()
        w.at(S.vtime, lambda: setattr(p, "_rc", rc if p._rc is None else p._rc))
    return start


def accepted(out, rc):
    return out.split("\n")[0] == "unsat" and rc == 0


def rejected(out, rc):
    return out.split("\n")[0] != "unsat" or rc < 0


BUGS = (NameError, AttributeError, TypeError, KeyError, IndexError, AssertionError, UnboundLocalError)


def outcome(fn):
    with quiet():
        try:
            return "returned", fn()
        except fakeproc.Hang as x:
            return "hang", x
        except Exception as x:
            return "error", x


def show(P, S):
    return dict(rounds=[(k, t[:300], d) for k, t, d in S.rounds], verdicts=S.verdicts, exit=S.exit, synths=[s.to_rosette() for s in P.synths])


def check_returned(c, P, res, cand, tag, **d):
    from metalift import ir
    names = [f.name() for f in res]
    want = [s.name() for s in P.synths]
    if sorted(names) != sorted(want):
        c.fail(f"{tag}:functions", f"returned functions {names}, the problem has {want}", **d)
        return False
    got = {f.name(): f for f in res}
    for s in P.synths:
        g = got[s.name()]
        if [(a.args[0], a.type) for a in g.arguments()] != [(a.args[0], a.type) for a in s.arguments()] or g.return_type() != s.body().type:
            c.fail(f"{tag}:signature", f"{s.name()} returned with another signature: {g!r}", **d)
            return False
    try:
        fp = fingerprint(P, got)
    except ireval.EvalError as x:
        c.fail(f"{tag}:ill-formed", f"the returned functions cannot be evaluated: {x}", **d)
        return False
    if not agree(fp, fingerprint(P, cand)):
        c.fail(f"{tag}:other", f"returned {[repr(f.body()) for f in res]}, which is not the candidate the verifier accepted: "
               f"{[repr(cand[n].body()) for n in names]}", **d)
        return False
    return True


# ---------------------------------------------------------------- families
def scripts(rng, P, rounds):
    S = Script()
    S.queries, S.written, S.rkt, S.outs = [], [], "", []
    S.lag = rng.choice([.5, 1.0, 2.5, 7])
    S.vtime = rng.choice([.01, .5, 3, 30, 100])
    S.cut = lambda text: rng.choice([0, 1, 2, 3, len(text) // 2, max(0, len(text) - 3)])
    S.cands, seen = [], set()
    for _ in range(60):
        if len(S.cands) >= rounds + 1:
            break
        k = candidate(P, rng)
        fp = fingerprint(P, k)
        if fp not in seen:
            seen.add(fp)
            S.cands.append(k)
    n = rng.choice([len(S.cands)] * 4 + [rng.randint(0, len(S.cands))])
    S.cands = S.cands[:n]
    return S


def rosette_case(c, rng, i):
    from metalift import synthesize_rosette as sr
    P = problem(rng)
    R = rng.choice([0, 0, 1, 2, 3, 5])
    S = scripts(rng, P, R)
    mode = rng.choice(["clean"] * 6 + ["slow", "garbled", "refused", "crash"])
    omit = {}
    S.rounds = []
    for k, cand in enumerate(S.cands):
        delay = rng.choice([.2, 1.9, 2.0, 2.1, 5, 40])
        om = ()
        if rng.random() < .15:      # nothing had to be chosen in a function: it is left out of the output
            n = rng.choice(sorted(cand))
            from metalift import ir
            s = next(s for s in P.synths if s.name() == n)
            cand[n] = ir.FnDeclRecursive(n, s.body().type, first(s.body()), *s.arguments())
            om = (n,)
        S.rounds.append(("full", sol_text(P, cand, rng, om), delay))
    fps = [fingerprint(P, k) for k in S.cands]
    if len(set(fps)) != len(fps):
        c.count("indistinct")
        return
    S.exit = (rng.choice([.0, .3, 2, 2.05, 10]), 0, b"")
    complete = True
    if mode == "refused" and S.rounds:
        S.rounds[-1] = ("full", "#f\n", S.rounds[-1][2])
    elif mode == "crash":
        keep = rng.randint(0, len(S.rounds))
        S.rounds = S.rounds[:keep]
        S.exit = (rng.choice([0, .5, 3, 60]), rng.choice([1, -9, -11, 255, 0]), rng.choice([b"out of memory\n", b"", b"context...:\n"]))
    elif mode == "slow" and S.rounds:
        j = rng.randrange(len(S.rounds))
        S.rounds[j] = ("slow", S.rounds[j][1], S.rounds[j][2])
        complete = False
    elif mode == "garbled" and S.rounds:
        j = rng.randrange(len(S.rounds))
        t = S.rounds[j][1]
        t = rng.choice([t[:len(t) // 2], "", "#<void>\n", t.replace("#t", "#tt"), t.replace("#t", "(sat)"), t.replace(")", "", 2), "\n" + t])
        S.rounds[j] = ("full", t, S.rounds[j][2])
        complete = False
    if rng.random() < .2 and complete:
        S.exit = None if len(S.rounds) > R else S.exit      # the search is still running when it is no longer needed
    # verdicts
    win = rng.choice([0, 1, 2, len(S.cands) - 1, 99, 99])
    S.verdicts = []
    for k in range(len(S.cands) + 1):
        if k == win:
            S.verdicts.append(rng.choice([(rng.choice(ACCEPT), 0)] * 5 + [("unsat\n", -9), ("unsat\n", -11), ("unsat\n", 1)]))
        else:
            out = rng.choice(REJECT + ["sat\n", "sat\n"])
            S.verdicts.append((out, rng.choice([0, 0, 1, -9, -6])))
    no_verify = rng.random() < .06
    opt = rng.random() < .2
    base = rng.choice(["prog", "prog", "x1", "a_sol", "matmul.v2"])
    for d in os.listdir("."):
        pass
    os.makedirs("synthesisLogs", exist_ok=True)
    for f in os.listdir("synthesisLogs"):
        os.unlink("synthesisLogs/" + f)
    if rng.random() < .4:       # left over from an earlier run: a candidate that was fine then
        stale = candidate(P, rng)
        for j in range(rng.randint(1, 3)):
            open(f"synthesisLogs/{base}_sol{j}", "w").write(sol_text(P, stale, rng))
        c.count("stale_files")
    from metalift import ir
    guess = [s for s in P.synths if rng.random() < .8] or P.synths[:1]
    infos = list(P.synths)
    w = fakeproc.World()
    w.programs = [(lambda a: "racket" in os.path.basename(a[0]), racket(w, S, P)), (lambda a: True, verifier(w, S, P))]
    vs = {ir.Var(n, T(k)) for n, k in P.scope.items()}
    kw = dict(basename=base, target_lang=list(P.decls), vars=vs, inv_and_ps=list(P.synths), preds=[], vc=P.vc, loop_and_ps_info=infos,
              cvc_path="cvc5", rounds_to_guess=R, fns_to_guess=guess, no_verify=no_verify, optimize_vc_equality=opt, log=rng.random() < .8)
    if rng.random() < .5:
        kw["list_bound"] = rng.choice([1, 2, 3])
    with w:
        kind, res = outcome(lambda: sr.synthesize(**kw))
    key = (i, mode, R, len(S.rounds), win, kind)
    c.case((mode, R, len(S.rounds), win, kind, tuple(v for v in S.verdicts)))
    c.count(f"rosette_{mode}")
    c.count(f"outcome_{kind}")
    c.count("verifier_runs", len(S.queries))
    d = show(P, S)
    d.update(mode=mode, rounds_to_guess=R, outcome=(kind, repr(res)[:600]), no_verify=no_verify)
    if kind == "hang":
        c.fail("hang", f"the search never ends ({mode}): {res}", **d)
        return
    # the trace automaton
    ok_round = None
    stop = None
    k = 0
    expected_q = []
    for r, (kd, text, _) in enumerate(S.rounds[:R + 1]):
        if text.startswith("#f"):
            stop = "refused"
            break
        expected_q.append(r)
        if no_verify:
            ok_round = r
            break
        out, rc = S.verdicts[len(expected_q) - 1]
        if accepted(out, rc):
            ok_round = r
            break
        if not rejected(out, rc):
            ok_round = ("maybe", r)
            break
    if no_verify:
        expected_q = []
        if S.queries:
            c.fail("no-verify", "verifier started although verification was switched off", **d)
            return
    if complete:
        if S.queries:
            c.nontrivial((tuple(v for v in S.verdicts), mode, R, len(S.rounds), i))
        # every query is exactly the candidate of its round, in order
        for q, (text, _, _) in enumerate(S.queries):
            if q >= len(expected_q):
                c.fail("extra-query", f"verifier started {len(S.queries)} times; {len(expected_q)} candidates were due", **d)
                return
            try:
                m = matches(P, text, S.cands[expected_q[q]], fps[expected_q[q]]) if not opt else (
                    None if file_fingerprint(P, text)[0] and agree(file_fingerprint(P, text)[0], fps[expected_q[q]]) else "defines other functions")
            except (smteval.SmtError, sexp.ReadError) as x:
                m = f"cannot be read: {x}"
            if m:
                c.fail("query", f"file given to the verifier in round {q} {m}", file=text[-2500:], **d)
                return
            c.count("queries_checked")
        if len(S.queries) != len(expected_q) and not (isinstance(ok_round, tuple)):
            c.fail("queries", f"{len(S.queries)} candidates were sent to the verifier, expected {len(expected_q)}", **d)
            return
        if isinstance(ok_round, tuple):
            if kind == "returned":
                check_returned(c, P, res, S.cands[ok_round[1]], "either", **d)
            return
        if ok_round is None:
            if kind == "returned":
                c.fail("unaccepted", f"returned {[repr(f) for f in res or []]} although no candidate was accepted (mode {mode}, verdicts {S.verdicts})", **d)
            elif isinstance(res, BUGS):
                c.fail("error-kind", f"the search ends with {type(res).__name__}: {res} instead of reporting that it failed", **d)
            else:
                c.count("search_failed_reported")
            return
        if kind != "returned":
            c.fail("lost", f"candidate of round {ok_round} was accepted but the search ended with {type(res).__name__}: {res}", **d)
            return
        if check_returned(c, P, res, S.cands[ok_round], "accepted", **d):
            c.count("accepted_returned")
            if ok_round:
                c.count("accepted_in_later_round")
    elif kind == "returned":
        # safety only: the last query was accepted and is what was returned
        if no_verify:
            return
        if not S.queries or not (S.queries[-1][1].split("\n")[0] == "unsat" and S.queries[-1][2] >= 0):
            c.fail("unaccepted", f"returned {[repr(f) for f in res]} although the verifier did not accept it", **d)
            return
        got = {f.name(): f for f in res}
        if sorted(got) != sorted(P.sig):
            c.fail("functions", f"returned functions {sorted(got)}, the problem has {sorted(P.sig)}", **d)
            return
        fp = file_fingerprint(P, S.queries[-1][0])[0]
        if not agree(fp, fingerprint(P, got)):
            c.fail("other", "the returned functions are not the ones the verifier accepted", **d)
        c.count("faulty_run_still_sound")
    else:
        c.count("faulty_run_reported")


def first(e):
    from metalift import ir
    if isinstance(e, ir.Choose):
        return first(e.args[0])
    if not isinstance(e, ir.Expr) or isinstance(e, (ir.Var, ir.Lit)):
        return e
    return e.map_args(lambda a: first(a) if isinstance(a, ir.Expr) else a)


# ---------------------------------------------------------------- SyGuS
def sygus_case(c, rng, i):
    from metalift import ir, synthesize_cvc5 as sc
    P = problem(rng, sygus=True)
    S = scripts(rng, P, 4)
    S.queries = []
    names = list(P.sig)
    lines, shown = [], []
    cand = None
    for k in S.cands[:rng.randint(0, 3)] if rng.random() < .5 else S.cands[:1]:
        shown.append(k)
        lines.append("(sygus-candidate " + " ".join(f"({n} {k[n].body().toSMT()})" for n in names) + ")")
        if rng.random() < .3:
            lines.append(rng.choice(["", "info: still searching", "(sygus-enum foo)"]))
    mode = rng.choice(["solution"] * 5 + ["fail", "eof", "crash", "nocand"])
    if mode == "solution":
        lines += ["("] + [f"(define-fun {n} () Int 0)" for n in names] + [")"]
    elif mode == "fail":
        lines += ["fail"]
    elif mode == "nocand":
        shown, lines = [], ["("]
    rc = rng.choice([1, -9, 134, 0]) if mode == "crash" else 0
    S.verdicts = [rng.choice([(rng.choice(ACCEPT), 0)] * 3 + [(rng.choice(REJECT), rng.choice([0, 1, -9])) for _ in range(3)] + [("unsat\n", -9)])]
    S.vtime = .5
    delays = [rng.choice([0, .2, 3]) for _ in lines]

    def solver(w, argv, p):
        t = 0
        S.sl = open(argv[-1]).read()
        for l, dl in zip(lines, delays):
            t += dl
            w.at(t, lambda l=l: setattr(p, "out", p.out + (l + "\n").encode()) if p._rc is None else None)
        w.at(t + .1, lambda: setattr(p, "_rc", rc if p._rc is None else p._rc))
        S.proc = p
    w = fakeproc.World()
    w.programs = [(lambda a: a[-1].endswith(".sl"), solver), (lambda a: True, verifier(w, S, P))]
    vs = {ir.Var(n, T(k)) for n, k in P.scope.items()}
    with w:
        kind, res = outcome(lambda: sc.synthesize("prog", list(P.decls), vs, list(P.synths), [], P.vc, list(P.synths), "cvc5"))
    c.case(("sygus", mode, len(shown), tuple(S.verdicts), kind))
    c.count(f"sygus_{mode}")
    c.count("verifier_runs", len(S.queries))
    d = dict(lines=lines, verdict=S.verdicts, outcome=(kind, repr(res)[:600]), rc=rc)
    if kind == "hang":
        c.fail("sygus-hang", f"the search never ends ({mode}, exit code {rc}): {res}", **d)
        return
    want = shown[-1] if mode == "solution" and shown else None
    if want is None:
        if kind == "returned":
            c.fail("sygus-unaccepted", f"returned {res!r} although the synthesizer found nothing ({mode})", **d)
        return
    if len(S.queries) != 1:
        c.fail("sygus-queries", f"verifier started {len(S.queries)} times for one solution; {d['outcome']}", **d)
        return
    c.nontrivial(("sygus", i))
    try:
        m = matches(P, S.queries[0][0], want, fingerprint(P, want))
    except (smteval.SmtError, sexp.ReadError) as x:
        m = f"cannot be read: {x}"
    if m:
        c.fail("sygus-query", f"file given to the verifier {m}", file=S.queries[0][0][-2500:], **d)
        return
    c.count("queries_checked")
    out, vrc = S.verdicts[0]
    if accepted(out, vrc):
        if kind != "returned":
            c.fail("sygus-lost", f"an accepted solution was dropped: {type(res).__name__} {res}", **d)
        elif check_returned(c, P, res, want, "sygus", **d):
            c.count("accepted_returned")
    elif rejected(out, vrc) and kind == "returned":
        c.fail("sygus-unaccepted", f"returned a solution on verdict {out!r} (exit code {vrc})", **d)
    if S.proc._rc is None:
        c.fail("sygus-orphan", "the synthesizer is left running after the search ended", **d)


# ---------------------------------------------------------------- exclusion of earlier candidates
def truth(form, now, old):
    """Evaluate an exclusion constraint: `now` and old[j] give the value of each guessed call."""
    h = form[0] if isinstance(form, list) else None
    if isinstance(form, sexp.Sym) or isinstance(form, str):
        s = str(form)
        if s in ("#t", "true"):
            return True
        if s in ("#f", "false"):
            return False
        raise ValueError(s)
    h = str(h) if not isinstance(h, list) else None
    if h in ("||", "or"):
        return any(truth(x, now, old) for x in form[1:])
    if h in ("&&", "and", "begin"):
        return all(truth(x, now, old) for x in form[1:])
    if h in ("!", "not"):
        return not truth(form[1], now, old)
    if h in ("eq?", "equal?", "="):
        return val(form[1], now, old) == val(form[2], now, old)
    if h in ("assume", "assert"):
        return truth(form[1], now, old)
    if h == "assertions":
        return True
    raise ValueError(sexp.show(form))


def val(form, now, old):
    if isinstance(form, list) and str(form[0]) == "evaluate":
        return val(form[1], old[str(form[2])], old)
    return now[str(form[0])]


def exclusion_case(c, rng, i):
    """The text of every later round rules out every earlier solution, and nothing else."""
    from metalift import ir
    from metalift.rosette_translator import generate_synth
    names = rng.sample(["f_inv0", "f_ps", "g_ps", "h"], rng.randint(1, 3))
    fns = [ir.Synth(n, ir.BoolLit(True), *[ir.Var(a, T("i")) for a in rng.sample(["x", "y", "z"], rng.randint(1, 3))]) for n in names]
    R = rng.randint(0, 4)
    text = generate_synth("prog", ["x", "y", "z"], R, fns, [])
    forms = sexp.read_all(text.replace("(||", "(or").replace("(!(", "(! ("))
    rounds = {str(f[1]): f[2] for f in forms if isinstance(f, list) and str(f[0]) == "define"}
    c.case(("exclusion", R, len(names)))
    want = [f"sol{k}" for k in range(R + 1)]
    if list(rounds) != want:
        c.fail("rounds", f"rounds {list(rounds)} for rounds_to_guess={R}", text=text)
        return
    outs = [str(f[1]) for f in forms if isinstance(f, list) and str(f[0]) == "with-output-to-file"]
    if len(set(outs)) != R + 1:
        c.fail("round-files", f"solutions are written to {outs}", text=text)
        return
    for k in range(R + 1):
        form = rounds[f"sol{k}"]
        args = {str(form[j]): form[j + 1] for j in range(1, len(form), 2)}
        g = args["#:guarantee"]
        if sorted(str(v) for v in args["#:forall"][1:]) != ["x", "y", "z"]:
            c.fail("forall", f"round {k} quantifies over {sexp.show(args['#:forall'])}", text=text)
            return
        if "(assertions)" not in sexp.show(g):
            c.fail("assertions", f"round {k} does not ask for the verification condition", text=text)
            return
        for _ in range(12):
            rv = lambda: {n: rng.randint(0, 1) for n in names}
            old = {f"sol{j}": rv() for j in range(k)}
            now = rng.choice([*old.values(), rv(), rv()]) if old else rv()
            got = truth(g, now, old)
            exp = all(now != o for o in old.values())
            c.count("exclusions_evaluated")
            if got is not exp:
                c.fail("exclusion", f"round {k}: with values {now} and earlier solutions {old} the constraint is {got}, expected {exp}", text=sexp.show(g))
                return


# ---------------------------------------------------------------- through the Python driver
SRC = '''
def total(n: int) -> int:
    i: int = 0
    s: int = 0
    while i < n:
        s = s + i
        i = i + 1
    return s


def total_psum(n: int) -> int:
    i: int = 0
    s: int = 0
    while i < n:
        s = s + 2
        i = i + 1
    return s


def plain(a: int, b: int) -> int:
    return a + b
'''


def driver_case(c, rng, i):
    from metalift import ir
    from metalift.frontend.python import Driver
    from mon import pyrun
    pyrun.cache_mypy()
    path = boot.scratch() + "/c09src.py"
    open(path, "w").write(SRC)
    names = rng.choice([["total"], ["total", "total_psum"], ["total_psum"], ["plain"], ["total_psum", "total", "plain"], ["plain", "total"]])
    from metalift.ir import Int, choose
    dr = Driver()

    def target():
        return []

    def inv(writes, reads, in_scope):
        v = [x for x in writes]
        k = choose(Int(0), Int(1), Int(2), Int(3))
        return choose(v[0] >= k, v[0] <= k)

    def ps(writes, reads, in_scope):
        k = choose(Int(0), Int(1), Int(2), Int(3), reads[0], reads[0] + 1)
        return writes[0] == k + choose(Int(0), reads[0])
    with quiet():
        fs = {}
        for n in names:
            fs[n] = dr.analyze(path, n, target, inv, ps)
        for n in names:
            a = [dr.variable(v, Int) for v in (["a", "b"] if n == "plain" else ["n"])]
            fs[n](*[Int(x) for x in a])
        synths = [p.gen_Synth() for p in dr.inv_tracker.predicates.values()]
    P = Prob()
    P.synths, P.helpers = synths, {}
    P.sig = {s.name(): ("b", ["i"] * len(s.arguments())) for s in synths}
    P.probe = {n: [[irgen.rand_val(rng, a) for a in args] for _ in range(12)] for n, (ret, args) in P.sig.items()}
    S = Script()
    S.queries, S.written = [], []
    cand = candidate(P, rng)
    S.rounds = [("full", sol_text(P, cand, rng), 1.0)]
    S.exit = (1, 0, b"")
    good = rng.random() < .7
    S.verdicts = [("unsat\n", 0) if good else (rng.choice(REJECT), 0)]
    S.vtime, S.lag = .5, 1
    os.makedirs("synthesisLogs", exist_ok=True)
    w = fakeproc.World()
    w.programs = [(lambda a: "racket" in os.path.basename(a[0]), racket(w, S, P)), (lambda a: True, verifier(w, S, P))]
    with w:
        kind, res = outcome(dr.synthesize)
    c.case(("driver", tuple(names), good, kind))
    c.count("driver_runs")
    d = dict(functions=names, sol=S.rounds[0][1], outcome=(kind, repr(res)[:400]))
    if not good:
        if kind != "error" or any(f.synthesized is not None for f in fs.values()):
            c.fail("driver-unaccepted", f"driver {kind} with results {[f.synthesized for f in fs.values()]} on verdict {S.verdicts}", **d)
        return
    if kind != "returned":
        c.fail("driver-lost", f"an accepted solution is not delivered: {type(res).__name__}: {res}", **d)
        return
    for n, f in fs.items():
        want = cand[f"{n}_ps"].body().args[1]
        args = [a.args[0] for a in cand[f"{n}_ps"].arguments()]
        bad = None
        if f.synthesized is None:
            bad = "nothing"
        else:
            for _ in range(8):
                env = {a: rng.randint(-4, 6) for a in args}
                x, y = ireval.evaluate(f.synthesized, env), ireval.evaluate(want, env)
                if x != y:
                    bad = f"{f.synthesized!r}"
                    break
        if bad:
            c.fail("driver-other", f"{n} reports {bad}; the accepted summary is {want!r}", **d)
            return
        with quiet():
            got = f.codegen(lambda e: e)
        if got is not f.synthesized:
            c.fail("driver-codegen", "codegen gets another expression", **d)
    c.count("driver_delivered")


# ---------------------------------------------------------------- through the LLVM driver
CC = {
    "sumto": """extern "C" int sumto(int n) {
  int s = 0;
  for (int i = 0; i < n; i++) s = s + i;
  return s;
}
""",
    "plus": """extern "C" int plus(int a, int b) { return a + b; }
""",
    "sumto_psx": """extern "C" int sumto_psx(int m) {
  int s = 0;
  for (int i = 0; i < m; i++) s = s + 2;
  return s;
}
""",
    "copy": """#include "list.h"
extern "C" List<int> copy(List<int> in) {
  List<int> out = newList<int>();
  for (int i = 0; i < listLength(in); ++i) out = listAppend(out, listGet(in, i));
  return out;
}
""",
}
LLARGS = {"sumto": ["n"], "plus": ["a", "b"], "sumto_psx": ["m"], "copy": ["in"]}


def compiled():
    """the functions above, compiled with the pass of the working tree"""
    from mon import cgen, llbuild
    d = os.path.join(boot.scratch(), "c09cc")
    if not os.path.isdir(d):
        inc = os.path.join(d, "inc")
        os.makedirs(inc)
        for n, t in (("vector", cgen.VECTOR_H), ("tuple", cgen.TUPLE_H), ("iostream", "")):
            open(os.path.join(inc, n), "w").write(t)
        so = llbuild.build(d)
        for n, t in CC.items():
            open(os.path.join(d, n + ".cc"), "w").write(t)
            llbuild.compile_cc(os.path.join(d, n + ".cc"), so, inc)
    return d


def second(e):
    from metalift import ir
    return e.arguments()[1] if isinstance(e, ir.Call) else e.args[1]


def llvm_case(c, rng, i):
    from collections import defaultdict
    from metalift import ir
    from metalift.frontend.llvm import Driver, InvGrammar
    from metalift.ir import Int, choose
    d = compiled()
    names = rng.choice([["sumto"], ["plus"], ["copy"], ["sumto", "copy"], ["plus", "sumto_psx", "sumto"], ["copy", "plus"], ["sumto_psx", "plus"]])
    dr = Driver()

    def inv(writes, reads, in_scope, relaxed):
        k = choose(Int(0), Int(1), Int(2), Int(3))
        v = [x for x in writes if isinstance(x, Int)]
        return choose(v[0] >= k, v[0] <= k)

    def ps(writes, reads, in_scope, relaxed):
        k = choose(Int(0), Int(1), Int(2), Int(3))
        if isinstance(writes[0], Int):
            return writes[0] == choose(k, reads[0], reads[-1] + 1) + choose(k, reads[0])
        return writes[0] == choose(reads[0], reads[0][k:], reads[0][:k])
    with quiet():
        fs = {n: dr.analyze(os.path.join(d, n + ".ll"), os.path.join(d, n + ".loops"), n, lambda: [], defaultdict(lambda: InvGrammar(inv, [])), ps) for n in names}
        for n in names:
            a = [ir.List(Int, v) if n == "copy" else Int(v) for v in LLARGS[n]]
            dr.add_var_objects(a)
            fs[n](*a)
        synths = [p.gen_synth(False) for p in dr.pred_tracker.predicates.values()]

    def codegen_of(f):
        """(what codegen hands on) or None when it reports that nothing was synthesized"""
        seen = []
        try:
            with quiet():
                f.codegen(lambda e: seen.append(e) or 1)
        except Exception:
            pass
        return seen[0] if seen else None
    early = {n: codegen_of(f) for n, f in fs.items()}
    if any(e is not None for e in early.values()):
        c.fail("llvm-early", f"before any synthesis codegen hands on {early}", functions=names)
        return
    P = Prob()
    P.synths, P.helpers = synths, {}
    code = {ir.Int: "i", ir.Bool: "b"}
    P.sig = {s.name(): ("b", [code.get(a.type, "l") for a in s.arguments()]) for s in synths}
    P.probe = {n: [[irgen.rand_val(rng, a) for a in args] for _ in range(12)] for n, (ret, args) in P.sig.items()}
    S = Script()
    S.queries, S.written = [], []
    cand = candidate(P, rng)
    S.rounds = [("full", sol_text(P, cand, rng), 1.0)]
    how = rng.choices(["accepted", "rejected", "nothing found"], [7, 2, 1])[0]
    S.exit = (1, 0, b"")
    if how == "nothing found":
        S.rounds, S.exit = [("full", "#f\n", 1.0)], (.5, 0, b"")
    S.verdicts = [("unsat\n", 0) if how == "accepted" else (rng.choice(REJECT), 0)]
    S.vtime, S.lag = .5, 1
    os.makedirs("synthesisLogs", exist_ok=True)
    w = fakeproc.World()
    w.programs = [(lambda a: "racket" in os.path.basename(a[0]), racket(w, S, P)), (lambda a: True, verifier(w, S, P))]
    with w:
        kind, res = outcome(lambda: dr.synthesize(filename=f"c09ll{i}"))
    c.case(("llvm-driver", tuple(names), how, kind))
    c.count("llvm_driver_runs")
    info = dict(functions=names, script=S.rounds[0][1], verdicts=S.verdicts, outcome=(kind, repr(res)[:400]))
    if how != "accepted":
        given = {n: codegen_of(f) for n, f in fs.items()}
        if kind != "error" or any(g is not None for g in given.values()) or dr.synthesized_fns:
            c.fail("llvm-unaccepted", f"{how}: the driver {kind}; codegen hands on {given}, synthesized functions {sorted(dr.synthesized_fns)}", **info)
        return
    if kind != "returned":
        c.fail("llvm-lost", f"an accepted solution is not delivered: {type(res).__name__}: {res}", **info)
        return

    def same(got, want, args):
        for _ in range(10):
            env = {a: irgen.rand_val(rng, k) for a, k in args}
            try:
                x = ireval.evaluate(want, env)
            except ireval.Undefined:
                continue
            try:
                y = ireval.evaluate(got, env)
            except ireval.Undefined:
                return False
            if x != y:
                return False
        return True
    if sorted(dr.synthesized_fns) != sorted(cand):
        c.fail("llvm-functions", f"the driver has the definitions of {sorted(dr.synthesized_fns)}, synthesized were {sorted(cand)}", **info)
        return
    for n, f in fs.items():
        g = cand[f"{n}_ps"]
        want = second(g.body())
        args = [(a.args[0], k) for a, k in zip(g.arguments(), P.sig[f"{n}_ps"][1])]
        got = codegen_of(f)
        if got is None or f.synthesized is not got or not same(got, want, args):
            c.fail("llvm-other", f"{n} reports {got!r}; the accepted summary is {want!r}", **info)
            return
        if "copy" == n:
            c.count("llvm_list_delivered")
    if len(names) == 1:
        n = names[0]
        g = cand[f"{n}_ps"]
        with quiet():
            kind, a = outcome(dr.get_actual_ps_fn_decl)
        want = second(g.body())
        args = [(x.args[0], k) for x, k in zip(g.arguments(), P.sig[f"{n}_ps"][1])]
        if kind != "returned":
            c.fail("llvm-actual", f"the summary of {n} as a function: {a}", **info)
        elif [x.args[0] for x in a.arguments()] != [x for x, _ in args[:-1]] or a.return_type() != g.arguments()[-1].type or not same(a.body(), want, args):
            c.fail("llvm-actual", f"the summary of {n} as a function is {a!r}; the accepted summary is {want!r}", **info)
        else:
            c.count("llvm_actual_functions")
    c.count("llvm_delivered")


def run(c):
    os.chdir(boot.scratch())
    c.require("queries_checked", 60)
    c.require("accepted_returned", 20)
    c.require("accepted_in_later_round", 8)
    c.require("search_failed_reported", 10)
    c.require("exclusions_evaluated", 100)
    c.require("driver_delivered", 3)
    for i in range(c.n(260, 4000)):
        if c.out_of_time(200, 3000):
            break
        rosette_case(c, c.rng("ros", i), i)
    for i in range(c.n(120, 2000)):
        if c.out_of_time(260, 3600):
            break
        sygus_case(c, c.rng("syg", i), i)
    for i in range(c.n(60, 400)):
        exclusion_case(c, c.rng("exc", i), i)
    for i in range(c.n(10, 60)):
        driver_case(c, c.rng("drv", i), i)
    c.require("llvm_delivered", 10)
    c.require("llvm_list_delivered", 2)
    c.require("llvm_actual_functions", 2)
    for i in range(c.n(30, 200)):
        llvm_case(c, c.rng("ll", i), i)
    c.assumptions.append("solver processes are replaced by scripts: what a real solver answers is outside this property")


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
