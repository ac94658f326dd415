"""C22: a search space made for a program contains a solution.

Every driver the repository ships for its front ends, its search-space builders applied to its blend benchmarks, and builders
applied to further programs: the front end makes verification condition and grammars as for a real run, up to the call of the
synthesizer, which is replaced by a recorder.  The recorded grammars are enumerated up to their values on the states which the
recorded verification condition itself reaches from concrete inputs (mon/space.py); what is left has to satisfy the verification
condition on fresh inputs, runs and invariant states.  A space none of whose members survives contains no solution.
"""
import sys, os, io, json, time, random, itertools, hashlib, shutil, tempfile, runpy, contextlib, subprocess, traceback, typing
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import boot, harness

PID, LEVEL = "C22", "exploration"
RULE = ("one search space with the verification condition it was made for; non-trivial when states were reached inside the program's "
        "domain and more than one member was compared")

# shipped drivers whose sources, compiled here, reach the synthesizer (the others need headers that are not installed, or are out of step
# with the API and stop before)
DRIVERS = ["llvm/count", "llvm/fma_dsl", "llvm/ite1", "llvm/ite3", "llvm/list_abs_sum", "llvm/tuples1", "llvm/tuples2", "llvm/tuples3",
           "llvm/uninterp", "llvm/vector1", "llvm/while3", "llvm/while4",
           "llvm/tenspiler/darken_blend_8", "llvm/tenspiler/multiply_blend_8", "llvm/tenspiler/rmsnorm_part1", "llvm/tenspiler/rmsnorm_part2",
           "llvm/tenspiler/softmax_part1", "llvm/tenspiler/softmax_part2", "llvm/tenspiler/softmax_part3", "llvm/tenspiler/softmax_part4",
           "python/count", "python/fma1", "python/fma2", "python/ite1", "python/ite2", "python/ite3", "python/list1", "python/list_abs_sum",
           "python/no_loop_matmul", "python/set1", "python/tuples2", "python/tuples3", "python/uninterp", "python/while3", "python/while4"]
BLEND = [("multiply_blend_8", "compute"), ("linear_burn_8", "compute"), ("screen_blend_8", "compute"), ("linear_dodge_8", "compute"),
         ("darken_blend_8", "select"), ("color_burn_8", "select"), ("lighten_blend_8", "select"), ("color_dodge_8", "select"),
         ("overlay_blend_8", "select"), ("dissolve_blend_8", "dissolve"), ("darken_blend_8", "two_args"), ("lighten_blend_8", "two_args")]
LOOPS = """#include <vector>
using namespace std;
vector<vector<int>> %s(vector<vector<int>> base, vector<vector<int>> active%s) {
  vector<vector<int>> out;
  for (int row = 0; row < base.size(); row++) {
    vector<int> row_vec;
    for (int col = 0; col < base[0].size(); col++) {
      %s
      row_vec.push_back(pixel);
    }
    out.push_back(row_vec);
  }
  return out;
}
"""
# (name, builder, arguments, body of the loop)
GENERAL = [
    ("copy_base", "compute", dict(depth=0, int_vars=[]), "int pixel = base[row][col];"),
    ("copy_active", "compute", dict(depth=0, int_vars=[32]), "int pixel = active[row][col];"),
    ("darker", "select", dict(depth=0, cons=[]), "int pixel; if (active[row][col] > base[row][col]) pixel = base[row][col]; else pixel = active[row][col];"),
    ("lighter", "select", dict(depth=0, cons=[7]), "int pixel; if (active[row][col] < base[row][col]) pixel = base[row][col]; else pixel = active[row][col];"),
    ("clip", "select", dict(depth=0, cons=[16]), "int pixel; if (base[row][col] >= 16) pixel = 16; else pixel = active[row][col];"),
    ("clip_up", "select", dict(depth=0, cons=[16, 3]), "int pixel; if (base[row][col] <= 3) pixel = 3; else pixel = active[row][col];"),
    ("mask", "select", dict(depth=0, cons=[0]), "int pixel; if (base[row][col] == 0) pixel = active[row][col]; else pixel = base[row][col];"),
    ("keep", "dissolve", dict(depth=0), "int pixel = base[row][col];"),
    ("fill", "dissolve", dict(depth=0), "int pixel = opacity;"),
]


def rng(*salt):
    h = hashlib.sha256(repr((PID,) + salt).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# ------------------------------------------------------------------ what a run hands to the synthesizer
class Recorder:
    def __init__(self):
        import metalift.synthesize_auto as SA
        from metalift.synthesis_common import SynthesisFailed
        self.got = []

        def stub(*a, **k):
            self.got.append(k)
            raise SynthesisFailed("recorded")
        SA.synthesize = stub
        import metalift.utils.tenspiler.axioms as AX
        sys.modules["tests.llvm.tenspiler.axioms"] = AX

    def run(self, f):
        self.got.clear()
        err = ""
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                f()
            except BaseException:
                err = traceback.format_exc()[-600:]
        return list(self.got), err


def shipped(path):
    return lambda: runpy.run_path(path, run_name="__main__")


def blend(kind, name, ll, loops, hole=None, general=None):
    def go():
        from metalift.frontend.llvm import Driver, InvGrammar
        from metalift.ir import Int, Matrix
        import metalift.utils.tenspiler.tenspiler_common as TC
        d = Driver()
        base, active = Matrix(Int, "base"), Matrix(Int, "active")
        args = [base, active]
        if kind == "dissolve":
            args += [Int("opacity"), Int("rand_cons")]
        if kind == "two_args":
            sel = TC.get_select_synth_from_hole(d, hole)
            cho = TC.choose(base, active)
            sp = (InvGrammar(TC.selection_two_args_inv0_grammar_fn, []), InvGrammar(TC.selection_two_args_inv1_grammar_fn, ["row", "agg.result"]),
                  lambda writes, reads, in_scope, relaxed: writes[0] == TC.call_matrix_selection_two_args(cho, cho, TC.select_two_args_fn_obj),
                  lambda: [TC.select_two_args_fn_decl, TC.selection_two_args_fn_decl, TC.matrix_selection_two_args_fn_decl], [sel])
        elif general is not None:
            g = {k: [Int(x) for x in v] if isinstance(v, list) else v for k, v in general.items()}
            f = {"compute": TC.get_matrix_computation_general_search_space, "select": TC.get_matrix_select_general_search_space,
                 "dissolve": TC.get_dissolve_general_search_space}[kind]
            sp = f(relaxed=False, **g) if kind == "compute" else f(driver=d, relaxed=False, **g)
        elif kind == "compute":
            sp = TC.get_matrix_computation_holing_search_space(hole)
        elif kind == "select":
            sp = TC.get_matrix_select_holing_search_space(d, hole)
        else:
            sp = TC.get_dissolve_holing_search_space(d)
        inv0, inv1, ps, target_lang, synths = sp
        fn = d.analyze(llvm_filepath=ll, loops_filepath=loops, fn_name=name, target_lang_fn=target_lang,
                       inv_grammars={f"{name}_inv0": inv0, f"{name}_inv1": inv1}, ps_grammar=ps)
        d.add_var_objects(args)
        d.add_precondition(base.len() > 1)
        d.add_precondition(base.len() == active.len())
        d.add_precondition(base[0].len() == active[0].len())
        d.add_precondition(base[0].len() > 0)
        d.fns_synths = synths
        fn(*args)
        d.synthesize(filename=name, no_verify=True)
    return go


# ------------------------------------------------------------------ the recorded problem
def opaque(name):
    def f(*a):
        return int.from_bytes(hashlib.sha256(repr((name, a)).encode()).digest()[:2], "big") % 7 - 2
    return f


class Problem:
    def __init__(self, kw):
        from mon import vcmon, ireval, space
        self.vc = kw["vc"]
        self.preds = {s.name(): s for s in kw["loop_and_ps_info"]}
        self.aux = {s.name(): s for s in kw["inv_and_ps"] if s.name() not in self.preds}
        self.fns = {}
        for f in kw["target_lang"]:
            if type(f).__name__ == "Axiom" or f.name() in self.aux:
                continue
            self.fns[f.name()] = f if f.body() is not None else opaque(f.name())
        self.conds = vcmon.conjuncts(self.vc)
        self.ps = [n for n in self.preds if n.endswith("_ps")]
        seen = set()
        for e in [self.vc] + [s.body() for s in kw["inv_and_ps"]] + [f.body() for f in self.fns.values() if hasattr(f, "args")]:
            called(space.raw(e), seen)
        for n in seen - set(self.preds) - set(self.aux) - set(self.fns) - set(ireval.BUILTINS) - {"ite"}:
            self.fns[n] = opaque(n)
        self.vars = {}
        for c in self.conds:
            vcmon.free_vars(c, self.vars)
        self.inputs = {a.args[0] for n in self.ps for a in self.preds[n].arguments()} & set(self.vars)
        self.types = {n: [a.type for a in s.arguments()] for n, s in self.preds.items()}
        self.names = {n: [a.args[0] for a in s.arguments()] for n, s in self.preds.items()}


def called(e, acc, done=None):
    from mon.space import raw, is_expr
    done = set() if done is None else done
    if id(e) in done:
        return
    done.add(id(e))
    if type(e).__name__ == "Call":
        acc.add(e.args[0])
    for a in getattr(e, "args", []):
        if is_expr(a):
            called(raw(a), acc, done)


def value(r, ty, n, m):
    from mon import ireval
    s = repr(ty)
    nm = getattr(ty, "__name__", "")
    if nm == "Int":
        return r.choice([r.randint(0, n), r.randint(-2, 5), r.randint(0, 64), n, m, 32])
    if nm == "Bool":
        return r.random() < .5

    def e():
        return r.choice([r.randint(0, 64), r.randint(-3, 9), 32, r.randint(1, 31), r.randint(1, 31)])
    if "Set" in s:
        return frozenset(r.randint(-1, 3) for _ in range(r.randint(0, 3)))
    if s.count("List") >= 2 or "Matrix" in s:
        return tuple(tuple(e() for _ in range(m)) for _ in range(n))
    if "List" in s:
        return tuple(e() for _ in range(r.choice([n, n, m, n + 1])))
    if "uple" in s:
        args = list(typing.get_args(ty))
        if len(args) == 1:
            args = list(typing.get_args(args[0]))
        return ireval.TupV(value(r, a, n, m) for a in args)
    raise Exception("no values of type " + s)


def runs(p, r, want, tries=400):
    """states reached from concrete inputs: [(inputs, [(predicate, arguments)])]"""
    from mon import space
    ch = space.Chain(p.conds, list(p.preds), p.fns, r)
    out = []
    for _ in range(tries):
        n, m = r.randint(0, 3), r.randint(1, 3)
        k = r.random()
        if k < .3:
            n = m = r.randint(2, 3)
        elif k < .5:
            n, m = 2, r.choice([1, 3, 4])
        env = {v: value(r, t, n, m) for v, t in sorted(p.vars.items()) if v in p.inputs}
        x = ch.run(env)
        if x and any(nm in p.ps for nm, _ in x):
            out.append((env, x))
        if len(out) >= want:
            break
    return out


def as_fn(synth, body, fns):
    from mon import ireval, space
    names = [a.args[0] for a in synth.arguments()]
    memo = {}

    def f(*t):
        k = space.key(t)
        if k not in memo:
            try:
                memo[k] = ireval.evaluate(body, dict(zip(names, t)), fns, fuel=100000)
            except ireval.Undefined:
                memo[k] = space.UNDEF
        if memo[k] is space.UNDEF:
            raise ireval.Undefined(synth.name())
        return memo[k]
    return f


def aux_members(p, r, reached):
    """members of the grammars of helper functions: up to their values on random arguments, or, where the programs map matrices to
    a matrix element by element, those that map the elements"""
    from mon import space
    out, size, cut = {}, 0, False
    for n, sy in p.aux.items():
        m = None
        if len(sy.arguments()) >= 2:
            tables = elements(p, sy, reached)
            if tables:
                found = []
                for t in tables:
                    envs = [dict(zip([a.args[0] for a in sy.arguments()], k)) for k in t]
                    m = space.Members(envs, p.fns)
                    found += m.equal_to(sy.body(), tuple(t.values()))
                    size += m.made
                    cut |= m.truncated
                out[n] = found[:40]
                cut |= len(found) > 40
                continue
        envs = [{a.args[0]: value(r, a.type, 3, 2) for a in sy.arguments()} for _ in range(24)] if sy.arguments() else [{}]
        m = space.Members(envs, p.fns)
        out[n] = [x for _, x in m.of(sy.body()).values()]
        size += len(out[n])
        cut |= len(out[n]) > 60
        out[n] = out[n][:60]
    return out, size, cut


def elements(p, sy, reached):
    """[{arguments: result}] of a function that maps the elements of matrices, one table per order of the matrices"""
    tables = []
    scal = [a.args[0] for a in sy.arguments()][2:]
    for n in p.ps:
        for order in ((0, 1), (1, 0), (0, 0), (1, 1)):
            t, ok = {}, True
            for tup in reached[n]:
                mats = [v for v in tup if isinstance(v, tuple) and v and isinstance(v[0], tuple)]
                if len(mats) < 3 or [len(x) for x in mats[0]] != [len(x) for x in mats[-1]]:
                    ok = False
                    break
                env = dict(zip(p.names[n], tup))
                if any(s not in env for s in scal):
                    ok = False
                    break
                for x, y, o in zip(mats[order[0]], mats[order[1]], mats[-1]):
                    for a, b, c in zip(x, y, o):
                        if t.setdefault((a, b) + tuple(env[s] for s in scal), c) != c:
                            ok = False
            if ok and t:
                tables.append(dict(list(t.items())[:160]))
    return tables


def solve(p, seed, budget):
    """-> dict(found, reason, states, members, tried, leaves)

    Members are told apart by their values on sampled states only, so a first search without a result is followed by one on more states.
    """
    t0 = time.process_time()
    st = dict(states=0, members=0, tried=0, leaves=0, found=None, reason="")
    for k, (want, beside) in enumerate(((14, 40), (50, 120))):
        final = search(p, (seed, k), want, beside, t0 + budget, st)
        if st["found"] or st["reason"] != "none" or final:
            break
    return st


def search(p, seed, want, beside, end, st):
    """-> True when more states cannot bring a member back"""
    from mon import space
    t0, r = time.process_time(), rng("solve", seed)
    sts = runs(p, r, want)
    more = runs(p, rng("runs", seed), 6)
    if len(sts) < 4 or not more:
        st["reason"] = "domain"
        return True
    reached, seen = {n: [] for n in p.preds}, set()
    for env, x in sts + more:
        for n, t in x:
            if (n, space.key(t)) not in seen:
                seen.add((n, space.key(t)))
                reached[n].append(t)
    st["states"] += len(seen)
    if any(not v for v in reached.values()):
        st["reason"] = "unreached"
        return True
    pool = {}
    for n, ts in reached.items():
        for t in ts:
            for ty, v in zip(p.types[n], t):
                pool.setdefault(repr(ty), []).append(v)

    def perturb(n, t):
        t = list(t)
        for i in range(len(t)):
            if r.random() < .35:
                t[i] = r.choice(pool[repr(p.types[n][i])]) if r.random() < .6 else value(r, p.types[n][i], r.randint(0, 3), r.randint(1, 3))
        return tuple(t)
    extra = {n: [perturb(n, r.choice(ts)) for _ in range(beside)] for n, ts in reached.items()}
    table = {n: list(ts) for n, ts in reached.items()}
    if p.aux:
        for env, x in runs(p, rng("table", seed), 40):
            for n, t in x:
                table[n].append(t)
    aux, size, cut = aux_members(p, r, table)
    st["members"] += size
    best, worst, failed = {}, [], []
    for combo in itertools.product(*aux.values()):
        fns = dict(p.fns)
        for n, b in zip(aux, combo):
            fns[n] = as_fn(p.aux[n], b, fns)
        cands = {}
        for n in sorted(p.preds, key=lambda n: (n not in failed[-1:], n not in p.ps, n)):
            envs = [dict(zip(p.names[n], t)) for t in reached[n] + extra[n]]
            m = space.Members(envs, fns)
            cands[n] = m.true_on(p.preds[n].body(), len(reached[n]))
            st["members"] += m.made
            cut |= m.truncated
            best[n] = max(best.get(n, 0), len(cands[n]))
            if not cands[n]:
                failed.append(n)
                break
        if any(not cands.get(n) for n in p.preds):
            if time.process_time() > 2 * end - t0:
                st["reason"] = "budget"
                return True
            continue
        picks = 1
        for v in cands.values():
            picks *= len(v)
        cut |= picks > 300
        for pick in itertools.islice(itertools.product(*cands.values()), 300):
            st["tried"] += 1
            pick = dict(zip(cands, pick))
            bad = refute(p, fns, pick, reached, perturb, more, r, st)
            if bad is None:
                st["found"] = {**{n: str(b)[:300] for n, b in pick.items()}, **{n: str(b)[:300] for n, b in zip(aux, combo)}}
                return True
            if len(worst) < 2:
                worst.append({"members": {n: str(b)[:300] for n, b in pick.items()}, "state": repr(bad)[:600]})
            if time.process_time() > end:
                st["reason"] = "budget"
                return True
        if time.process_time() > end:
            st["reason"] = "budget"
            return True
    none = [n for n, k in {**best, **{n: len(v) for n, v in aux.items()}}.items() if not k]
    st["reason"] = "truncated" if cut and not none else "none"
    st["detail"] = {"spaces without a member true on the reached states": none, "refuted": worst,
                    "example state": {n: repr(dict(zip(p.names[n], reached[n][-1])))[:500] for n in none if n in reached}}
    return bool(none) and not cut and all(not s.arguments() for s in p.aux.values())


def refute(p, fns, pick, reached, perturb, more, r, st):
    """a state at which the verification condition is false, or None"""
    from mon import space, vcmon, ireval
    f = dict(fns)
    for n, b in pick.items():
        f[n] = as_fn(p.preds[n], b, fns)
    tup = {}
    for n, b in pick.items():
        eqs = space.equations(b)
        ts = list(reached[n])
        for _ in range(80 if n not in p.ps else 0):
            env = dict(zip(p.names[n], perturb(n, r.choice(reached[n]))))
            try:
                for v, e in eqs:
                    if v in env and r.random() < .9:
                        env[v] = ireval.evaluate(e, env, fns, fuel=100000)
                t = tuple(env[a] for a in p.names[n])
                if f[n](*t) is True:
                    ts.append(t)
            except ireval.Undefined:
                pass
        r.shuffle(ts)
        tup[n] = ts
    mon = vcmon.Monitor([], {}, f, {}, r)
    for cexpr in p.conds:
        c = vcmon.Cond(cexpr, set(p.preds))
        hit = []

        def leaf(e):
            st["leaves"] += 1
            try:
                if mon.ev(c.expr, e) is False:
                    hit.append(dict(e))
                    return True
            except ireval.Undefined:
                pass
            return False
        if any(l.kind == "call" for l in c.lits):
            mon.search(c, {}, lambda n: tup[n], leaf, 3000, 2)
        if hit:
            return hit[0]
        for env, _ in more:
            mon.search(c, env, lambda n: tup[n], leaf, 1500, 2)
            if hit:
                return hit[0]
    return None


# ------------------------------------------------------------------ builders of bounded expressions
def div(a, b):
    from mon import ireval
    return ireval.div(a, b)


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": div}
EXP, SQRT, MAP = opaque("integer_exp"), opaque("integer_sqrt"), opaque("map_int_to_int")


def deep(f, *v):
    if any(isinstance(x, tuple) for x in v):
        n = {len(x) for x in v if isinstance(x, tuple)}
        assert len(n) == 1
        return tuple(deep(f, *[x[i] if isinstance(x, tuple) else x for x in v]) for i in range(n.pop()))
    return f(*v)


def int_tree(r, d, leaves):
    """-> (text, function of the environment) of an expression of exactly depth d"""
    if d == 0:
        v = r.choice(leaves)
        return v, lambda env: env[v]
    k = r.choice(["add", "sub", "mul", "div", "div", "sub", "exp", "sqrt"])
    a, fa = int_tree(r, d - 1, leaves)
    if k in ("exp", "sqrt"):
        g = EXP if k == "exp" else SQRT
        return f"{k}({a})", lambda env: g(fa(env))
    b, fb = int_tree(r, r.randrange(d), leaves)
    if r.random() < .5:
        a, fa, b, fb = b, fb, a, fa
    return f"{k}({a}, {b})", lambda env: OPS[k](fa(env), fb(env))


def tensor_tree(r, d, leaves, ints, matrix=None):
    """... of vectors (with `matrix` when a matrix may be applied to them) or of matrices; operations on scalars: tensor first or last"""
    if d == 0:
        v = r.choice(leaves)
        return v, lambda env: env[v]
    vec = matrix is not None
    k = r.choice(["elem", "elem", "scalar", "scalar"] + (["map", "matvec"] if vec else []))
    if k in ("map", "matvec"):
        a, fa = tensor_tree(r, d - 1, leaves, ints, matrix)
        if k == "map":
            return f"map({a})", lambda env: deep(MAP, fa(env))
        return f"matvec({a})", lambda env: tuple(sum(x * y for x, y in zip(row, fa(env))) for row in env[matrix])
    o = r.choice(sorted(OPS))
    da, db = d - 1, r.randrange(d)
    if r.random() < .5:
        da, db = db, da
    a, fa = tensor_tree(r, da, leaves, ints, matrix)
    if k == "elem":
        b, fb = tensor_tree(r, db, leaves, ints, matrix)
        return f"{o}({a}, {b})", lambda env: deep(OPS[o], fa(env), fb(env))
    b, fb = int_tree(r, db, ints)
    if r.random() < .5:
        return f"{o}({a}, scalar {b})", lambda env: deep(OPS[o], fa(env), fb(env))
    return f"{o}(scalar {b}, {a})", lambda env: deep(OPS[o], fb(env), fa(env))


def functions():
    import metalift.utils.tenspiler.tenspiler_common as TC
    fns = {f.name(): f for f in vars(TC).values() if type(f).__name__ in ("FnDecl", "FnDeclRecursive") and f.body() is not None}
    return {**fns, "integer_exp": EXP, "integer_sqrt": SQRT, "map_int_to_int": MAP}


class Bounded:
    """which expressions a builder's result expresses"""

    def __init__(self, st):
        self.st, self.fns = st, functions()

    def expects(self, what, grammar, envs, trees, whole=True):
        from mon import space, ireval
        m = space.Members(envs, self.fns, cap=400000)
        grammar = space.raw(grammar)
        members = [vs for vs, _ in m.of(grammar).values()] if whole else None
        for text, f in trees:
            target = []
            for env in envs:
                try:
                    target.append(f(env))
                except ireval.Undefined:
                    target.append(None)
            live = [i for i, t in enumerate(target) if t is not None]
            if len(live) < 3:
                continue
            self.st["targets"] += 1
            if whole:
                ok = any(all(vs[i] is not space.UNDEF and vs[i] == target[i] for i in live) for vs in members)
            else:
                ok = bool(m.equal_to(grammar, tuple(target)))
            if not ok:
                self.st["missing"].append(f"{what} does not express {text}, which is {[target[i] for i in live][:3]} for {[dict(envs[i]) for i in live][:3]}")
        self.st["members"] += m.made


def bounded(seed, thorough):
    import metalift.utils.tenspiler.tenspiler_common as TC
    from metalift.ir import Int, Bool, Matrix, choose
    from metalift.ir import List as mlList
    from mon import space, ireval
    st = dict(members=0, targets=0, missing=[])
    b = Bounded(st)
    r = rng("bounded", seed)
    N = 3 if thorough else 1

    def ints(names, n):
        return [{v: r.randint(1, 40) for v in names} for _ in range(n)]
    p, q = Int("p"), Int("q")
    for d in (0, 1, 2):
        b.expects(f"get_int_expr_eq_or_below_depth(choose(p, q), {d})", TC.get_int_expr_eq_or_below_depth(choose(p, q), d), ints("pq", 8),
                  [int_tree(r, r.randint(0, d), ["p", "q"]) for _ in range(150 * N if d else 4)])
        b.expects(f"get_int_expr_with_depth(choose(p, q), {d}, {{}})", TC.get_int_expr_with_depth(choose(p, q), d, {}), ints("pq", 8),
                  [int_tree(r, d, ["p", "q"]) for _ in range(80 * N if d else 4)])
    b.expects("get_int_expr_eq_or_below_depth(p, 3)", TC.get_int_expr_eq_or_below_depth(p, 3), ints("p", 8),
              [int_tree(r, r.randint(0, 3), ["p"]) for _ in range(40 * N)], whole=False)
    for d in (0, 1):
        trees = []
        for _ in range(60 * N):
            o = r.choice([lambda x, y: x < y, lambda x, y: x <= y, lambda x, y: x == y, lambda x, y: x >= y, lambda x, y: x > y])
            t = [int_tree(r, r.randint(0, d), ["p", "q"]) for _ in range(4)]
            trees.append((f"ite({t[0][0]} ? {t[1][0]}, {t[2][0]}, {t[3][0]})",
                          lambda env, o=o, t=t: t[2][1](env) if o(t[0][1](env), t[1][1](env)) else t[3][1](env)))
        envs = [dict(p=a, q=c) for a in (-3, 1, 2, 5) for c in (-3, 2, 5, 7)]
        b.expects(f"get_cond_expr_eq_or_below_depth(choose(p, q), {d})", TC.get_cond_expr_eq_or_below_depth(choose(p, q), d), envs, trees, whole=False)
    b.expects("get_map_int_to_int_synth()", TC.get_map_int_to_int_synth().body(), [{"int_x": i} for i in range(1, 9)],
              [("exp", lambda env: EXP(env["int_x"])), ("sqrt", lambda env: SQRT(env["int_x"]))])
    b.expects("maybe_relaxed(True)", p.maybe_relaxed(True), ints("p", 4), [(f"p + {k}", lambda env, k=k: env["p"] + k) for k in (-1, 0, 1)])
    b.expects("maybe_relaxed(False)", p.maybe_relaxed(False), ints("p", 4), [("p", lambda env: env["p"])])

    def vec(n):
        return tuple(r.randint(1, 30) for _ in range(n))
    x, y, m, k = mlList(Int, "x"), mlList(Int, "y"), Matrix(Int, "m"), Matrix(Int, "k")
    for d in (0, 1, 2):
        envs = [dict(x=vec(n), y=vec(n), m=tuple(vec(n) for _ in range(n)), p=r.randint(1, 9), q=r.randint(1, 9)) for n in (1, 2, 2, 3)]
        two = d < 2
        names, sc = (["x", "y"], ["p", "q"]) if two else (["x"], ["p"])
        b.expects(f"get_matrix_or_vec_expr_eq_or_below_depth(vector, depth={d})",
                  TC.get_matrix_or_vec_expr_eq_or_below_depth(matrix_or_vec_var=choose(x, y) if two else x, int_var=choose(p, q) if two else p,
                                                              depth=d, additional_matrix=m), envs,
                  [tensor_tree(r, r.randint(0, d), names, sc, "m") for _ in range(150 * N if d else 4)])
        envs = [dict(m=tuple(vec(w) for _ in range(h)), k=tuple(vec(w) for _ in range(h)), p=r.randint(1, 9), q=r.randint(1, 9))
                for h, w in ((1, 1), (1, 2), (2, 1), (2, 2))]
        names, sc = (["m", "k"], ["p", "q"]) if two else (["m"], ["p"])
        b.expects(f"get_matrix_or_vec_expr_eq_or_below_depth(matrix, depth={d})",
                  TC.get_matrix_or_vec_expr_eq_or_below_depth(matrix_or_vec_var=choose(m, k) if two else m, int_var=choose(p, q) if two else p, depth=d),
                  envs, [tensor_tree(r, r.randint(0, d), names, sc) for _ in range(150 * N if d else 4)])
    # deeper ones are built another way: what a step adds to the step before
    envs = [dict(x=vec(n), y=vec(n), p=r.randint(1, 9)) for n in (1, 2, 3)]
    b.expects("get_matrix_or_vec_expr_eq_or_below_depth_with_sym_grammar(vector, depth=1)",
              TC.get_matrix_or_vec_expr_eq_or_below_depth_with_sym_grammar(matrix_or_vec_var=choose(x, y), int_var=p, depth=1, additional_matrix=m),
              [dict(e, m=tuple(vec(len(e["x"])) for _ in e["x"])) for e in envs],
              [tensor_tree(r, r.randint(0, 1), ["x", "y"], ["p"], "m") for _ in range(60 * N)])
    b.expects("get_int_expr_eq_or_below_depth_with_sym_grammar(choose(p, q), 2)", TC.get_int_expr_eq_or_below_depth_with_sym_grammar(choose(p, q), 2),
              ints("pq", 8), [int_tree(r, r.randint(0, 2), ["p", "q"]) for _ in range(80 * N)])
    # choices of one operation
    envs = [dict(x=vec(n), y=vec(n), m=tuple(vec(n) for _ in range(n)), p=r.randint(1, 9)) for n in (1, 2, 3)]
    X, Y, S = (lambda e: e["x"]), (lambda e: e["y"]), (lambda e: e["p"])
    b.expects("vec_vec_to_vec(x, y)", TC.vec_vec_to_vec(x, y), envs, [(f"x {o} y", lambda e, o=o: deep(OPS[o], e["x"], e["y"])) for o in OPS])
    b.expects("scalar_vec_to_vec(p, x)", TC.scalar_vec_to_vec(p, x), envs, [(f"x {o} p", lambda e, o=o: deep(OPS[o], e["x"], e["p"])) for o in OPS] +
              [(f"p {o} x", lambda e, o=o: deep(OPS[o], e["p"], e["x"])) for o in OPS])
    prod = lambda v: 1 if not v else v[0] * prod(v[1:])
    b.expects("vec_to_int(x)", TC.vec_to_int(x), envs, [("sum", lambda e: sum(e["x"])), ("max", lambda e: max(e["x"])), ("product", lambda e: prod(e["x"]))])
    b.expects("vec_to_vec(x)", TC.vec_to_vec(x), envs, [("map", lambda e: deep(MAP, e["x"]))])
    b.expects("matrix_vec_to_vec(m, x)", TC.matrix_vec_to_vec(m, x), envs,
              [("product", lambda e: tuple(sum(a * c for a, c in zip(row, e["x"])) for row in e["m"]))])
    # bounds of loops, with the functions that stand for the choices
    for lo, hi, text in ((0, 1, "for (i = l; i < r; i++)"), (0, 0, "for (i = l; i <= r; i++)"), (1, 0, "for (i = l; i > r; i--)"), (0, 0, "for (i = l; i >= r; i--)")):
        up = "++" in text
        envs = [dict(p=a, q=a + n if up else a - n) for a in (-2, 0, 5) for n in (0, 1, 2, 7)]
        f = "get_lower_bound_fn_body", "get_upper_bound_fn_body"
        t = (lambda e: e["p"], lambda e: e["q"] + (1 if "<=" in text else 0)) if up else \
            (lambda e: e["q"] + (0 if ">=" in text else 1), lambda e: e["p"] + 1)
        for n, g in zip(f, t):
            b.expects(f"{n}({up}, l, r)", getattr(TC, n)(Bool(up), p, q), envs, [(text, g)])
    for n in (1, 2, 3):
        args = [Int(v) for v in ["p", "q", "s"][:n]]
        for pre in (None, "INNER_LOOP"):
            for what, f, body in (("INDEX", TC.get_loop_index_fn, None), ("BOUND", TC.get_loop_bound_fn, choose(*args))):
                kw = {} if pre is None else {"prefix": pre}
                decl, sy, call = f(args, **kw) if body is None else f(args, body, **kw)
                names = [a.args[0] for a in sy.arguments()]
                turned = args[1:] + args[:1]
                envs = [{v: r.randint(-9, 9) for v in "pqs"} for _ in range(6)]
                for i, v in enumerate("pqs"[:n]):
                    # some member, called with other arguments, is each of the arguments
                    found = False
                    inner = [dict(zip(names, [e[a.var_name()] for a in turned])) for e in envs]
                    for mem in space.Members(inner, {}).equal_to(sy.body(), tuple(e[v] for e in envs)):
                        g = {sy.name(): as_fn(sy, mem, {})}
                        found = found or all(ireval.evaluate(space.raw(call(*turned)), e, g) == e[v] for e in envs)
                    st["targets"] += 1
                    if not found or decl.name() != sy.name() or [str(a) for a in decl.arguments()] != [str(a) for a in sy.arguments()]:
                        st["missing"].append(f"{f.__name__}({[str(a) for a in args]}, prefix={pre}): no member called with {[str(a) for a in turned]} is {v}")
    decl, sy, call = TC.get_no_arg_bool_fn("FLAG")
    for want in (True, False):
        st["targets"] += 1
        mems = space.Members([{}], {}).equal_to(sy.body(), (want,))
        if not mems or decl.name() != sy.name() or ireval.evaluate(space.raw(call()), {}, {sy.name(): as_fn(sy, mems[0], {})}) is not want:
            st["missing"].append(f"get_no_arg_bool_fn: no member is {want}")
    return st


# ------------------------------------------------------------------ one job per process
def job(spec):
    boot.boot()
    os.chdir(spec["wd"])
    sys.path.insert(0, spec["wd"])
    from mon import space, ireval
    if spec["what"] == "bounded":
        return {"outcome": "bounded", **bounded(spec["seed"], spec["thorough"])}
    rec = Recorder()
    what = spec["what"]
    if what == "shipped":
        got, err = rec.run(shipped(f"tests/{spec['name']}_driver.py"))
    elif what == "blend":
        import metalift.utils.tenspiler.tenspiler_common as TC
        hole = getattr(TC, spec["name"] + "_hole_body")
        stem = os.path.join(boot.REPO, "benchmarks/blend/cpp", spec["name"])
        got, err = rec.run(blend(spec["kind"], spec["name"], stem + ".ll", stem + ".loops", hole))
    else:
        stem = spec["stem"]
        got, err = rec.run(blend(spec["kind"], spec["name"], stem + ".ll", stem + ".loops", general=spec["general"]))
    if not got:
        return {"outcome": "stopped", "error": err}
    res = []
    for kw in got:
        try:
            res.append(solve(Problem(kw), (spec["seed"], spec["name"]), spec["budget"]))
        except space.TooBig as e:
            res.append(dict(states=0, members=0, tried=0, leaves=0, found=None, reason=f"too big {e}"))
    return {"outcome": "decided", "results": res}


def jobs(c, wd):
    out = []
    b = c.n(60, 400)
    for rep in range(c.n(1, 4)):
        s = c.seed * 100 + rep
        out.append(dict(what="bounded", name="builders", seed=s, budget=b * 3, thorough=c.thorough))
        for n, k in sorted(BLEND, key=lambda x: x[0] not in ("dissolve_blend_8", "overlay_blend_8")):
            out.append(dict(what="blend", name=n, kind=k, seed=s, budget=b))
        for n, k, a, _ in sorted(GENERAL, key=lambda x: x[1] != "select"):
            out.append(dict(what="general", name=n, kind=k, general=a, seed=s, budget=b, stem=os.path.join(wd, n)))
        for n in DRIVERS:
            out.append(dict(what="shipped", name=n, seed=s, budget=b))
    for i, j in enumerate(out):
        j["wd"] = wd
        j["out"] = os.path.join(wd, f"result{i}.json")
    return out


def run(c):
    wd = tempfile.mkdtemp(prefix="c22-")
    try:
        go(c, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def go(c, wd):
    from mon import cgen, llbuild
    inc = os.path.join(wd, "inc")
    os.makedirs(inc)
    for n, t in (("vector", cgen.VECTOR_H), ("tuple", cgen.TUPLE_H), ("iostream", "")):
        open(os.path.join(inc, n), "w").write(t)
    so = llbuild.build(wd)
    shutil.copytree(os.path.join(boot.REPO, "tests"), os.path.join(wd, "tests"), ignore=shutil.ignore_patterns("__pycache__"))
    src = []
    for n in DRIVERS:
        if n.startswith("llvm"):
            stem = os.path.join(wd, "tests", n)
            src.append(stem + ".cc" if os.path.exists(stem + ".cc") else stem + ".c")
    for n, k, _, body in GENERAL:
        f = os.path.join(wd, n + ".cc")
        open(f, "w").write(LOOPS % (n, ", int opacity, int rand_cons" if k == "dissolve" else "", body))
        src.append(f)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda f: llbuild.compile_cc(f, so, inc), src))
    todo = [j for j in jobs(c, wd) if os.environ.get("C22_ONLY", "") in f"{j['what']} {j['name']}"]

    def one(j):
        f = j["out"] + ".job"
        json.dump(j, open(f, "w"))
        try:
            q = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), "--job", f], capture_output=True, text=True,
                               timeout=j["budget"] * 4, env={**os.environ, "PYTHONHASHSEED": "0"})
        except subprocess.TimeoutExpired:
            return j, None, "timeout"
        try:
            return j, json.load(open(j["out"])), ""
        except Exception:
            return j, None, (q.stdout + q.stderr)[-800:]
    with ThreadPoolExecutor(8) as ex:
        for j, res, err in ex.map(one, todo):
            judge(c, j, res, err)
    c.require("spaces_with_a_solution", len(todo) * 2 // 3)
    c.require("states", 400)


def judge(c, j, res, err):
    name = f"{j['what']} {j['name']}" + (f" {j['general']}" if "general" in j else "")
    c.case((j["what"], j["name"], j.get("kind"), j["seed"]))
    if os.environ.get("C22_SHOW"):
        print(name, res or err)
    if res is None:
        if err == "timeout":
            c.count("timeouts")
            return
        raise RuntimeError(name + "\n" + err)
    if res["outcome"] == "bounded":
        c.count("members", res["members"])
        c.count("expected_members", res["targets"])
        c.require("expected_members", 800)
        c.nontrivial(name)
        for m in res["missing"]:
            c.fail("not-expressed " + m.split(" ")[0].split("(")[0], m, job=j)
        return
    if res["outcome"] == "stopped":
        c.fail("no-space", f"{name}: no search space is made: {res['error']}", job=j)
        return
    rs = res["results"]
    for x in rs:
        for k in ("states", "members", "tried", "leaves"):
            c.count(k, x[k])
    if any(x["found"] for x in rs):
        c.count("spaces_with_a_solution")
        c.nontrivial((j["what"], j["name"], j.get("kind")))
        c.sample({name: next(x["found"] for x in rs if x["found"])}, 4)
    elif any(x["reason"] not in ("none",) for x in rs):
        c.count("undecided")
        c.count("undecided: " + next(x["reason"] for x in rs if x["reason"] != "none").split()[0])
    else:
        c.fail("no-solution", f"{name}: no member of the search space is a solution: {json.dumps(rs[-1]['detail'])[:1200]}", job=j, results=rs)


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--job":
        spec = json.load(open(sys.argv[2]))
        r = job(spec)
        json.dump(r, open(spec["out"], "w"))
        sys.stdout.flush()
        harness._clean()
        os._exit(0)
    harness.main(PID, LEVEL, RULE, run)
