"""Trace monitor for verification conditions.

A program's recorded executions give, for every loop, the set R_inv of states its head was reached
in and, for the function, the set R_ps of (arguments, result).  Interpreting every invariant call
in the conditions as membership in R_inv and every summary call as membership in R_ps:
  completeness: every condition must be true under every assignment of its variables;
  soundness:    after removing one tuple from one of the sets some condition must become false
                under an assignment taken from the very execution that produced the tuple.
Both are decided by evaluating the real conditions with the reference evaluator.
"""
from . import ireval
from .ireval import OutOfFuel, Undefined, same


class Wild:
    def __repr__(self):
        return "*"


WILD = Wild()


def tmatch(pat, tup):
    return len(pat) == len(tup) and all(a is WILD or b is WILD or same(a, b) for a, b in zip(pat, tup))


class Rel:
    """A finite relation; a tuple's wild-card positions match any value."""

    def __init__(self, name):
        self.name = name
        self.tuples = []           # (tuple, run index)
        self._seen = set()
        self._by = {}              # wild-card positions -> set of projected tuples

    @staticmethod
    def _proj(t, w):
        return tuple((type(v).__name__, v) for i, v in enumerate(t) if i not in w)

    def key(self, t):
        w = frozenset(i for i, v in enumerate(t) if v is WILD)
        return (w, self._proj(t, w))

    def add(self, t, run):
        k = self.key(t)
        if (k, run) not in self._seen:
            self._seen.add((k, run))
            self._by.setdefault(k[0], set()).add(k[1])
            self.tuples.append((t, run))

    def has(self, t, dropped=None):
        for w, vals in self._by.items():
            k = self._proj(t, w)
            if k in vals and (w, k) != dropped:
                return True
        return False

    def covered(self, t):
        """another tuple with more wild cards contains t, so that leaving t out changes nothing"""
        w0 = self.key(t)[0]
        return any(w0 < w and self._proj(t, w) in vals for w, vals in self._by.items())


def conjuncts(e):
    k = type(e).__name__
    if k == "And":
        out = []
        for a in e.args:
            out += conjuncts(a)
        return out
    return [e]


def split(e, ante=None):
    """Condition -> (antecedent conjuncts, consequent)."""
    ante = ante or []
    if hasattr(e, "src"):
        e = e.src
    if type(e).__name__ == "Implies":
        return split(e.args[1], ante + conjuncts(e.args[0]))
    return ante, e


def free_vars(e, acc=None, bound=()):
    acc = {} if acc is None else acc
    k = type(e).__name__
    if k == "Var":
        if e.args[0] not in bound:
            acc.setdefault(e.args[0], e.type)
    elif k == "Let":
        free_vars(e.args[1], acc, bound)
        free_vars(e.args[2], acc, bound + (e.args[0].args[0],))
    elif k == "Lambda":
        b = bound + tuple(p.args[0] for p in e.arguments())
        free_vars(e.body(), acc, b)
    else:
        for a in e.args:
            if hasattr(a, "args"):
                free_vars(a, acc, bound)
            elif hasattr(a, "src"):
                free_vars(a.src, acc, bound)
    return acc


def has_call(e, names):
    if type(e).__name__ == "Call" and e.args[0] in names:
        return True
    return any(has_call(a, names) for a in getattr(e, "args", []) if hasattr(a, "args"))


class Lit:
    """A literal of an antecedent: kind 'call' (a relation call), 'or' (a choice between lists of
    literals of which some contains a relation call) or 'hard' (evaluated once its variables are known)."""

    def __init__(self, e, neg, kind, alts=()):
        self.e, self.neg, self.kind, self.alts = e, neg, kind, alts
        self.vars = frozenset(free_vars(e))


def literals(e, names, neg=False):
    """Conjunction of literals equivalent to e (to its negation if neg)."""
    if hasattr(e, "src"):
        e = e.src
    k = type(e).__name__
    if not has_call(e, names):
        if k == ("Or" if neg else "And"):
            return [l for a in e.args for l in literals(a, names, neg)]
        return [Lit(e, neg, "hard")]
    if k == "Not":
        return literals(e.args[0], names, not neg)
    if k == "Call" and e.args[0] in names and not neg:
        return [Lit(e, neg, "call")]
    if k == ("Or" if neg else "And"):
        return [l for a in e.args for l in literals(a, names, neg)]
    if k == ("And" if neg else "Or"):
        return [Lit(e, neg, "or", [literals(a, names, neg) for a in e.args])]
    if k == "Implies":
        a, b = e.args[0], e.args[1]
        if neg:
            return literals(a, names) + literals(b, names, True)
        return [Lit(e, neg, "or", [literals(a, names, True), literals(b, names)])]
    if k == "Ite":
        c, a, b = e.args
        return [Lit(e, neg, "or", [literals(c, names) + literals(a, names, neg),
                                   literals(c, names, True) + literals(b, names, neg)])]
    return [Lit(e, neg, "hard")]


class Cond:
    def __init__(self, expr, relnames):
        ante, self.cons = split(expr)
        self.expr = expr.src if hasattr(expr, "src") else expr
        self.vars = free_vars(self.expr)
        self.lits = [l for a in ante for l in literals(a, relnames)]


class Monitor:
    def __init__(self, asserts, rels, fns, pools, rng, divmod_=None):
        self.rels = rels                # name -> Rel
        self.dropped = None             # (name, key)
        self.fns = dict(fns)
        for n in rels:
            self.fns[n] = self._member(n)
        self.conds = [Cond(a, set(rels)) for a in asserts]
        self.pools = pools
        self.r = rng
        self.nodes = 0
        self.divmod_ = divmod_
        self.gave_up = False            # an evaluation ran out of fuel

    def _member(self, n):
        def m(*t):
            d = self.dropped[1] if self.dropped and self.dropped[0] == n else None
            return self.rels[n].has(t, d)
        return m

    def ev(self, e, env):
        try:
            return ireval.evaluate(e, env, self.fns, fuel=80000, divmod_=self.divmod_)
        except OutOfFuel:
            self.gave_up = True
            raise

    def value(self, ty):
        s = repr(ty)
        for k, p in self.pools.items():
            if k == s and p:
                return self.r.choice(p)
        n = getattr(ty, "__name__", "")
        if n == "Bool":
            return self.r.random() < .5
        if n == "Int":
            return self.r.randint(-2, 4)
        if "Set" in s:
            return frozenset(self.r.randint(-1, 3) for _ in range(self.r.randint(0, 2)))
        return tuple(self.r.randint(-1, 3) for _ in range(self.r.randint(0, 3)))

    def search(self, cond, env, tuples, on_leaf, budget, fill):
        """DFS over ways to satisfy the antecedent.  tuples(name) -> candidate tuples.
        on_leaf(env) -> True to stop.  Returns 'stop', 'done' or 'budget'."""
        self.left = budget

        def holds(l, env):
            try:
                return self.ev(l.e, env) is (not l.neg)
            except Undefined:
                return False

        def rec(todo, env):
            self.left -= 1
            if self.left < 0:
                return "budget"
            rest = []
            for l in todo:
                if l.vars <= env.keys():
                    if not holds(l, env):
                        return "done"
                else:
                    rest.append(l)
            calls = [l for l in rest if l.kind == "call"]
            if calls:
                l = min(calls, key=lambda l: len(l.vars - env.keys()))
                rest = [x for x in rest if x is not l]
                return bind(l.e, rest, env)
            ors = [l for l in rest if l.kind == "or"]
            if ors:
                l = min(ors, key=lambda l: len(l.alts))
                rest = [x for x in rest if x is not l]
                for alt in l.alts:
                    x = rec(rest + alt, env)
                    if x != "done":
                        return x
                return "done"
            missing = [v for v in cond.vars if v not in env]
            for _ in range(fill if missing else 1):
                e2 = dict(env)
                for v in missing:
                    e2[v] = self.value(cond.vars[v])
                if not all(holds(l, e2) for l in rest):
                    continue
                if on_leaf(e2):
                    return "stop"
            return "done"

        def bind(call, rest, env):
            name = call.args[0]
            for t in tuples(name):
                if self.dropped and self.dropped[0] == name and self.rels[name].key(t) == self.dropped[1]:
                    continue
                e2 = dict(env)
                bad = False
                later = False
                for a, v in zip(call.args[1:], t):
                    if v is WILD:
                        continue
                    if type(a).__name__ != "Var":
                        later = True
                        continue
                    n = a.args[0]
                    if n in e2:
                        if not same(e2[n], v):
                            bad = True
                            break
                    else:
                        e2[n] = v
                if bad:
                    continue
                # arguments that are not variables (or are left open by wild cards) are compared once their variables are known
                x = rec(rest + ([Lit(call, False, "hard")] if later else []), e2)
                if x != "done":
                    return x
            return "done"

        return rec(list(cond.lits), dict(env))

    def complete(self, envs, budget, leaves):
        """envs: the arguments of recorded runs.  -> (violations, stats); a violation is (cond, env)."""
        bad = []
        stats = {"leaves": 0, "undef": 0}
        self.dropped = None
        for c, env0 in [(c, e) for e in envs for c in self.conds]:
            cnt = [0]

            def tuples(n):
                ts = [t for t, q in self.rels[n].tuples]
                self.r.shuffle(ts)
                return ts

            def leaf(env):
                cnt[0] += 1
                try:
                    v = self.ev(c.expr, env)
                except Undefined:
                    stats["undef"] += 1
                    return cnt[0] >= leaves
                stats["leaves"] += 1
                if v is not True:
                    bad.append((c, env))
                    return True
                return cnt[0] >= leaves

            self.search(c, env0, tuples, leaf, budget, 3)
            if bad:
                break
        return bad, stats

    def falsifiable(self, drop, run, env, budget):
        """Can some condition be falsified, using only this run's tuples, once `drop` is removed?"""
        self.dropped = drop
        self.gave_up = False
        res = "no"
        try:
            for c in self.conds:
                hit = []

                def tuples(n):
                    return [t for t, r in self.rels[n].tuples if r == run]

                def leaf(e):
                    try:
                        if self.ev(c.expr, e) is False:
                            hit.append(e)
                            return True
                    except Undefined:
                        pass
                    return False

                x = self.search(c, env, tuples, leaf, budget, 8)
                if hit:
                    return "yes"
                if x == "budget" or self.gave_up:
                    res = "budget"
        finally:
            self.dropped = None
        return res
