"""Does a search space contain a solution?  Decided on recorded states by enumerating what the grammars can express.

The members of a grammar are enumerated bottom-up; members that have the same values on the recorded states are the same.
The states are those the verification condition itself reaches from concrete inputs (forward chaining: whatever holds of an
antecedent's tuples has to hold of the tuple in the consequent), so that a member that is false on one of them is no solution.
"""
import copy, itertools
from . import ireval, vcmon
from .ireval import Undefined, EvalError


class TooBig(Exception):
    pass


UNDEF = ("undefined",)


class Env(dict):
    """Variables with an undefined value"""

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if v is UNDEF:
            raise Undefined(k)
        return v


def is_expr(a):
    return hasattr(a, "args") or hasattr(a, "src")


def raw(a):
    return a.src if hasattr(a, "src") else a


def kind(e):
    return type(e).__name__


def has_choice(e):
    e = raw(e)
    return kind(e) == "Choose" or any(has_choice(a) for a in getattr(e, "args", []) if is_expr(a))


def calls(e, acc=None):
    acc = set() if acc is None else acc
    e = raw(e)
    if kind(e) == "Call":
        acc.add(e.args[0])
    if kind(e) == "Var":
        acc.add(e.args[0])
    for a in getattr(e, "args", []):
        if is_expr(a):
            calls(a, acc)
    return acc


def clone(e, args):
    n = copy.copy(e)
    n.args = list(args)
    return n


class Hole:
    """stands for an argument whose value is in the environment"""

    def __init__(self, name):
        self.args = [name]


Hole.__name__ = "Var"


def key(v):
    if callable(v):
        return ("fn", id(v))
    if isinstance(v, tuple):
        return (type(v).__name__,) + tuple(key(x) for x in v)
    return (type(v).__name__, v)


class Members:
    """The members of grammars over fixed states, up to their values on these states."""

    def __init__(self, envs, fns, cap=60000):
        self.envs, self.fns, self.cap, self.memo, self.made = [Env(e) for e in envs], fns, cap, {}, 0
        self.truncated = False      # members that were found have been left out

    def ev(self, e, env):
        try:
            return ireval.evaluate(e, env, self.fns, fuel=100000)
        except Undefined:
            return UNDEF
        except EvalError as x:
            if "unbound" not in str(x):
                raise
            return UNDEF        # a variable that is no parameter of what the grammar is for: no value can be relied on

    def of(self, e):
        """-> {key of the values: (values, member)}"""
        e = raw(e)
        if id(e) in self.memo:
            return self.memo[id(e)][1]
        if not has_choice(e):
            vs = [self.ev(e, env) for env in self.envs]
            out = {key(tuple(vs)): (vs, e)}
        elif kind(e) == "Choose":
            out = {}
            for a in e.args:
                for k, v in self.of(a).items():
                    out.setdefault(k, v)
        else:
            out = {}
            parts = [list(self.of(a).values()) if is_expr(a) else None for a in e.args]
            shell = clone(e, [Hole(f"${i}") if p is not None else a for i, (a, p) in enumerate(zip(e.args, parts))])
            idx = [i for i, p in enumerate(parts) if p is not None]
            n = 1
            for i in idx:
                n *= len(parts[i])
            if n > self.cap:
                raise TooBig(n)
            cache = {}
            for combo in itertools.product(*[parts[i] for i in idx]):
                vs = []
                for j in range(len(self.envs)):
                    t = tuple(c[0][j] for c in combo)
                    kt = key(t)
                    if kt not in cache:
                        cache[kt] = self.ev(shell, Env({f"${i}": v for i, v in zip(idx, t)}))
                    vs.append(cache[kt])
                k = key(tuple(vs))
                self.made += 1
                if k not in out:
                    args = list(e.args)
                    for i, c in zip(idx, combo):
                        args[i] = c[1]
                    out[k] = (vs, clone(e, args))
        self.memo[id(e)] = (e, out)
        return out

    def true_on(self, e, must, limit=200):
        """members that are true on the first `must` states, a conjunction decided conjunct by conjunct -> list of members"""
        e = raw(e)
        if kind(e) == "Choose":
            out = []
            for a in e.args:
                out += self.true_on(a, must, limit)
            return out
        if kind(e) == "And" and has_choice(e):
            parts = [self.true_on(a, must, limit) for a in e.args]
            if not all(parts):
                return []
            n = 1
            for x in parts:
                n *= len(x)
            self.truncated |= n > limit
            return [clone(e, c) for c in itertools.islice(itertools.product(*parts), limit)]
        if (kind(e) == "Eq" or kind(e) == "Call" and e.args[0] == "list_eq") and has_choice(e):
            out, (a, b) = [], [raw(x) for x in e.args[-2:]]
            few, many, turned = (a, b, False) if not has_choice(a) else (b, a, True) if not has_choice(b) else (None, None, None)
            if few is not None:
                (vs, f), = self.of(few).values()
                if any(v is UNDEF for v in vs[:must]):
                    return []
                for m in self.equal_to(many, tuple(vs[:must]) + (None,) * (len(self.envs) - must)):
                    out.append(clone(e, list(e.args[:-2]) + ([m, f] if turned else [f, m])))
                return out
        return [m for vs, m in self.of(e).values() if all(v is True for v in vs[:must])]

    def equal_to(self, e, target):
        """members with the given values where these are not None -> list of members"""
        e = raw(e)
        live = [i for i, t in enumerate(target) if t is not None]
        if kind(e) == "Choose":
            return [m for a in e.args for m in self.equal_to(a, target)]
        if kind(e) == "Ite" and has_choice(e):
            out, memo = [], {}
            for cvs, c in self.of(e.args[0]).values():
                if any(cvs[i] is UNDEF for i in live):
                    continue
                ta = tuple(t if t is not None and cvs[i] is True else None for i, t in enumerate(target))
                tb = tuple(t if t is not None and cvs[i] is False else None for i, t in enumerate(target))
                for k, (a, t) in (("a", (e.args[1], ta)), ("b", (e.args[2], tb))):
                    if (k, t) not in memo:
                        memo[k, t] = self.equal_to(a, t)
                self.truncated |= len(memo["a", ta]) > 3 and bool(memo["b", tb]) or len(memo["b", tb]) > 3 and bool(memo["a", ta])
                for a in memo["a", ta][:3]:
                    for b in memo["b", tb][:3]:
                        out.append(clone(e, [c, a, b]))
            return out
        if kind(e) in ("Add", "Sub") and len(e.args) == 2 and all(has_choice(a) for a in e.args):
            left, right = self.of(e.args[0]), self.of(e.args[1])
            if len(left) * len(right) > 2000:      # meet in the middle
                table, out = {}, []
                for vs, m in right.values():
                    if not any(vs[i] is UNDEF for i in live):
                        table.setdefault(key(tuple(vs[i] for i in live)), m)
                for vs, m in left.values():
                    if any(vs[i] is UNDEF for i in live):
                        continue
                    k = key(tuple(target[i] - vs[i] if kind(e) == "Add" else vs[i] - target[i] for i in live))
                    if k in table:
                        out.append(clone(e, [m, table[k]]))
                return out
        idx = [i for i, a in enumerate(e.args) if is_expr(a) and has_choice(a)]
        if len(idx) == 2 and kind(e) not in ("Ite", "Eq"):
            return self.pairs(e, idx, target, live)
        return [m for vs, m in self.of(e).values() if all(ireval.same(vs[i], target[i]) for i in live if vs[i] is not UNDEF) and
                not any(vs[i] is UNDEF for i in live)]

    def pairs(self, e, idx, target, live, limit=60):
        """members of an expression with two operands that have choices: per state, which pairs of their values give the target"""
        left, right = [[p for p in self.of(e.args[i]).values() if not any(p[0][j] is UNDEF for j in live)] for i in idx]
        shell = clone(e, [Hole(f"${i}") if i in idx else a for i, a in enumerate(e.args)])
        good = []                      # per state: value on the left -> mask of the members on the right
        for j in live:
            classes = {}
            for n, (vs, _) in enumerate(right):
                v, mask = classes.get(key(vs[j]), (vs[j], 0))
                classes[key(vs[j])] = (v, mask | 1 << n)
            table = {}
            for vs, _ in left:
                k = key(vs[j])
                if k in table:
                    continue
                ok = 0
                for v, mask in classes.values():
                    env = Env(self.envs[j])
                    env[f"${idx[0]}"], env[f"${idx[1]}"] = vs[j], v
                    self.made += 1
                    got = self.ev(shell, env)
                    if got is not UNDEF and ireval.same(got, target[j]):
                        ok |= mask
                table[k] = ok
            good.append(table)
        out = []
        for vs, m in left:
            mask = (1 << len(right)) - 1
            for j, table in zip(live, good):
                mask &= table[key(vs[j])]
                if not mask:
                    break
            self.truncated |= len(out) >= limit and bool(mask)
            while mask and len(out) < limit:
                n = (mask & -mask).bit_length() - 1
                mask &= mask - 1
                args = list(e.args)
                args[idx[0]], args[idx[1]] = m, right[n][1]
                out.append(clone(e, args))
        return out


# ------------------------------------------------------------------ states
class Chain:
    """Forward chaining over verification conditions."""

    def __init__(self, conds, names, fns, rng):
        self.names, self.fns = names, fns
        self.rec, self.sets = None, {}
        f = dict(fns)
        for n in names:
            f[n] = self._fn(n)
        self.mon = vcmon.Monitor([], {}, f, {}, rng)
        self.conds = [vcmon.Cond(a, set(names)) for a in conds]

    def _fn(self, n):
        def m(*t):
            if self.rec is not None:
                self.rec.append((n, t))
                return True
            return key(t) in self.sets[n]
        return m

    def run(self, env, limit=60):
        """-> [(name, tuple)] reached from the inputs, or None when they are outside the domain"""
        self.sets = {n: {} for n in self.names}
        todo = True
        while todo:
            todo = False
            for c in self.conds:
                new = []

                def leaf(e):
                    self.rec = []
                    try:
                        self.mon.ev(c.cons, e)
                        new.extend(self.rec)
                    except Undefined:
                        self.bad = True
                    self.rec = None
                    return False
                self.bad = False
                self.mon.search(c, env, lambda n: [t for t in self.sets[n].values()], leaf, 4000, 1)
                if self.bad:
                    return None
                for n, t in new:
                    if key(t) not in self.sets[n]:
                        self.sets[n][key(t)] = t
                        todo = True
            if sum(len(s) for s in self.sets.values()) > limit:
                return None
        return [(n, t) for n in self.names for t in self.sets[n].values()]


def equations(e, acc=None):
    """conjuncts `variable == expression` of a formula"""
    acc = [] if acc is None else acc
    e = raw(e)
    if kind(e) == "And":
        for a in e.args:
            equations(a, acc)
    elif kind(e) == "Eq" or kind(e) == "Call" and e.args[0] == "list_eq":
        a, b = [raw(x) for x in e.args[-2:]]
        if kind(a) == "Var":
            acc.append((a.args[0], b))
        if kind(b) == "Var":
            acc.append((b.args[0], a))
    return acc
