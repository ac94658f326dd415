"""Evaluator for the SMT-LIB fragment the repository emits, over concrete values.

Same value domain as ireval (ints, bools, tuples for MLList, TupV, frozensets).  Functions that
the repository's .smt files only declare (list_length, list_append, ...) are given their
standard meaning; functions the files define are evaluated from the text of the files.
Partial applications (head of nil, div by zero, out-of-range list_get, ...) raise Undefined.
"""
import os
from .sexp import read_all, read_one, Sym, show
from .ireval import Undefined, EvalError, TupV, same, get, set_
from . import ireval, boot


class SmtError(Exception):
    """Ill-formed text."""


def _smt_div(a, b):
    if b == 0:
        raise Undefined("div by 0")
    q = abs(a) // abs(b)
    # SMT: remainder is non-negative
    q = a // b if b > 0 else -(a // -b)
    return q


def _smt_mod(a, b):
    if b == 0:
        raise Undefined("mod by 0")
    return a - b * _smt_div(a, b)


def _len(l):
    return len(ireval._lst(l))


def _take(l, n):
    ireval._lst(l)
    return l[:n] if n > 0 else ()


def _get(l, i):
    return get(l, i)


def _int(x):
    return ireval._int(x)


DECLARED = {
    "list_length": _len, "matrix_length": _len,
    "list_append": lambda l, x: ireval._lst(l) + (x,), "matrix_append": lambda l, x: ireval._lst(l) + (x,),
    "list_get_helper": _get, "matrix_get_helper": _get,
    "list_take": _take, "matrix_take": _take,
}


def _chain(op):
    def f(*a):
        if len(a) < 2:
            raise SmtError("relation needs two operands")
        for x in a:
            _int(x)
        return all(op(x, y) for x, y in zip(a, a[1:]))
    return f


def _sub(*a):
    for x in a:
        _int(x)
    if not a:
        raise SmtError("(-)")
    if len(a) == 1:
        return -a[0]
    r = a[0]
    for x in a[1:]:
        r -= x
    return r


def _mul(*a):
    r = 1
    for x in a:
        r *= _int(x)
        if abs(r) > 1 << 2048:
            raise Undefined("overflow guard")
    return r


def _eq(*a):
    if len(a) < 2:
        raise SmtError("= needs two operands")
    for x in a[1:]:
        if isinstance(x, bool) != isinstance(a[0], bool) or isinstance(x, tuple) != isinstance(a[0], tuple) \
                or isinstance(x, frozenset) != isinstance(a[0], frozenset):
            raise SmtError(f"= on different sorts {a!r}")
    return all(same(a[0], x) for x in a[1:])


def _head(l):
    if not ireval._lst(l):
        raise Undefined("head of nil")
    return l[0]


def _tail(l):
    if not ireval._lst(l):
        raise Undefined("tail of nil")
    return l[1:]


def _arity(n, f):
    def g(*a):
        if len(a) != n:
            raise SmtError(f"{f} applied to {len(a)} arguments, takes {n}")
        return f(*a)
    return g


PRIM = {
    "+": lambda *a: sum(_int(x) for x in a), "-": _sub, "*": _mul,
    "div": lambda *a: _smt_div(*map(_int, a)), "mod": lambda *a: _smt_mod(*map(_int, a)),
    "<": _chain(lambda x, y: x < y), "<=": _chain(lambda x, y: x <= y),
    ">": _chain(lambda x, y: x > y), ">=": _chain(lambda x, y: x >= y),
    "=": _eq, "not": lambda x: not ireval._bool(x),
    "cons": lambda h, t: (h,) + ireval._lst(t), "head": _head, "tail": _tail,
    "abs": lambda x: abs(_int(x)),
    "set.insert": lambda *a: set_(a[-1]) | set(a[:-1]), "set.singleton": lambda x: frozenset([x]),
    "set.union": lambda a, b: set_(a) | set_(b), "set.minus": lambda a, b: set_(a) - set_(b),
    "set.inter": lambda a, b: set_(a) & set_(b), "set.subset": lambda a, b: set_(a) <= set_(b),
    "set.member": lambda x, s: x in set_(s), "set.card": lambda s: len(set_(s)),
}
for _n in range(1, 6):
    PRIM[f"tuple{_n}"] = _arity(_n, lambda *a: TupV(a))
    for _k in range(_n):
        def _g(t, _n=_n, _k=_k):
            if not isinstance(t, TupV) or len(t) != _n:
                raise SmtError(f"tuple{_n}_get{_k} applied to {t!r}")
            return t[_k]
        PRIM[f"tuple{_n}_get{_k}"] = _g


class Fn:
    __slots__ = ("name", "params", "sorts", "ret", "body")

    def __init__(self, name, params, sorts, ret, body):
        self.name, self.params, self.sorts, self.ret, self.body = name, params, sorts, ret, body


class Smt:
    """A set of definitions + evaluation of terms."""

    def __init__(self, models=None, fuel=60000):
        self.fns = {}            # name -> Fn | callable
        self.declared = {}       # name -> (sorts, ret)
        self.consts = {}         # declare-const
        self.asserts = []
        self.order = []          # command log (kind, name)
        self.models = dict(DECLARED if models is None else models)
        self.fuel0 = fuel
        self.fuel = fuel

    # -- loading
    def load(self, text):
        for cmd in read_all(text):
            self.command(cmd)
        return self

    def command(self, c):
        if not isinstance(c, list) or not c:
            raise SmtError(f"not a command: {show(c)[:200]}")
        k = c[0]
        if k in ("define-fun", "define-fun-rec"):
            if len(c) != 5:
                raise SmtError(f"{k} with {len(c)} parts: {show(c)[:300]}")
            ps = [(p[0], p[1]) for p in c[2]]
            if len(set(p for p, _ in ps)) != len(ps):
                raise SmtError(f"duplicate parameter in {c[1]}")
            if str(c[1]) in self.fns or str(c[1]) in self.consts:
                raise SmtError(f"{c[1]} defined twice")
            if str(c[1]) in self.declared:
                raise SmtError(f"{c[1]} declared and defined")
            if str(c[1]) in PRIM:
                raise SmtError(f"{c[1]} redefines a builtin")
            self.fns[str(c[1])] = Fn(str(c[1]), [str(p) for p, _ in ps], [s for _, s in ps], c[3], c[4])
            self.order.append((str(k), str(c[1])))
        elif k in ("declare-fun",):
            if len(c) != 4:
                raise SmtError(f"declare-fun: {show(c)[:300]}")
            n = str(c[1])
            if n in self.fns or n in self.declared or n in self.consts:
                raise SmtError(f"{n} declared twice")
            if not c[2]:
                self.consts[n] = c[3]
            else:
                self.declared[n] = (c[2], c[3])
            self.order.append((str(k), n))
        elif k in ("declare-const", "declare-var"):
            n = str(c[1])
            if n in self.fns or n in self.declared or n in self.consts:
                raise SmtError(f"{n} declared twice")
            if len(c) != 3:
                raise SmtError(f"{k}: {show(c)[:300]}")
            self.consts[n] = c[2]
            self.order.append((str(k), n))
        elif k == "assert":
            if len(c) != 2:
                raise SmtError(f"assert: {show(c)[:300]}")
            self.asserts.append(c[1])
            self.order.append(("assert", None))
        elif k in ("declare-datatypes", "define-sort", "set-logic", "set-option", "check-sat", "get-model",
                   "declare-datatype", "set-info", "constraint", "check-synth", "synth-fun", "declare-sort"):
            self.order.append((str(k), str(c[1]) if len(c) > 1 and isinstance(c[1], Sym) else None))
        else:
            raise SmtError(f"unknown command {show(k)}")

    # -- evaluation
    def value(self, term, env=None):
        self.fuel = self.fuel0
        if isinstance(term, str) and not isinstance(term, Sym):
            term = read_one(term)
        try:
            return self.ev(term, env or {})
        except RecursionError:
            raise Undefined("recursion")

    def apply(self, name, args):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undefined("fuel")
        f = self.fns.get(name)
        if f is not None:
            if callable(f):
                return f(*args)
            if len(f.params) != len(args):
                raise SmtError(f"{name} applied to {len(args)} arguments, takes {len(f.params)}")
            return self.ev(f.body, dict(zip(f.params, args)))
        if name in self.models:
            try:
                return self.models[name](*args)
            except TypeError as e:
                raise SmtError(f"{name}: {e}")
        if name in PRIM:
            try:
                return PRIM[name](*args)
            except TypeError as e:
                raise SmtError(f"{name}: {e}")
        raise SmtError(f"unknown function {name}")

    def _kleene(self, args, env, unit):
        und = None
        if not args:
            raise SmtError("connective without operands")
        res = unit
        for a in args:
            try:
                v = ireval._bool(self.ev(a, env))
            except Undefined as u:
                und = u
                continue
            if v is not unit:
                res = not unit
                break
        if res is not unit:
            return res
        if und is not None:
            raise und
        return res

    def ev(self, t, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undefined("fuel")
        if isinstance(t, Sym):
            if t in env:
                return env[t]
            if t == "true":
                return True
            if t == "false":
                return False
            if t.isdigit():
                return int(t)
            if t == "nil":
                return ()
            if t in self.fns:
                return self.apply(str(t), [])
            raise SmtError(f"undeclared symbol {t}")
        if not isinstance(t, list) or not t:
            raise SmtError(f"bad term {show(t)}")
        h = t[0]
        if isinstance(h, list):
            raise SmtError(f"bad head {show(h)}")
        if h == "as":
            if t[1] == "nil":
                return ()
            if t[1] == "set.empty":
                return frozenset()
            raise SmtError(f"as {show(t)}")
        if h == "ite":
            if len(t) != 4:
                raise SmtError(f"ite with {len(t)-1} operands")
            return self.ev(t[2] if ireval._bool(self.ev(t[1], env)) else t[3], env)
        if h == "and":
            return self._kleene(t[1:], env, True)
        if h == "or":
            return self._kleene(t[1:], env, False)
        if h == "=>":
            if len(t) != 3:
                raise SmtError("=>")
            try:
                a = ireval._bool(self.ev(t[1], env))
            except Undefined:
                if self.ev(t[2], env) is True:
                    return True
                raise
            return ireval._bool(self.ev(t[2], env)) if a else True
        if h == "let":
            if len(t) != 3:
                raise SmtError("let")
            new = {}
            for b in t[1]:
                if len(b) != 2:
                    raise SmtError("let binding")
                new[str(b[0])] = self.ev(b[1], env)
            return self.ev(t[2], {**env, **new})
        if str(h) in env:
            f = env[str(h)]
            if callable(f):
                return f(*[self.ev(a, env) for a in t[1:]])
            raise SmtError(f"variable {h} applied")
        return self.apply(str(h), [self.ev(a, env) for a in t[1:]])


LIBS = ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt")
_lib = {}


def library(names=LIBS):
    """Fresh Smt object with the repository's library files loaded."""
    s = Smt()
    for n in names:
        p = os.path.join(boot.REPO, "metalift", "utils", n)
        if n not in _lib:
            _lib[n] = read_all(open(p).read())
        for c in _lib[n]:
            s.command(c)
    return s
