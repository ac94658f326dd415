"""A small Racket evaluator: enough of #lang rosette for the repository's library files and the
code it emits (define, lambda, let forms, if/cond, match*, parameterize, define-syntax-rule, ...).

Values: int, bool, Python tuple for (proper) lists, str for strings, Python callables for procedures.
Symbolic features (define-symbolic*, choose, solve, verify...) are handled by the checks that need
them through `Rkt.special`.
"""
import os
from .sexp import read_all, read_one, Sym, Str, show, ReadError
from . import boot
from .ireval import Undefined


class RktError(Exception):
    """The text is ill-formed or fails when run."""


class Param:
    def __init__(self, v):
        self.v = v

    def __call__(self):
        return self.v


class Void:
    def __repr__(self):
        return "#<void>"


VOID = Void()


def equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def _i(x):
    if isinstance(x, bool) or not isinstance(x, int):
        raise RktError(f"number expected, got {x!r}")
    return x


def _l(x):
    if not isinstance(x, tuple):
        raise RktError(f"list expected, got {x!r}")
    return x


def _b(x):
    if not isinstance(x, bool):
        raise RktError(f"boolean expected, got {x!r}")
    return x


def _cmp(op):
    def f(*a):
        if not a:
            raise RktError("comparison without operands")
        for x in a:
            _i(x)
        return all(op(x, y) for x, y in zip(a, a[1:]))
    return f


def _sub(*a):
    for x in a:
        _i(x)
    if not a:
        raise RktError("(-)")
    if len(a) == 1:
        return -a[0]
    r = a[0]
    for x in a[1:]:
        r -= x
    return r


def _mul(*a):
    r = 1
    for x in a:
        r *= _i(x)
        if abs(r) > 1 << 2048:
            raise Undefined("overflow guard")
    return r


def _quot(a, b):
    if _i(b) == 0:
        raise RktError("quotient: division by zero")
    q = abs(_i(a)) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


def _rem(a, b):
    return a - b * _quot(a, b)


def _ref(l, i):
    _l(l), _i(i)
    if not 0 <= i < len(l):
        raise RktError("list-ref: index out of range")
    return l[i]


def _ltail(l, i):
    _l(l), _i(i)
    if not 0 <= i <= len(l):
        raise RktError("list-tail: index out of range")
    return l[i:]


def _take(l, i):
    _l(l), _i(i)
    if not 0 <= i <= len(l):
        raise RktError("take: index out of range")
    return l[:i]


def _cons(a, b):
    return (a,) + _l(b)


def _car(l):
    if not _l(l):
        raise RktError("car of empty list")
    return l[0]


def _cdr(l):
    if not _l(l):
        raise RktError("cdr of empty list")
    return l[1:]


def _append(*ls):
    r = ()
    for x in ls:
        r += _l(x)
    return r


def _andf(*a):
    return all([_b(x) for x in a])


def _orf(*a):
    return any([_b(x) for x in a])


def _list_set(l, i, v):
    _ref(l, i)
    return l[:i] + (v,) + l[i + 1:]


PRIM = {
    "+": lambda *a: sum(_i(x) for x in a), "-": _sub, "*": _mul,
    "<": _cmp(lambda a, b: a < b), "<=": _cmp(lambda a, b: a <= b), ">": _cmp(lambda a, b: a > b),
    ">=": _cmp(lambda a, b: a >= b), "=": _cmp(lambda a, b: a == b),
    "quotient": _quot, "remainder": _rem, "modulo": lambda a, b: (_ for _ in ()).throw(RktError("modulo: /0")) if b == 0 else _i(a) % _i(b),
    "equal?": equal, "eq?": equal, "not": lambda x: x is False, "!": lambda x: x is False,
    "&&": _andf, "||": _orf, "=>": lambda a, b: (not _b(a)) or _b(b), "<=>": lambda a, b: _b(a) == _b(b),
    "xor": lambda a, b: _b(a) != _b(b),
    "list": lambda *a: tuple(a), "cons": _cons, "car": _car, "cdr": _cdr, "first": _car, "rest": _cdr,
    "length": lambda l: len(_l(l)), "append": _append, "list-ref": _ref, "list-tail": _ltail, "take": _take,
    "drop": _ltail, "list-set": _list_set, "list?": lambda x: isinstance(x, tuple), "null?": lambda x: x == (),
    "empty?": lambda x: x == (), "reverse": lambda l: _l(l)[::-1], "add1": lambda x: _i(x) + 1, "sub1": lambda x: _i(x) - 1,
    "map": lambda f, *ls: tuple(f(*xs) for xs in zip(*[_l(x) for x in ls])),
    "ormap": lambda f, l: next((r for r in (f(x) for x in _l(l)) if r is not False), False),
    "andmap": lambda f, l: all(f(x) is not False for x in _l(l)),
    "filter": lambda f, l: tuple(x for x in _l(l) if f(x) is not False),
    "foldl": None, "apply": lambda f, *a: f(*a[:-1], *a[-1]),
    "make-parameter": lambda v: Param(v), "void": lambda *a: VOID, "abs": lambda x: abs(_i(x)),
    "min": lambda *a: min(map(_i, a)), "max": lambda *a: max(map(_i, a)), "integer?": lambda x: isinstance(x, int) and not isinstance(x, bool),
    "boolean?": lambda x: isinstance(x, bool), "zero?": lambda x: _i(x) == 0,
    "sort": lambda l, f: _sort(l, f), "remove-duplicates": lambda l: _dedup(l), "even?": lambda x: _i(x) % 2 == 0,
    "odd?": lambda x: _i(x) % 2 == 1, "member": lambda v, l: next((_l(l)[i:] for i, x in enumerate(_l(l)) if equal(x, v)), False),
}
del PRIM["foldl"]


def _sort(l, f):
    import functools
    return tuple(sorted(_l(l), key=functools.cmp_to_key(lambda a, b: -1 if f(a, b) is not False else (1 if f(b, a) is not False else 0))))


def _dedup(l):
    out = []
    for x in _l(l):
        if not any(equal(x, y) for y in out):
            out.append(x)
    return tuple(out)


class Proc:
    def __init__(self, rk, name, params, restp, body, env):
        self.rk, self.name, self.params, self.restp, self.body, self.env = rk, name, params, restp, body, env

    def __call__(self, *args):
        rk = self.rk
        rk.fuel -= 1
        if rk.fuel < 0:
            raise Undefined("fuel")
        n = len(self.params)
        if len(args) < n or (self.restp is None and len(args) > n):
            raise RktError(f"{self.name}: arity mismatch, expects {n}, given {len(args)}")
        env = dict(self.env)
        env.update(zip(self.params, args))
        if self.restp is not None:
            env[self.restp] = tuple(args[n:])
        return rk.body(self.body, env)


class Rkt:
    def __init__(self, fuel=400000):
        self.top = dict(PRIM)
        self.macros = {}
        self.fuel0 = self.fuel = fuel
        self.special = {}          # name -> fn(rk, form, env): extra special forms
        self.log = []

    # -- loading
    def load(self, text):
        lines = text.split("\n")
        text = "\n".join("" if x.startswith("#lang") else x for x in lines)
        for f in read_all(text, racket=True):
            self.toplevel(f)
        return self

    def toplevel(self, f):
        if isinstance(f, list) and f and f[0] in ("require", "provide"):
            return VOID
        if isinstance(f, list) and f and f[0] == "define-syntax-rule":
            pat, tmpl = f[1], f[2:]
            self.macros[str(pat[0])] = (pat[1:], tmpl)
            return VOID
        if isinstance(f, list) and f and isinstance(f[0], Sym) and f[0] in self.macros:
            r = VOID
            for g in self.expand(f):
                r = self.toplevel(g)
            return r
        if isinstance(f, list) and f and f[0] == "define":
            self.define(f, self.top, {})
            return VOID
        self.fuel = self.fuel0
        return self.ev(f, {})

    def define(self, f, target, env):
        if len(f) < 3:
            raise RktError(f"define: {show(f)[:200]}")
        h = f[1]
        if isinstance(h, list):
            ps, restp = self.formals(h[1:])
            target[str(h[0])] = Proc(self, str(h[0]), ps, restp, f[2:], env)
        else:
            if len(f) != 3:
                raise RktError(f"define: {show(f)[:200]}")
            target[str(h)] = self.ev(f[2], env)

    @staticmethod
    def formals(ps):
        ps = [str(p) if isinstance(p, Sym) else (_ for _ in ()).throw(RktError(f"bad parameter {show(p)}")) for p in ps]
        if "." in ps:
            k = ps.index(".")
            if k != len(ps) - 2:
                raise RktError("bad rest parameter")
            if len(set(ps)) != len(ps):
                raise RktError(f"duplicate parameter in {ps}")
            return ps[:k], ps[k + 1]
        if len(set(ps)) != len(ps):
            raise RktError(f"duplicate parameter in {ps}")
        return ps, None

    # -- macros (define-syntax-rule with trailing ellipses)
    def expand(self, f):
        pat, tmpl = self.macros[str(f[0])]
        b = {}
        if not self.pmatch(pat, f[1:], b):
            raise RktError(f"bad use of macro {f[0]}: {show(f)[:200]}")
        return [self.subst(t, b) for t in tmpl if not isinstance(t, Sym) or t != "..."] if not any(
            isinstance(t, Sym) and t == "..." for t in tmpl) else self.subst(list(tmpl), b)

    def pmatch(self, pat, x, b):
        if isinstance(pat, Sym):
            b[str(pat)] = x
            return True
        if not isinstance(x, list):
            return False
        i = 0
        k = 0
        while i < len(pat):
            if i + 1 < len(pat) and pat[i + 1] == "...":
                rest = len(pat) - i - 2
                seq = x[k:len(x) - rest] if rest else x[k:]
                subs = []
                for y in seq:
                    bb = {}
                    if not self.pmatch(pat[i], y, bb):
                        return False
                    subs.append(bb)
                for n in self.pvars(pat[i]):
                    b[n] = ("...", [s[n] for s in subs])
                k += len(seq)
                i += 2
            else:
                if k >= len(x) or not self.pmatch(pat[i], x[k], b):
                    return False
                k += 1
                i += 1
        return k == len(x)

    def pvars(self, p):
        if isinstance(p, Sym):
            return [str(p)]
        return [v for q in p for v in self.pvars(q) if v != "..."]

    def subst(self, t, b):
        if isinstance(t, Sym):
            return b.get(str(t), t) if not isinstance(b.get(str(t)), tuple) else b[str(t)]
        if not isinstance(t, list):
            return t
        out = []
        i = 0
        while i < len(t):
            if i + 1 < len(t) and isinstance(t[i + 1], Sym) and t[i + 1] == "...":
                vs = [v for v in self.pvars(t[i]) if isinstance(b.get(v), tuple)]
                n = len(b[vs[0]][1])
                for k in range(n):
                    out.append(self.subst(t[i], {**b, **{v: b[v][1][k] for v in vs}}))
                i += 2
            else:
                out.append(self.subst(t[i], b))
                i += 1
        return out

    # -- evaluation
    def value(self, form, env=None):
        self.fuel = self.fuel0
        if isinstance(form, str) and not isinstance(form, (Sym, Str)):
            form = read_one(form, racket=True)
        try:
            return self.ev(form, dict(env or {}))
        except RecursionError:
            raise Undefined("recursion")

    def body(self, forms, env):
        r = VOID
        if not forms:
            raise RktError("empty body")
        for f in forms:
            if isinstance(f, list) and f and f[0] == "define":
                self.define(f, env, env)
                r = VOID
            else:
                r = self.ev(f, env)
        return r

    def lookup(self, s, env):
        if s in env:
            return env[s]
        if s in self.top:
            return self.top[s]
        if s in ("#t", "#true", "true"):
            return True
        if s in ("#f", "#false", "false"):
            return False
        try:
            return int(s)
        except ValueError:
            pass
        raise RktError(f"{s}: undefined")

    def ev(self, f, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undefined("fuel")
        if isinstance(f, Str):
            return Str(f)
        if isinstance(f, Sym):
            return self.lookup(str(f), env)
        if not isinstance(f, list):
            return f
        if not f:
            raise RktError("empty application ()")
        h = f[0]
        if isinstance(h, Sym) and str(h) not in env:
            s = str(h)
            if s in self.special:
                return self.special[s](self, f, env)
            if s in self.macros:
                return self.body(self.expand(f), env)
            m = getattr(self, "f_" + FORMS[s], None) if s in FORMS else None
            if m:
                return m(f, env)
        fn = self.ev(h, env)
        args = [self.ev(a, env) for a in f[1:]]
        if not callable(fn):
            raise RktError(f"application: not a procedure: {fn!r} in {show(f)[:200]}")
        if fn is True or isinstance(fn, (int, tuple)):
            raise RktError(f"application: not a procedure: {fn!r}")
        try:
            return fn(*args)
        except TypeError as e:
            raise RktError(f"{show(h)}: {e}")

    def f_if(self, f, env):
        if len(f) != 4:
            raise RktError(f"if: {show(f)[:200]}")
        return self.ev(f[2] if self.ev(f[1], env) is not False else f[3], env)

    def f_cond(self, f, env):
        for cl in f[1:]:
            if cl[0] == "else" or self.ev(cl[0], env) is not False:
                return self.body(cl[1:], dict(env))
        return VOID

    def f_and(self, f, env):
        r = True
        for a in f[1:]:
            r = self.ev(a, env)
            if r is False:
                return False
        return r

    def f_or(self, f, env):
        r = False
        for a in f[1:]:
            r = self.ev(a, env)
            if r is not False:
                return r
        return r

    def f_let(self, f, env):
        if isinstance(f[1], Sym):
            raise RktError("named let unsupported")
        new = {}
        for b in f[1]:
            if not isinstance(b, list) or len(b) != 2:
                raise RktError(f"let: bad binding {show(b)}")
            if str(b[0]) in new:
                raise RktError("let: duplicate identifier")
            new[str(b[0])] = self.ev(b[1], env)
        return self.body(f[2:], {**env, **new})

    def f_letstar(self, f, env):
        env = dict(env)
        for b in f[1]:
            if len(b) != 2:
                raise RktError("let*")
            env = {**env, str(b[0]): self.ev(b[1], env)}
        return self.body(f[2:], env)

    def f_letrec(self, f, env):
        env = dict(env)
        for b in f[1]:
            env[str(b[0])] = self.ev(b[1], env)
        return self.body(f[2:], env)

    def f_lambda(self, f, env):
        if isinstance(f[1], Sym):
            return Proc(self, "lambda", [], str(f[1]), f[2:], env)
        ps, restp = self.formals(f[1])
        return Proc(self, "lambda", ps, restp, f[2:], env)

    def f_begin(self, f, env):
        return self.body(f[1:], env)

    def f_quote(self, f, env):
        def conv(x):
            if isinstance(x, list):
                return tuple(conv(y) for y in x)
            if isinstance(x, Sym):
                try:
                    return int(x)
                except ValueError:
                    return {"#t": True, "#f": False}.get(str(x), Sym(x))
            return x
        return conv(f[1])

    def f_assert(self, f, env):
        if self.ev(f[1], env) is False:
            raise RktError("assertion failed: " + (str(f[2]) if len(f) > 2 else show(f[1])[:200]))
        return VOID

    def f_parameterize(self, f, env):
        saved = []
        for b in f[1]:
            p = self.ev(b[0], env)
            saved.append((p, p.v, self.ev(b[1], env)))
        for p, _, v in saved:
            p.v = v
        try:
            return self.body(f[2:], env)
        finally:
            for p, o, _ in saved:
                p.v = o

    def f_matchstar(self, f, env):
        vals = [self.ev(a, env) for a in f[1]]
        for cl in f[2:]:
            b = {}
            if len(cl[0]) != len(vals):
                raise RktError("match*: wrong number of patterns")
            if all(self.mpat(p, v, b) for p, v in zip(cl[0], vals)):
                return self.body(cl[1:], {**env, **b})
        raise RktError("match*: no clause")

    def mpat(self, p, v, b):
        if isinstance(p, Sym):
            if p == "_":
                return True
            b[str(p)] = v
            return True
        if p and p[0] == "list":
            if not isinstance(v, tuple):
                return False
            ps = p[1:]
            if len(ps) >= 2 and ps[-1] == "...":
                k = len(ps) - 2
                if len(v) < k:
                    return False
                if not isinstance(ps[-2], Sym):
                    raise RktError("match pattern")
                b[str(ps[-2])] = v[k:]
                ps = ps[:k]
                v = v[:k]
            if len(ps) != len(v):
                return False
            return all(self.mpat(q, x, b) for q, x in zip(ps, v))
        raise RktError(f"match pattern {show(p)}")


FORMS = {"if": "if", "cond": "cond", "and": "and", "or": "or", "let": "let", "let*": "letstar", "letrec": "letrec",
         "lambda": "lambda", "λ": "lambda", "begin": "begin", "quote": "quote", "assert": "assert",
         "parameterize": "parameterize", "match*": "matchstar"}


def library():
    r = Rkt()
    d = os.path.join(boot.REPO, "metalift", "utils")
    r.load(open(os.path.join(d, "bounded.rkt")).read())
    r.load(open(os.path.join(d, "utils.rkt")).read())
    return r


def enc(v):
    """reference value -> Racket value"""
    if isinstance(v, frozenset):
        return tuple(sorted(v))
    if isinstance(v, tuple):
        return tuple(enc(x) for x in v)
    return v
