"""Reference semantics of metalift expressions over concrete values.

Values:  int, bool, list -> Python tuple, tuple -> TupV, set -> frozenset, map -> MapV,
function -> Python callable.
Partial operations (index out of range, division by zero, ...) raise Undefined: the oracles
then skip the valuation instead of guessing, since the three target languages differ there.
"""


class Undefined(Exception):
    pass


class OutOfFuel(Undefined):
    """the evaluation was given up, which says nothing about the value"""


class EvalError(Exception):
    """The expression is not well-formed for the reference semantics."""


class TupV(tuple):
    __slots__ = ()

    def __repr__(self):
        return "<" + ", ".join(map(repr, self)) + ">"

    def __eq__(self, o):
        return isinstance(o, TupV) and tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    __hash__ = tuple.__hash__


class MapV(frozenset):
    """A finite map as a frozenset of (key, value) pairs."""
    def as_dict(self):
        return dict(self)


def same(a, b):
    """Value equality that keeps bool and int, list and tuple apart."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return isinstance(a, TupV) == isinstance(b, TupV) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if type(a) is not type(b):
        return False
    return a == b


def _int(x):
    if isinstance(x, bool) or not isinstance(x, int):
        raise EvalError(f"integer expected, got {x!r}")
    return x


def _bool(x):
    if not isinstance(x, bool):
        raise EvalError(f"boolean expected, got {x!r}")
    return x


def _lst(x):
    if not isinstance(x, tuple) or isinstance(x, TupV):
        raise EvalError(f"list expected, got {x!r}")
    return x


def div(a, b):
    """Integer division: specified for a non-negative dividend and positive divisor."""
    _int(a), _int(b)
    if b <= 0 or a < 0:
        raise Undefined("div")
    return a // b


def mod(a, b):
    _int(a), _int(b)
    if b <= 0 or a < 0:
        raise Undefined("mod")
    return a % b


def _idx(l, i, upto):
    _lst(l), _int(i)
    if i < 0 or i > upto:
        raise Undefined("index")
    return i


def get(l, i):
    _lst(l)
    _idx(l, i, len(l) - 1)
    return l[i]


def tail(l, n):
    _idx(l, n, len(_lst(l)))
    return l[n:]


def take(l, n):
    _idx(l, n, len(_lst(l)))
    return l[:n]


def vslice(l, a, b):
    _idx(l, b, len(_lst(l)))
    _idx(l, a, b)
    return l[a:b]


def vslicelen(l, a, n):
    _int(n)
    if n < 0:
        raise Undefined("slice")
    return vslice(l, a, _int(a) + n)


def _rect(m):
    _lst(m)
    for r in m:
        _lst(r)
    if m and any(len(r) != len(m[0]) for r in m):
        raise Undefined("ragged")
    return m


def colslice(m, a, b):
    return tuple(vslice(r, a, b) for r in _lst(m))


def transpose(m):
    _rect(m)
    if not m or not m[0]:
        raise Undefined("transpose of empty")
    return tuple(tuple(r[j] for r in m) for j in range(len(m[0])))


def list_set(l, i, v):
    _idx(l, i, len(_lst(l)) - 1)
    return l[:i] + (v,) + l[i + 1:]


def set_(x):
    if not isinstance(x, frozenset) or isinstance(x, MapV):
        raise EvalError(f"set expected, got {x!r}")
    return x


def _teq(a, b):
    return same(a, b)


BUILTINS = {}


def _reg(names, fn):
    for n in names.split():
        BUILTINS[n] = fn


_reg("list_get matrix_get tensor3d_get", get)
_reg("list_append matrix_append tensor3d_append", lambda l, x: _lst(l) + (x,))
_reg("list_prepend matrix_prepend tensor3d_prepend", lambda x, l: (x,) + _lst(l))
_reg("list_empty matrix_empty tensor3d_empty", lambda: ())
_reg("list_length matrix_length tensor3d_length", lambda l: len(_lst(l)))
_reg("list_tail matrix_tail tensor3d_tail", tail)
_reg("list_take matrix_take tensor3d_take", take)
_reg("vec_slice matrix_row_slice tensor3d_slice", vslice)
_reg("vec_slice_with_length matrix_row_slice_with_length tensor3d_slice_with_length", vslicelen)
_reg("matrix_col_slice", colslice)
_reg("matrix_col_slice_with_length", lambda m, a, n: colslice(m, a, _int(a) + _int(n)))
_reg("matrix_transpose", transpose)
_reg("list_concat", lambda a, b: _lst(a) + _lst(b))
_reg("list_eq", _teq)
_reg("list_set", list_set)
_reg("list_contains", lambda l, x: any(same(y, x) for y in _lst(l)))
_reg("make-tuple", lambda *a: TupV(a))
_reg("set-create", lambda: frozenset())
_reg("set-insert", lambda x, s: set_(s) | {x})
_reg("set-singleton", lambda x: frozenset([x]))
_reg("set-union", lambda a, b: set_(a) | set_(b))
_reg("set-minus", lambda a, b: set_(a) - set_(b))
_reg("set-subset", lambda a, b: set_(a) <= set_(b))
_reg("set-member", lambda x, s: x in set_(s))
_reg("set-eq", lambda a, b: set_(a) == set_(b))


def tupget(t, i):
    if not isinstance(t, TupV):
        raise EvalError(f"tuple expected, got {t!r}")
    if not 0 <= _int(i) < len(t):
        raise EvalError("tuple index")
    return t[i]


BUILTINS["tupleGet"] = tupget


class Ev:
    """Evaluator; fns maps names to Python callables or FnDecl/FnDeclRecursive objects."""

    def __init__(self, fns=None, fuel=20000, builtins=None, divmod_=None):
        self.fns = fns or {}
        self.fuel = fuel
        self.b = BUILTINS if builtins is None else builtins
        self.div, self.mod = divmod_ or (div, mod)

    def call(self, f, args):
        self.fuel -= 1
        if self.fuel < 0:
            raise OutOfFuel("fuel")
        if callable(f) and not hasattr(f, "args"):
            return f(*args)
        params = f.arguments()
        if len(params) != len(args):
            raise EvalError(f"{f.name()} called with {len(args)} args, has {len(params)}")
        return self.ev(f.body(), {p.args[0]: a for p, a in zip(params, args)})

    def ev(self, e, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise OutOfFuel("fuel")
        k = type(e).__name__
        h = getattr(self, "e_" + k, None)
        if h is None:
            if hasattr(e, "src"):
                return self.ev(e.src, env)
            raise EvalError(f"no semantics for {k}")
        return h(e, env)

    # leaves
    def e_Var(self, e, env):
        n = e.args[0]
        if n in env:
            return env[n]
        if n in self.fns:
            f = self.fns[n]
            return f if callable(f) and not hasattr(f, "args") else (lambda *a: self.call(f, a))
        raise EvalError(f"unbound {n}")

    def e_Lit(self, e, env):
        v = e.args[0]
        if isinstance(v, (bool, int)):
            tn = getattr(e.type, "__name__", "")
            if tn == "Int" and isinstance(v, bool):
                return int(v)
            return v
        raise EvalError(f"literal {v!r}")

    def _ints(self, e, env):
        return [_int(self.ev(a, env)) for a in e.args]

    def e_Add(self, e, env):
        return sum(self._ints(e, env))

    def e_Sub(self, e, env):
        v = self._ints(e, env)
        if len(v) == 1:
            return -v[0]
        r = v[0]
        for x in v[1:]:
            r -= x
        return r

    def e_Mul(self, e, env):
        r = 1
        for x in self._ints(e, env):
            r *= x
            if abs(r) > 1 << 512:
                raise Undefined("overflow guard")
        return r

    def e_Div(self, e, env):
        v = self._ints(e, env)
        r = v[0]
        for x in v[1:]:
            r = self.div(r, x)
        return r

    def e_Mod(self, e, env):
        v = self._ints(e, env)
        r = v[0]
        for x in v[1:]:
            r = self.mod(r, x)
        return r

    def e_Eq(self, e, env):
        v = [self.ev(a, env) for a in e.args]
        for x in v[1:]:
            if isinstance(x, bool) != isinstance(v[0], bool) or isinstance(x, tuple) != isinstance(v[0], tuple):
                raise EvalError("Eq on different types")
        return all(same(v[0], x) for x in v[1:])

    def _chain(self, e, env, op):
        v = self._ints(e, env)
        return all(op(a, b) for a, b in zip(v, v[1:]))

    def e_Lt(self, e, env):
        return self._chain(e, env, lambda a, b: a < b)

    def e_Le(self, e, env):
        return self._chain(e, env, lambda a, b: a <= b)

    def e_Gt(self, e, env):
        return self._chain(e, env, lambda a, b: a > b)

    def e_Ge(self, e, env):
        return self._chain(e, env, lambda a, b: a >= b)

    # connectives are total where one operand decides (Kleene), as in SMT
    def _kleene(self, args, env, unit):
        und = None
        r = unit
        for a in args:
            try:
                v = _bool(self.ev(a, env))
            except Undefined as u:
                und = u
                continue
            if v is not unit:
                return not unit
        if und is not None:
            raise und
        return r

    def e_And(self, e, env):
        return self._kleene(e.args, env, True)

    def e_Or(self, e, env):
        return self._kleene(e.args, env, False)

    def e_Not(self, e, env):
        return not _bool(self.ev(e.args[0], env))

    def e_Implies(self, e, env):
        try:
            a = _bool(self.ev(e.args[0], env))
        except Undefined:
            if _bool(self.ev(e.args[1], env)):
                return True
            raise
        return True if not a else _bool(self.ev(e.args[1], env))

    def e_Ite(self, e, env):
        return self.ev(e.args[1] if _bool(self.ev(e.args[0], env)) else e.args[2], env)

    def e_Let(self, e, env):
        v = self.ev(e.args[1], env)
        return self.ev(e.args[2], {**env, e.args[0].args[0]: v})

    def e_TupleExpr(self, e, env):
        return TupV(self.ev(a, env) for a in e.args)

    def e_TupleGet(self, e, env):
        return tupget(self.ev(e.args[0], env), self.ev(e.args[1], env))

    def e_Lambda(self, e, env):
        ps = [p.args[0] for p in e.arguments()]
        return lambda *a: self.ev(e.body(), {**env, **dict(zip(ps, a))})

    def e_FnDecl(self, e, env):
        return lambda *a: self.call(e, a)

    e_FnDeclRecursive = e_FnDecl

    def e_CallValue(self, e, env):
        f = self.ev(e.args[0], env)
        return f(*[self.ev(a, env) for a in e.args[1:]])

    def e_Call(self, e, env):
        n = e.args[0]
        if n == "ite":
            return self.ev(e.args[2] if _bool(self.ev(e.args[1], env)) else e.args[3], env)
        args = [self.ev(a, env) for a in e.args[1:]]
        if n in self.fns:
            return self.call(self.fns[n], args)
        if n in self.b:
            try:
                return self.b[n](*args)
            except TypeError as x:
                raise EvalError(f"{n}: {x}")
        raise EvalError(f"unknown function {n}")

    e_TargetCall = e_Call


def evaluate(e, env=None, fns=None, fuel=20000, **kw):
    try:
        return Ev(fns, fuel, **kw).ev(e, env or {})
    except RecursionError:
        raise Undefined("recursion")


def try_eval(e, env=None, fns=None, fuel=20000, **kw):
    """-> (True, value) or (False, None) when undefined."""
    try:
        return True, evaluate(e, env, fns, fuel, **kw)
    except Undefined:
        return False, None
