"""Sorts of expressions, as far as they can be told without the declarations of library functions."""
from typing import get_args, get_origin


class Ill(Exception):
    pass


def sort(t):
    o = get_origin(t) or t
    n, a = getattr(o, "__name__", str(o)), [sort(x) for x in get_args(t) if not isinstance(x, tuple)]
    if n == "Tuple" and not a:
        return None
    if n == "tuple":                        # component types
        return "(" + " ".join(x or "?" for x in a) + ")"
    if n == "Matrix":
        return f"List[List[{a[0] if a else '?'}]]"
    if n == "Tensor3D":
        return f"List[List[List[{a[0] if a else '?'}]]]"
    return f"{n}[{' '.join(x or '?' for x in a)}]" if a else n


def agree(a, b):
    return a is None or b is None or "?" in a + b or a == b


INT = {"Add": "Int", "Sub": "Int", "Mul": "Int", "Div": "Int", "Mod": "Int", "Lt": "Bool", "Le": "Bool", "Gt": "Bool", "Ge": "Bool"}


def check(e, preds, seen=None):
    """sort of e; preds: name -> sorts of the arguments.  Shared subexpressions are visited once."""
    seen = {} if seen is None else seen
    if hasattr(e, "src"):
        e = e.src
    if id(e) in seen:
        return seen[id(e)][0]
    k = type(e).__name__
    sub = lambda x: check(x, preds, seen)

    def want(xs, s):
        for x in xs:
            t = sub(x)
            if not agree(t, s):
                raise Ill(f"{repr(x)[:200]} has the sort {t} where {s} is needed, in {repr(e)[:300]}")
    r = None
    if k == "Var":
        r = sort(e.type)
    elif k == "Lit":
        r = "Bool" if isinstance(e.args[0], bool) else "Int" if isinstance(e.args[0], int) else None
        if not agree(r, sort(e.type)):
            raise Ill(f"the literal {e.args[0]!r} has the type {sort(e.type)}")
    elif k in INT:
        want(e.args, "Int")
        r = INT[k]
    elif k in ("And", "Or", "Not", "Implies"):
        want(e.args, "Bool")
        r = "Bool"
    elif k == "Eq":
        want(e.args[1:], sub(e.args[0]))
        r = "Bool"
    elif k == "Ite":
        want(e.args[:1], "Bool")
        r = sub(e.args[1])
        want(e.args[2:], r)
    elif k in ("Call", "TargetCall"):
        ts = [sub(a) for a in e.args[1:] if hasattr(a, "args") or hasattr(a, "src")]
        r = sort(e.type)
        p = preds.get(e.args[0])
        if p is not None:
            r = "Bool"
            if len(p) != len(e.args) - 1:
                raise Ill(f"{e.args[0]} is called with {len(e.args) - 1} arguments instead of {len(p)}: {repr(e)[:300]}")
            for x, t, s in zip(e.args[1:], ts, p):
                if not agree(t, s):
                    raise Ill(f"the argument {repr(x)[:200]} of {e.args[0]} has the sort {t}, declared {s}")
    elif k == "Let":
        for a in e.args:
            sub(a)
        r = sub(e.args[2])
    else:
        for a in e.args:
            if hasattr(a, "args") or hasattr(a, "src"):
                sub(a)
        try:
            r = sort(e.type)
        except Exception:
            r = None
    seen[id(e)] = (r, e)
    return r
