"""C14: the tensor target language computes the tensor operations it names.

Monitor: every operation is executed on random well-shaped tensors in up to four realisations
(its defining equations in the IR, the rendered SMT definition, the rendered Rosette definition and
the SMT / Rosette library counterpart) and compared with an independent tensor implementation
below.  Search-space builders are instantiated; every alternative of every choice is type-checked
against the declared signatures and random members are evaluated with a per-node type monitor.
"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, boot, ireval, smteval, rkteval, sexp
from mon.ireval import Undefined, EvalError

PID = "C14"
LEVEL = "monitored: differential execution of every operation and random grammar members"
RULE = "an execution counts as non-trivial when the tensors are non-empty and the value was compared with the reference"


# ---------------------------------------------------------------- reference tensor operations
def ew(f):
    def g(a, b):
        if isinstance(a, tuple):
            return tuple(g(x, y) for x, y in zip(a, b))
        return f(a, b)
    return g


def sc(f):
    def g(s, a):
        if isinstance(a, tuple):
            return tuple(g(s, x) for x in a)
        return f(s, a)
    return g


def prod(v):
    r = 1
    for x in v:
        r *= x
    return r


OPS = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x // y}


def bumped(f):
    """value transformer used as the user function"""
    return f


SEL = lambda a, b: (a * 2 - b) if a > b else (b + 1)
DIS = lambda a, b, o, r: (a - b + o) if a > r else (b * 2 - o)
MAP = lambda a: a * a - 3


def transpose(m):
    return tuple(tuple(r[j] for r in m) for j in range(len(m[0]))) if m else ()


# name -> (shape pattern, reference)
REF = {
    "reduce_sum": ("v", sum), "reduce_mul": ("v", prod), "reduce_max": ("v1", max),
    "matrix_vec_mul": ("mv", lambda m, v: tuple(sum(x * y for x, y in zip(r, v)) for r in m)),
    "ite_int": ("bii", lambda c, x, y: x if c else y),
    "vec_map": ("vF", lambda v: tuple(MAP(x) for x in v)),
    "selection_two_args": ("vvS", ew(SEL)), "matrix_selection_two_args": ("mmS", ew(SEL)),
    "dissolve_selection_two_args": ("vviiD", lambda a, b, o, r: ew(lambda x, y: DIS(x, y, o, r))(a, b)),
    "dissolve_matrix_selection_two_args": ("mmiiD", lambda a, b, o, r: ew(lambda x, y: DIS(x, y, o, r))(a, b)),
    "vec_slice": ("vse", lambda v, s, e: v[s:e]), "vec_slice_with_length": ("vsn", lambda v, s, n: v[s:s + n]),
    "matrix_row_slice": ("mse", lambda m, s, e: m[s:e]), "matrix_row_slice_with_length": ("msn", lambda m, s, n: m[s:s + n]),
    "matrix_col_slice": ("mcd", lambda m, s, e: tuple(r[s:e] for r in m)),
    "matrix_col_slice_with_length": ("mcn", lambda m, s, n: tuple(r[s:s + n] for r in m)),
    "firsts": ("m1", lambda m: tuple(r[0] for r in m)), "rests": ("m2", lambda m: tuple(r[1:] for r in m)),
    "matrix_transpose": ("m1", transpose),
    "integer_exp": ("small", lambda n: 1 if n <= 0 else pow(3, n, 64)),
}
for o, f in OPS.items():
    d = "p" if o == "div" else ""
    REF[f"vec_elemwise_{o}"] = ("vv" + d, ew(f))
    REF[f"matrix_elemwise_{o}"] = ("mm" + d, ew(f))
    REF[f"tensor3d_elemwise_{o}"] = ("tt" + d, ew(f))
    # scalar first argument; scalar on the right of the operator for vec_scalar_*, on the left for scalar_vec_*
    REF[f"vec_scalar_{o}"] = ("iv" + ("s" if d else ""), sc(lambda s, x, f=f: f(x, s)))
    REF[f"matrix_scalar_{o}"] = ("im" + ("s" if d else ""), sc(lambda s, x, f=f: f(x, s)))
    REF[f"scalar_vec_{o}"] = ("iv" + d, sc(f))
    REF[f"scalar_matrix_{o}"] = ("im" + d, sc(f))


def tensor(r, shape, lo=-9, hi=9):
    if not shape:
        return r.randint(lo, hi)
    return tuple(tensor(r, shape[1:], lo, hi) for _ in range(shape[0]))


def inputs(r, pat):
    """Well-shaped arguments for a shape pattern (user-function arguments are not included)."""
    n, k, h = r.choice((0, 1, 1, 2, 3, 4)), r.choice((1, 1, 2, 3, 4)), r.choice((1, 2))
    big = r.random() < .15
    lo, hi = (-2000, 2000) if big else (-9, 9)
    nn, pos = (0, hi), (1, hi)
    T = lambda s: tensor(r, s, lo, hi)
    P = lambda s: tensor(r, s, *pos)
    N = lambda s: tensor(r, s, *nn)
    if pat == "v":
        return (T((n,)),)
    if pat == "v1":
        return (T((max(n, 1),)),)
    if pat == "mv":
        return (T((n, k)), T((k,)))
    if pat == "bii":
        return (r.random() < .5, T(()), T(()))
    if pat == "vF":
        return (T((n,)),)
    if pat in ("vv", "vvS"):
        return (T((n,)), T((n,)))
    if pat in ("mm", "mmS"):
        return (T((n, k)), T((n, k)))
    if pat == "tt":
        return (T((n, h, k)), T((n, h, k)))
    if pat in ("vvp", "mmp", "ttp"):
        s = {"v": (n,), "m": (n, k), "t": (n, h, k)}[pat[0]]
        return (N(s), P(s))
    if pat == "vviiD":
        return (T((n,)), T((n,)), T(()), T(()))
    if pat == "mmiiD":
        return (T((n, k)), T((n, k)), T(()), T(()))
    if pat == "iv":
        return (T(()), T((n,)))
    if pat == "im":
        return (T(()), T((n, k)))
    if pat == "ivs":          # vector divided by the scalar
        return (P(()), N((n,)))
    if pat == "ims":
        return (P(()), N((n, k)))
    if pat == "ivp":          # scalar divided by the vector
        return (N(()), P((n,)))
    if pat == "imp":
        return (N(()), P((n, k)))
    if pat in ("vse", "mse", "vsn", "msn"):
        v = T((n,)) if pat[0] == "v" else T((n, k))
        s = r.randint(0, n)
        e = r.randint(s, n)
        return (v, s, e if pat[2] == "e" else e - s)
    if pat in ("mcd", "mcn"):
        s = r.randint(0, k - 1)
        e = r.randint(s + 1, k)
        return (T((n, k)), s, e if pat[2] == "d" else e - s)
    if pat == "m1":
        return (T((max(n, 1), k)),)
    if pat == "m2":
        return (T((max(n, 1), k + 1)),)
    if pat == "small":
        return (r.randint(-3, 12),)
    raise KeyError(pat)


USER = {"F": MAP, "S": SEL, "D": DIS}


def trivial(a):
    return any(isinstance(x, tuple) and not x for x in a)


# ---------------------------------------------------------------- operations
def decls():
    import metalift.utils.tenspiler.tenspiler_common as T
    import metalift.utils.tenspiler.constants as K
    from metalift.ir import FnDecl, FnDeclRecursive
    out = {}
    for src in (vars(T).values(), K.TENSPILER_FNS):
        for v in src:
            if isinstance(v, (FnDecl, FnDeclRecursive)):
                if v.name() in out and out[v.name()] is not v and str(out[v.name()]) != str(v):
                    raise AssertionError(f"two definitions of {v.name()}")
                out[v.name()] = v
    return out


class TotalEv(ireval.Ev):
    """IR evaluation where only the operation under test is looked up among the definitions first."""


def run_ir(d, fns, args):
    b = dict(ireval.BUILTINS)
    return ireval.Ev(fns, 60000, builtins=b).call(d, args)


def operations(c, ds):
    from metalift.ir import is_fn_decl_type
    lib = smteval.library()
    rk0 = rkteval.library()
    missing = [n for n in REF if n not in ds and not n.startswith(("tensor3d", "scalar_vec_add", "scalar_matrix_add", "scalar_vec_mul", "scalar_matrix_mul"))]
    c.count("operations_named", len([n for n in REF if n in ds]))
    # everything with a body must be covered by a reference (integer_sqrt is an approximation by design)
    for n, d in sorted(ds.items()):
        if d.body() is not None and n not in REF and not n.startswith("integer_"):
            c.count("operations_without_reference")
    reps = c.n(60, 1200)
    for n in sorted(ds):
        d = ds[n]
        if n not in REF or d.body() is None:
            continue
        pat, ref = REF[n]
        user = USER.get(pat[-1])
        hof = any(is_fn_decl_type(a.type) for a in d.arguments())
        fns = {k: v for k, v in ds.items() if v.body() is not None}
        # signature: a tensor operation returns what its reference returns
        realisations = [("IR", lambda a, d=d, fns=fns, user=user: run_ir(d, {k: v for k, v in fns.items() if k not in ireval.BUILTINS or k == n},
                                                                        list(a) + ([user] if user else [])))]
        smt = smt_of(c, n, d, ds, lib, user)
        if smt:
            realisations.append(("SMT", smt))
        rkt = rkt_of(c, n, d, ds, user)
        if rkt:
            realisations.append(("Rosette", rkt))
        r = c.rng("op", n)
        compare(c, n, pat, ref, realisations, r, reps)
        c.count("operations")
    # library counterparts (no IR text involved)
    for n in sorted(lib.fns):
        if n in REF and n not in ("integer_sqrt",):
            pat, ref = REF[n]
            compare(c, n, pat, ref, [("SMT library", lambda a, n=n: lib_apply(lib, n, a))], c.rng("smtlib", n), reps)
            c.count("library_operations")
    for n in ("vec_slice", "vec_slice_with_length", "matrix_row_slice", "matrix_row_slice_with_length", "matrix_col_slice",
              "matrix_col_slice_with_length", "matrix_transpose", "firsts", "rests", "integer_exp"):
        rn = n.replace("_", "-")
        name = next((x for x in (rn + "-noerr", rn) if x in rk0.top), None)
        if name is None:
            c.fail(f"rosette-missing:{n}", f"the Rosette library has no counterpart of {n}")
            continue
        pat, ref = REF[n]
        compare(c, n, pat, ref, [("Rosette library", lambda a, name=name: rk_apply(rk0, name, a))], c.rng("rktlib", n), reps)
        c.count("library_operations")
    placeholder_root(c, ds, lib)
    primitives(c, lib, rk0)


def placeholder_root(c, ds, lib):
    """integer_sqrt is an approximation, but the definition that is shipped and the one the verifier gets are the same one."""
    b = {k: v for k, v in ireval.BUILTINS.items() if not k.startswith("integer_sqrt")}
    fns = {k: v for k, v in ds.items() if k.startswith("integer_") and v.body() is not None}
    if not {"integer_sqrt", "integer_sqrt_helper"} <= set(fns) & set(lib.fns):
        return

    def value(f):
        try:
            return f()
        except (Undefined, RecursionError):
            return "no value"

    def smt(n, a):
        lib.fuel = 4000
        return lib.apply(n, list(a))
    r = c.rng("root")
    cases = [("integer_sqrt", (n,)) for n in range(0, c.n(140, 600))]
    cases += [("integer_sqrt_helper", (r.randint(0, 4200), r.randint(0, 70))) for _ in range(c.n(300, 5000))]
    for n, a in cases:
        ir_, smt_ = value(lambda: ireval.Ev(fns, 3000, builtins=b).call(fns[n], list(a))), value(lambda: smt(n, a))
        c.count("root_compared")
        if "no value" in (ir_, smt_):           # the iteration may alternate for ever; the two have different step budgets
            c.count("root_undefined")
            if (ir_, smt_) != ("no value",) * 2:
                c.fail(f"SMT library:{n}", f"{n}{a}: the target language's definition gives {ir_}, the verifier's {smt_}")
            continue
        c.case(("root", n, a))
        c.nontrivial(("root", n, a))
        if ir_ != smt_:
            c.fail(f"SMT library:{n}", f"{n}{a}: the target language's definition gives {ir_}, the verifier's {smt_}")


def primitives(c, lib, rk0):
    """List, matrix and 3-d primitives the operations are written in."""
    P = {
        "length": ("v", len), "get": ("vi", lambda v, i: v[i]), "append": ("vx", lambda v, x: v + (x,)),
        "prepend": ("xv", lambda x, v: (x,) + v), "tail": ("vk", lambda v, k: v[k:]), "take": ("vk", lambda v, k: v[:k]),
        "empty": ("", lambda: ()),
    }
    rkn = {"get": "ref-noerr", "tail": "tail-noerr", "take": "take-noerr", "length": "length"}
    r = c.rng("prim")
    for fam, dim in (("list", 1), ("matrix", 2), ("tensor3d", 3)):
        for p, (pat, ref) in P.items():
            for _ in range(c.n(60, 600)):
                n = r.randint(1, 4)
                shape = (n,) + (2, 3)[:dim - 1]
                v, x = tensor(r, shape), tensor(r, shape[1:])
                a = {"v": (v,), "vi": (v, r.randint(0, n - 1)), "vx": (v, x), "xv": (x, v), "vk": (v, r.randint(0, n)), "": ()}[pat]
                want = ref(*a)
                got = []
                nm = f"{fam}_{p}"
                if dim < 3:
                    got.append(("SMT library", lambda: lib_apply(lib, nm, a)))
                rn = f"{fam}-{rkn.get(p, p)}"
                if rn == "list-length":
                    rn = "length"
                got.append(("Rosette library", lambda: rk_apply(rk0, rn, a)))
                for who, f in got:
                    try:
                        g = f()
                    except Undefined:
                        c.fail(f"{who}:{nm}", f"{who}: {nm}{a} has no value, expected {want}")
                        continue
                    except (EvalError, smteval.SmtError, rkteval.RktError) as e:
                        c.fail(f"{who}:{nm}", f"{who}: {nm}{a}: {e}")
                        continue
                    c.count("primitive_calls")
                    c.case((who, nm, a))
                    c.nontrivial((who, nm, a))
                    if not ireval.same(g, want):
                        c.fail(f"{who}:{nm}", f"{who}: {nm}{a} = {g}, expected {want}")


def lib_apply(lib, n, a):
    lib.fuel = 200000
    try:
        return lib.apply(n, list(a)) if n in lib.fns and not callable(lib.fns[n]) or n in lib.models else lib.ev([sexp.Sym(n)] + [], {})
    except RecursionError:
        raise Undefined("recursion")


def rk_apply(rk, name, a):
    rk.fuel = 400000
    try:
        f = rk.top[name]
        return f(*[rkteval.enc(x) for x in a])
    except KeyError:
        raise rkteval.RktError(f"no {name}")
    except RecursionError:
        raise Undefined("recursion")


def compare(c, n, pat, ref, realisations, r, reps):
    for _ in range(reps):
        a = inputs(r, pat)
        want = ref(*a)
        for who, f in realisations:
            try:
                got = f(a)
            except Undefined as e:
                c.fail(f"{who}:{n}", f"{who}: {n}{a} has no value ({e}), expected {want}")
                continue
            except (EvalError, smteval.SmtError, rkteval.RktError) as e:
                c.fail(f"{who}:{n}", f"{who}: {n}{a} cannot be evaluated: {e}")
                continue
            c.case((who, n, a))
            c.count("compared")
            c.count("compared_" + who.replace(" ", "_"))
            if not trivial(a):
                c.nontrivial((who, n, a))
            if not ireval.same(got, want) and not (who.startswith("Rosette") and got == want):
                c.fail(f"{who}:{n}", f"{who}: {n}{a} = {got}, expected {want}", operation=n, arguments=repr(a))


def smt_of(c, n, d, ds, lib, user):
    """Rendered SMT definition (with everything it calls) as a Python function."""
    from checks.c13 import strip
    from metalift.ir import is_fn_decl_type
    if any("tensor3d" in str(x).lower() for x in (n,)):
        return None
    m = smteval.library()
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen or x not in ds or ds[x].body() is None:
            continue
        seen.add(x)
        e = ds[x]
        if x not in m.fns or x == n:
            m.fns.pop(x, None)
            fargs = [a for a in e.arguments() if is_fn_decl_type(a.type)]
            if fargs:
                names = {str(a.args[0]) for a in fargs}
                ps = [str(a.args[0]) for a in e.arguments() if a not in fargs]
                m.fns[x] = smteval.Fn(x, ps, [None] * len(ps), None, strip(sexp.read_one(e.body().toSMT()), names))
                for f in names:
                    m.fns[f] = user
            else:
                m.load(e.toSMT())
            todo += list(calls(e.body()))

    def f(a):
        m.fuel = 200000
        try:
            return m.apply(n, list(a))
        except RecursionError:
            raise Undefined("recursion")
    return f


def calls(e):
    from metalift.ir import Expr
    out = set()

    def go(x):
        if type(x).__name__ in ("Call", "TargetCall"):
            out.add(x.args[0])
        for a in x.args:
            if isinstance(a, Expr):
                go(a)
            elif hasattr(a, "src"):
                go(a.src)
    go(e)
    return out


def rkt_of(c, n, d, ds, user):
    rk = rkteval.library()
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen or x not in ds or ds[x].body() is None:
            continue
        seen.add(x)
        t = ds[x].to_rosette()
        forms = sexp.read_all(t, racket=True)
        name = str(forms[0][1][0])
        if x == n:
            top = name
        if x == n or name not in rk.top:
            rk.load(t)
        todo += list(calls(ds[x].body()))

    def f(a):
        v = rk_apply(rk, top, list(a) + ([user] if user else []))
        return v
    return f


# ---------------------------------------------------------------- dispatch helpers
def dispatch(c, ds):
    """call_* helpers produce a call of the named operation at the operand's rank, in argument order."""
    import metalift.utils.tenspiler.tenspiler_common as T
    from metalift.ir import Int, List, Matrix, Tensor3D
    fns = {k: v for k, v in ds.items() if v.body() is not None}
    r = c.rng("dispatch")
    ranks = {1: List(Int, "x"), 2: Matrix(Int, "x"), 3: Tensor3D(Int, "x")}
    ranks2 = {1: List(Int, "y"), 2: Matrix(Int, "y"), 3: Tensor3D(Int, "y")}
    s = Int("s")
    table = []
    for o, f in OPS.items():
        table.append((f"call_elemwise_{o}", "ee", ew(f), o))
        table.append((f"call_scalar_{o}", "se", sc(lambda a, x, f=f: f(x, a)), o))
    table.append(("call_scalar_rsub", "se", sc(OPS["sub"]), "sub"))
    table.append(("call_scalar_rdiv", "se", sc(OPS["div"]), "div"))
    for name, kind, ref, o in table:
        h = getattr(T, name)
        for rank in (1, 2, 3):
            try:
                e = h(ranks[rank], ranks2[rank]) if kind == "ee" else h(s, ranks[rank])
            except Exception:
                c.count("dispatch_rejected")
                if rank < 3:
                    c.fail(f"dispatch:{name}", f"{name} rejects a tensor of rank {rank}")
                continue
            if e.type != ranks[rank].type:
                c.fail(f"dispatch:{name}", f"{name} on rank {rank} has type {e.type}, expected {ranks[rank].type}")
                continue
            for _ in range(c.n(25, 200)):
                shape = tuple(r.randint(1, 3) for _ in range(rank))
                lo = 1 if o == "div" else -9
                a, b, k = tensor(r, shape, lo, 9), tensor(r, shape, lo, 9), r.randint(lo, 9)
                want = ref(a, b) if kind == "ee" else ref(k, a)
                try:
                    got = ireval.evaluate(e.src, {"x": a, "y": b, "s": k}, fns, 60000)
                except Undefined:
                    continue
                except EvalError as err:
                    c.fail(f"dispatch:{name}", f"{name} on rank {rank}: {err}")
                    break
                c.case((name, a, b, k))
                c.nontrivial((name, a, b, k))
                c.count("dispatch_compared")
                if not ireval.same(got, want):
                    c.fail(f"dispatch:{name}", f"{name} on rank {rank}: x={a} y={b} s={k} gives {got}, expected {want}")
                    break
    direct = {
        "call_reduce_sum": (("x1",), sum), "call_reduce_mul": (("x1",), prod), "call_reduce_max": (("x1",), max),
        "call_matrix_vec_mul": (("x2", "y1"), REF["matrix_vec_mul"][1]),
    }
    for name in sorted(vars(T)):
        if name.startswith("call_") and name[5:] in REF and name not in direct:
            pat, ref = REF[name[5:]]
            if pat in ("vv", "mm", "tt", "vvp", "mmp", "ttp"):
                k = {"v": "1", "m": "2", "t": "3"}[pat[0]]
                direct[name] = (("x" + k, "y" + k), ref)
            elif pat in ("iv", "im", "ivp", "imp", "ivs", "ims"):
                direct[name] = (("s", "x" + {"v": "1", "m": "2"}[pat[1]]), ref)
    direct["call_tensor_3d_elemwise_add"] = (("x3", "y3"), ew(OPS["add"]))
    direct["call_tensor_3d_elemwise_mul"] = (("x3", "y3"), ew(OPS["mul"]))
    for name, (ks, ref) in sorted(direct.items()):
        h = getattr(T, name, None)
        if h is None:
            c.count("helper_absent")
            continue
        objs = [s if k == "s" else (ranks if k[0] == "x" else ranks2)[int(k[1])] for k in ks]
        e = h(*objs)
        for _ in range(c.n(25, 200)):
            lo = 1 if "div" in name else -9
            n, k, q = r.randint(1, 3), r.randint(1, 3), r.randint(1, 2)
            shape = {"1": (n,), "2": (n, k), "3": (n, q, k)}
            env = {}
            for t in ks:
                if t == "s":
                    env["s"] = r.randint(lo, 9)
                else:
                    env[t[0]] = tensor(r, (k,) if name == "call_matrix_vec_mul" and t == "y1" else shape[t[1]], lo, 9)
            want = ref(*[env[t[0]] for t in ks])
            try:
                got = ireval.evaluate(e.src, env, fns, 60000)
            except (EvalError, Undefined) as err:
                c.fail(f"dispatch:{name}", f"{name} on {env}: {err}")
                break
            c.count("dispatch_compared")
            c.case((name, repr(env)))
            c.nontrivial((name, repr(env)))
            if not ireval.same(got, want):
                c.fail(f"dispatch:{name}", f"{name} on {env} gives {got}, expected {want}")
                break
    # helper bodies
    x, y = Int("int_x"), Int("int_y")
    vx, vy, mx, my = List(Int, "x"), List(Int, "y"), Matrix(Int, "x"), Matrix(Int, "y")
    for name, objs, ref in (("mul8x8_div32_body", (x, y), lambda a, b: a * b // 32),
                            ("screen8x8_body", (x, y), lambda a, b: a + b - a * b // 32),
                            ("vec_mul8x8_div32_body", (vx, vy), ew(lambda a, b: a * b // 32)),
                            ("matrix_mul8x8_div32_body", (mx, my), ew(lambda a, b: a * b // 32))):
        h = getattr(T, name, None)
        if h is None:
            continue
        e = h(*objs)
        names = [o.var_name() for o in objs]
        for _ in range(c.n(40, 300)):
            rank = {"Int": 0, "List": 1, "Matrix": 2}[type(objs[0]).__name__]
            shape = tuple(r.randint(1, 3) for _ in range(rank))
            a, b = tensor(r, shape, 0, 64), tensor(r, shape, 0, 64)
            got = ireval.evaluate(e.src, dict(zip(names, (a, b))), fns, 60000)
            c.count("helper_bodies")
            if not ireval.same(got, ref(a, b)):
                c.fail(f"helper:{name}", f"{name}({a}, {b}) = {got}, expected {ref(a, b)}")
                break


# ---------------------------------------------------------------- search-space builders
class Picker(ireval.Ev):
    """Evaluates a grammar member: each choice point picks an alternative; checks value against static type."""

    def __init__(self, r, fns, monitor):
        super().__init__(fns, 60000)
        self.r, self.monitor = r, monitor

    def e_Choose(self, e, env):
        return self.ev(self.r.choice(list(e.args)), env)

    def call(self, f, args):
        if type(f).__name__ == "Synth":
            return self.ev(f.body(), {p.args[0]: a for p, a in zip(f.arguments(), args)})
        return super().call(f, args)

    def ev(self, e, env):
        v = super().ev(e, env)
        t = getattr(e, "type", None)
        if t is not None and not callable(v):
            self.monitor(e, t, v)
        return v


def nested(t):
    from metalift import ir
    return ir.is_matrix_type(t) or (ir.is_list_type(t) and ir.is_nested_list_type(t))


def conforms(t, v):
    from metalift import ir
    if t is ir.Int:
        return isinstance(v, int) and not isinstance(v, bool)
    if t is ir.Bool:
        return isinstance(v, bool)
    if ir.is_tensor3d_type(t):
        return isinstance(v, tuple) and all(conforms(ir.Matrix[ir.Int], x) for x in v)
    if nested(t):
        return isinstance(v, tuple) and all(isinstance(x, tuple) and all(conforms(ir.Int, y) for y in x) for x in v)
    if ir.is_list_type(t):
        return isinstance(v, tuple) and all(conforms(ir.Int, x) for x in v)
    return True


LIBFNS = {"integer_exp", "integer_sqrt"}


def norm(t):
    from metalift import ir
    if nested(t):
        return "matrix"
    return str(t)


def static(c, where, e, sigs, seen):
    """Every node of every alternative: calls match their declarations; only known functions are used."""
    from metalift.ir import Expr
    stack = [e]
    while stack:
        x = stack.pop()
        if not isinstance(x, Expr):
            x = getattr(x, "src", None)
            if x is None:
                continue
        if id(x) in seen:
            continue
        seen[id(x)] = x
        k = type(x).__name__
        c.count("grammar_nodes")
        if k == "Choose":
            ts = {norm(a.type) for a in x.args}
            if len(ts) != 1 or norm(x.type) not in ts:
                c.fail(f"grammar:{where}", f"alternatives of different types {ts} in {where}")
        if k == "Call":
            n = x.args[0]
            if n in sigs:
                ret, args = sigs[n]
                got = [norm(a.type) for a in x.args[1:]]
                if len(got) != len(args) or any(g != a for g, a in zip(got, args) if a is not None):
                    c.fail(f"grammar:{where}", f"{n} takes {args} but the grammar applies it to {got}")
                if norm(x.type) != ret:
                    c.fail(f"grammar:{where}", f"{n} returns {ret} but the grammar uses it as {norm(x.type)}")
            elif n not in ireval.BUILTINS and n not in LIBFNS:
                c.fail(f"grammar-unknown:{where}", f"the grammar of {where} offers {n}, which its target language does not contain")
        stack += [a for a in x.args if isinstance(a, Expr) or hasattr(a, "src")]


def sig_of(d):
    from metalift.ir import is_fn_decl_type
    import typing
    ret = d.returnT() if hasattr(d, "returnT") else typing.get_args(typing.get_args(d.type)[0])[0]
    return norm(ret), [None if is_fn_decl_type(a.type) else norm(a.type) for a in d.arguments()]


def builders(c):
    import metalift.utils.tenspiler.tenspiler_common as T
    from metalift.frontend.llvm import Driver
    from metalift.ir import Int, List, Matrix, choose
    specs = []
    for depth in (0, 1, 2, 3):
        for relaxed in (False, True):
            specs.append((f"matrix_computation_general depth={depth} relaxed={relaxed}", "comp", relaxed,
                          lambda d, r: T.get_matrix_computation_general_search_space(d, [Int(0), Int(1), Int(32)], r), (depth, relaxed)))
            specs.append((f"matrix_select_general depth={depth} relaxed={relaxed}", "sel", relaxed,
                          lambda d, r: T.get_matrix_select_general_search_space(Driver(), d, [Int(0), Int(32)], r), (depth, relaxed)))
            specs.append((f"dissolve_general depth={depth} relaxed={relaxed}", "dis", relaxed,
                          lambda d, r: T.get_dissolve_general_search_space(Driver(), d, r), (depth, relaxed)))
    for h in ("multiply_blend_8_hole_body", "linear_burn_8_hole_body", "screen_blend_8_hole_body", "linear_dodge_8_hole_body"):
        specs.append((f"matrix_computation_holing {h}", "comp", False, lambda h: T.get_matrix_computation_holing_search_space(getattr(T, h)), (h,)))
    for h in ("darken_blend_8_hole_body", "color_burn_8_hole_body", "lighten_blend_8_hole_body", "color_dodge_8_hole_body",
              "overlay_blend_8_hole_body"):
        specs.append((f"matrix_select_holing {h}", "sel", False, lambda h: T.get_matrix_select_holing_search_space(Driver(), getattr(T, h)), (h,)))
    specs.append(("dissolve_holing", "dis", False, lambda: T.get_dissolve_holing_search_space(Driver()), ()))
    for name, kind, relaxed, f, args in specs:
        if c.out_of_time():
            break
        deep = args and args[0] in (2, 3)
        if deep and not c.thorough and args[0] == 2 and kind != "comp":
            continue
        one_builder(c, name, kind, relaxed, f, args, deep)


def one_builder(c, name, kind, relaxed, f, args, deep):
    from metalift.ir import Int, List, Matrix
    try:
        inv0, inv1, ps, target_lang, synths = f(*args)
    except Exception as e:
        c.fail(f"builder:{name}", f"{name} cannot be built: {type(e).__name__}: {e}")
        return
    c.count("builders")
    out, col, pixel, row, row_vec = Matrix(Int, "agg.result"), Int("col"), Int("pixel"), Int("row"), List(Int, "row_vec")
    base, active = Matrix(Int, "base"), Matrix(Int, "active")
    reads = [base, active] + ([Int("opacity"), Int("rand_cons")] if kind == "dis" else [])
    ret = Matrix(Int, "ret")
    try:
        gs = [("inv0", inv0.func([out, col, pixel, row, row_vec], reads, [], relaxed)),
              ("inv1", inv1.func([col, pixel, row_vec], reads, [out, row], relaxed)),
              ("ps", ps([ret], reads, [], relaxed))]
    except Exception as e:
        c.fail(f"builder:{name}", f"a grammar of {name} cannot be built: {type(e).__name__}: {e}")
        return
    tl = {d.name(): d for d in target_lang()}
    fns = {k: v for k, v in tl.items() if v.body() is not None}
    for s in synths:
        fns[s.name()] = s
    sigs = {k: sig_of(v) for k, v in tl.items()}
    gs += [(s.name(), s.body()) for s in synths]
    seen = {}
    ints = ["col", "pixel", "row", "opacity", "rand_cons", "int_x", "int_y"]
    from checks import c14 as me
    for part, g in gs:
        e = getattr(g, "src", g)
        if part in ("inv0", "inv1", "ps") and conformsname(e.type) != "Bool":
            c.fail(f"builder:{name}", f"{part} of {name} is not a predicate but {e.type}")
        static(c, f"{name} {part}", e, sigs, seen)
        r = c.rng("member", name, part)
        helper = {"integer_exp": lambda n: 1 if n <= 0 else pow(3, n, 64), "integer_sqrt": lambda n: max(n, 0)}
        reps = c.n(8 if deep else 25, 60 if deep else 400)
        for _ in range(reps):
            R, C = r.randint(1, 3), r.randint(1, 3)
            env = {"base": tensor(r, (R, C), 0, 9), "active": tensor(r, (R, C), 0, 9), "agg.result": tensor(r, (R, C), 0, 9),
                   "ret": tensor(r, (R, C), 0, 9), "row_vec": tensor(r, (C,), 0, 9)}
            for k in ints:
                env[k] = r.randint(0, 3)
            env["row"], env["col"] = r.randint(0, R), r.randint(0, C)

            def mon(x, t, v):
                c.count("typed_values")
                if not conforms(t, v):
                    raise EvalError(f"a value {v!r} for type {t} in {type(x).__name__} {str(x)[:150]}")
            try:
                v = Picker(r, {**fns, **helper}, mon).ev(e, env)
                c.count("members_evaluated")
                c.case((name, part, repr(env)))
                c.nontrivial((name, part, repr(env)))
            except Undefined:
                c.count("members_undefined")
            except RecursionError:
                c.count("members_undefined")
            except EvalError as err:
                c.fail(f"member:{name}", f"{part} of {name}: {err}")
                break


def conformsname(t):
    return getattr(t, "__name__", str(t))


def members(e):
    """All members of a small grammar (every combination of alternatives)."""
    import itertools
    from metalift.ir import Expr
    e = getattr(e, "src", e)
    if type(e).__name__ == "Choose":
        return [m for a in e.args for m in members(a)]
    parts = [members(a) if isinstance(a, Expr) and type(a).__name__ not in ("Var", "Lit") else [a] for a in e.args]
    out = []
    for combo in itertools.product(*parts):
        import copy
        x = copy.copy(e)
        x.args = list(combo)
        out.append(x)
    return out


def values(e, env):
    return {ireval.evaluate(m, env) for m in members(e)}


def depth_builders(c):
    """Expressions bounded by a depth: the variable itself is offered at every bound, all alternatives are well typed."""
    import metalift.utils.tenspiler.tenspiler_common as T
    from metalift.ir import Int, List, Matrix, choose
    ds = decls()
    sigs = {k: sig_of(v) for k, v in ds.items()}
    fns = {k: v for k, v in ds.items() if v.body() is not None and k not in ireval.BUILTINS and not k.startswith("integer")}
    fns.update({"integer_exp": lambda n: 1 if n <= 0 else pow(3, n, 64), "integer_sqrt": lambda n: max(n, 0), "map_int_to_int": MAP})
    for depth in range(0, 5):
        for rank in (0, 1, 2):
            v = {0: Int("x"), 1: List(Int, "x"), 2: Matrix(Int, "x")}[rank]
            for extra in ((False, True) if rank == 1 else (False,)):
                try:
                    if rank == 0:
                        e = T.get_int_expr_eq_or_below_depth(v, depth)
                    else:
                        kw = {"additional_matrix": Matrix(Int, "mm")} if extra else {}
                        e = T.get_matrix_or_vec_expr_eq_or_below_depth(matrix_or_vec_var=v, int_var=Int("s"), depth=depth, **kw)
                except Exception as x:
                    c.fail(f"depth-builder:{rank}", f"no expression space of depth {depth} for rank {rank}: {type(x).__name__}: {x}")
                    continue
                c.count("depth_builders")
                static(c, f"depth={depth} rank={rank}", e.src, sigs, {})
                if norm(e.type) != norm(v.type):
                    c.fail(f"depth-builder:{rank}", f"space of depth {depth} over {v.type} has type {e.type}")
                if not offers(e.src, v.src):
                    c.fail(f"depth-builder:{rank}", f"the space up to depth {depth} for rank {rank} (matrix product {extra}) does not offer the variable itself")
                r = c.rng("depth", depth, rank)
                for _ in range(c.n(20, 200)):
                    k = r.randint(1, 3)
                    env = {"x": tensor(r, {0: (), 1: (k,), 2: (r.randint(1, 3), k)}[rank], 1, 5), "s": r.randint(1, 4), "mm": tensor(r, (k, k), 0, 4)}

                    def mon(x, t, val):
                        c.count("typed_values")
                        if not conforms(t, val):
                            raise EvalError(f"a value {val!r} for type {t} in {type(x).__name__}")
                    try:
                        Picker(r, fns, mon).ev(e.src, env)
                        c.count("members_evaluated")
                        c.case(("depth", depth, rank, repr(env)))
                        c.nontrivial(("depth", depth, rank, repr(env)))
                    except (Undefined, RecursionError):
                        c.count("members_undefined")
                    except EvalError as err:
                        c.fail(f"depth-builder:{rank}", f"depth {depth}: {err}")
                        break
    # loop-bound helpers: the values offered are those of the loops they describe
    if hasattr(T, "get_lower_bound_fn_body") and hasattr(T, "get_upper_bound_fn_body"):
        from metalift.ir import Bool
        l, rr, b = Int("l"), Int("r"), Bool("b")
        lo, up = T.get_lower_bound_fn_body(b, l, rr), T.get_upper_bound_fn_body(b, l, rr)
        r = c.rng("bounds")
        for _ in range(c.n(30, 300)):
            x, y = r.randint(-5, 9), r.randint(-5, 9)
            for asc in (True, False):
                env = {"l": x, "r": y, "b": asc}
                a, z = values(lo, env), values(up, env)
                # ascending i = l; i < r or i <= r covers [l, r) or [l, r+1); descending i = l; i > r or i >= r: [r+1, l+1) or [r, l+1)
                wa, wz = ({x}, {y, y + 1}) if asc else ({y, y + 1}, {x + 1})
                c.count("loop_bounds")
                if a != wa or z != wz:
                    c.fail("loop-bounds", f"bounds for left={x} right={y} ascending={asc}: lower {a} upper {z}, expected {wa} and {wz}")


def offers(e, v):
    from metalift.ir import Expr
    if type(e).__name__ == "Choose":
        return any(offers(a, v) for a in e.args)
    return e == v


def run(c):
    c.require("compared", 3000)
    c.require("operations", 25)
    c.require("builders", 10)
    c.require("members_evaluated", 100)
    ds = decls()
    operations(c, ds)
    dispatch(c, ds)
    depth_builders(c)
    builders(c)
    c.assumptions.append("integer_sqrt is a placeholder whose SMT and Rosette realisations differ by design; element division is compared for non-negative dividends and positive divisors")


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
