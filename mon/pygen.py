"""Random programs in the Python front end's subset, with a terminating loop discipline.

Every `while` sits on its own line; Fn.loops maps that line to the variables that are certainly
assigned when the loop head is reached (others are wild cards for the invariant).
Naming fixes types file-wide: i*/n*/c* ints, l* list[int], s* set[int].
"""


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []       # (name, type)
        self.ret = "int"
        self.lines = []        # source lines (1-based offset filled by module)
        self.loops = {}        # relative line -> tuple of definitely assigned names
        self.written_params = False
        self.features = set()
        self.start = 0
        self.uninterp = []

    def text(self):
        return "\n".join(self.lines)


TY = {"int": "int", "list": "List[int]", "set": "Set[int]"}


class Gen:
    def __init__(self, rng, name, opts=None):
        self.r = rng
        self.f = Fn(name)
        o = {"nested": True, "lists": True, "sets": True, "early": True, "uninterp": True,
             "write_params": False, "depth": 3}
        o.update(opts or {})
        self.o = o
        self.loopctr = 0
        self.frozen = set()    # variables that must not be assigned (loop counters / bounds in use)
        self.tmp = 0
        self.ifdepth = 0
        self.inl = 0

    # ---- expressions
    def ints(self, sc):
        return [v for v in sc if v[0] in "inctpqf"]

    def lists(self, sc):
        return [v for v in sc if v[0] == "l"]

    def iexpr(self, sc, d=2):
        r = self.r
        k = r.random()
        vs = self.ints(sc)
        if d <= 0 or k < 0.3:
            if vs and r.random() < 0.75:
                return r.choice(vs)
            return str(r.choice([0, 1, 2, 3, 5]))
        if k < 0.72:
            op = r.choice(["+", "-", "+", "-", "*"])
            self.f.features.add("arith")
            return f"({self.iexpr(sc, d-1)} {op} {self.iexpr(sc, d-1)})" if r.random() < .8 else \
                f"{self.iexpr(sc, 0)} {op} {self.iexpr(sc, 0)} {r.choice('+-')} {self.iexpr(sc, 0)}"
        if k < 0.78:
            self.f.features.add("neg")
            return f"-{self.iexpr(sc, 0)}" if r.random() < .5 else f"(-{self.iexpr(sc, d-1)})"
        ls = self.lists(sc)
        if k < 0.88 and ls and self.o["lists"]:
            self.f.features.add("len")
            return f"len({r.choice(ls)})"
        if k < 0.94 and ls and self.o["lists"]:
            self.f.features.add("index")
            return f"{r.choice(ls)}[{self.iexpr(sc, d-1)}]"
        if k < 0.97 and self.o["uninterp"]:
            self.f.features.add("uninterp")
            return f"uf({self.iexpr(sc, d-1)}, {self.iexpr(sc, d-1)})"
        return f"({self.iexpr(sc, d-1)} // {r.choice('123')})"

    def bexpr(self, sc, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.6:
            if k < 0.12:
                self.f.features.add("chained")
                ops = [r.choice(["<", "<=", ">", ">=", "=="]) for _ in range(r.choice([2, 2, 3]))]
                s = self.iexpr(sc, 1)
                for op in ops:
                    s += f" {op} {self.iexpr(sc, 1)}"
                return s
            return f"{self.iexpr(sc, 1)} {r.choice(['<','<=','>','>=','=='])} {self.iexpr(sc, 1)}"
        self.f.features.add("bool")
        return f"({self.bexpr(sc, d-1)} {r.choice(['and','or'])} {self.bexpr(sc, d-1)})"

    # ---- statements
    def emit(self, ind, s):
        self.f.lines.append("    " * ind + s)

    def assignable(self, sc):
        ps = {p for p, _ in self.f.params}
        return [v for v in sc if v not in self.frozen and (self.o["write_params"] or v not in ps or (v[0] == "s" and not self.f.loops and not self.inl))]

    def stmt(self, sc, ind, d, inloop):
        """Returns True when control certainly returned."""
        r = self.r
        k = r.random()
        asg = self.assignable(sc)
        if k < 0.40 or d <= 0:
            return self.simple(sc, ind, asg)
        if k < 0.62:
            return self.if_(sc, ind, d, inloop)
        if k < 0.90 and (self.o["nested"] or not inloop):
            self.while_(sc, ind, d, inloop)
            return False
        return self.simple(sc, ind, asg)

    def simple(self, sc, ind, asg):
        r = self.r
        ls = [v for v in asg if v[0] == "l"]
        ss = [v for v in asg if v[0] == "s"]
        is_ = [v for v in asg if v[0] in "inctpqf"]
        ps = {p for p, _ in self.f.params}
        k = r.random()
        if self.o.get("tuples") and k < 0.25:
            t = f"u{self.tmp}"
            self.tmp += 1
            n = r.randint(2, 3)
            self.f.features.add("tuple")
            self.emit(ind, f"{t} = ({', '.join(self.iexpr(sc, 1) for _ in range(n))})")
            if is_:
                v = r.choice(is_)
                self.note_write(v, ps)
                self.emit(ind, f"{v} = {t}[{r.randrange(n)}] + {t}[{r.randrange(n)}]")
        elif ls and k < 0.3:
            v = r.choice(ls)
            self.f.features.add("append")
            self.note_write(v, ps)
            if r.random() < 0.12:
                self.emit(ind, f"{v} = []")
            else:
                self.emit(ind, f"{v}.append({self.iexpr(sc, 2)})")
        elif ss and k < 0.55:
            v = r.choice(ss)
            self.f.features.add("set")
            self.note_write(v, ps)
            self.emit(ind, f"{v}.{r.choice(['add','add','remove'])}({self.iexpr(sc, 1)})")
        elif is_:
            v = r.choice(is_)
            self.note_write(v, ps)
            self.emit(ind, f"{v} = {self.iexpr(sc, 2)}")
        return False

    def note_write(self, v, ps):
        if v in ps:
            self.f.written_params = True
            self.f.features.add("write_param")

    def block(self, sc, ind, d, inloop, n=None):
        """-> (returned, emitted?)"""
        n0 = len(self.f.lines)
        for _ in range(n or self.r.randint(1, 3)):
            if self.r.random() < 0.15 and inloop and not self.ifdepth:
                # block-local temporary
                t = f"t{self.tmp}"
                self.tmp += 1
                self.emit(ind, f"{t}: int = {self.iexpr(sc, 2)}")
                sc = sc + [t]
                self.f.features.add("temp")
            if self.stmt(sc, ind, d, inloop):
                if len(self.f.lines) == n0:
                    raise AssertionError
                return True
        if len(self.f.lines) == n0:
            asg = [v for v in self.assignable(sc) if v[0] in "inctpqf"]
            if asg:
                self.note_write(asg[0], {p for p, _ in self.f.params})
                self.emit(ind, f"{asg[0]} = {self.iexpr(sc, 1)}")
            else:
                self.emit(ind, f"{self.sink} = {self.iexpr(sc, 1)}")
        return False

    def if_(self, sc, ind, d, inloop):
        r = self.r
        self.f.features.add("if")
        self.emit(ind, f"if {self.bexpr(sc)}:")
        k = r.random()
        ret1 = ret2 = False
        early = self.o["early"] and r.random() < (0.25 if not inloop else 0.12)
        if early:
            self.f.features.add("early_return" + ("_in_loop" if inloop else ""))
            if r.random() < .4:
                self.block_notmp(sc, ind + 1, d - 1, inloop, 1)
            self.emit(ind + 1, f"return {self.retexpr(sc)}")
            ret1 = True
        else:
            ret1 = self.block_notmp(sc, ind + 1, d - 1, inloop)
        if k < 0.5:
            self.f.features.add("else")
            self.emit(ind, "else:")
            if self.o["early"] and r.random() < 0.12:
                self.f.features.add("else_return")
                self.emit(ind + 1, f"return {self.retexpr(sc)}")
                ret2 = True
            else:
                ret2 = self.block_notmp(sc, ind + 1, d - 1, inloop)
        elif k < 0.6:
            self.f.features.add("elif")
            self.emit(ind, f"elif {self.bexpr(sc)}:")
            self.block_notmp(sc, ind + 1, d - 1, inloop)
        return ret1 and ret2

    def block_notmp(self, sc, ind, d, inloop, n=None):
        # temporaries are not introduced inside branches (they would exist in one branch only)
        n0 = len(self.f.lines)
        self.ifdepth += 1
        try:
            for _ in range(n or self.r.randint(1, 2)):
                if self.stmt(sc, ind, d, inloop):
                    return True
        finally:
            self.ifdepth -= 1
        if len(self.f.lines) == n0:
            self.emit(ind, f"{self.sink} = {self.iexpr(sc, 1)}")
        return False

    def retexpr(self, sc):
        if self.f.ret == "int":
            return self.iexpr(sc, 2)
        vs = [v for v in sc if v[0] == self.f.ret[0]]
        return self.r.choice(vs)

    def while_(self, sc, ind, d, inloop):
        r = self.r
        self.f.features.add("while")
        if inloop:
            self.f.features.add("nested_while")
        if "while_done" in self.f.features:
            self.f.features.add("second_while")
        # counter: declared at top (c0, c1, ...) so it is always assigned
        cs = [v for v in sc if v[0] == "c" and v not in self.frozen]
        if not cs:
            return
        c = r.choice(cs)
        bounds = [str(r.choice([1, 2, 3]))] + [v for v in self.ints(sc) if v != c and v[0] in "npqf"]
        bounds += [f"len({v})" for v in self.lists(sc) if v in {p for p, _ in self.f.params} and not self.o["write_params"]]
        b = r.choice(bounds)
        fr = {c}
        if b in sc:
            fr.add(b)
        newfr = fr - self.frozen
        if r.random() < 0.85:
            self.emit(ind, f"{c} = {r.choice(['0', '0', '1'])}")
        cond = f"{c} < {b}"
        if r.random() < 0.25:
            cond = f"{cond} and {self.bexpr(sc, 0)}"
        elif r.random() < 0.1:
            cond = f"{b} > {c}"
        self.emit(ind, f"while {cond}:")
        self.f.loops[len(self.f.lines) - 1] = tuple(sc)
        self.frozen |= newfr
        self.inl += 1
        pre = r.random() < 0.2
        if pre:
            self.emit(ind + 1, f"{c} = {c} + 1")
        ret = self.block(sc, ind + 1, d - 1, True)
        if not pre and not ret:
            self.emit(ind + 1, f"{c} = {c} + 1")
        self.inl -= 1
        self.frozen -= newfr
        self.f.features.add("while_done")

    def gen(self):
        r, f = self.r, self.f
        np_ = r.randint(1, 3)
        px = self.o.get("prefix", "p")
        f.params = [(f"{px}{k}", "int") for k in range(np_)]
        if self.o["lists"] and r.random() < 0.5:
            f.params.append(("l" + px, "list"))
        if self.o["sets"] and r.random() < 0.35:
            f.params.append(("s" + px, "set"))
        r.shuffle(f.params)
        if self.o.get("first"):
            f.params.insert(0, (self.o["first"], "int"))
        f.ret = r.choice(["int"] * 5 + (["list"] if self.o["lists"] else []) + (["set"] if self.o["sets"] and "s" + px in dict(f.params) else []))
        if self.o.get("ret"):
            f.ret = self.o["ret"]
        self.emit(0, f"def {f.name}({', '.join(p + ': ' + TY[t] for p, t in f.params)}) -> {TY[f.ret]}:")
        sc = [p for p, _ in f.params]
        decl = []
        for k in range(r.randint(1, 2)):
            decl.append((f"i{k}", "int"))
        nloops = 0 if self.o.get("tuples") else r.choice([0, 1, 1, 2, 2, 3])
        for k in range(nloops):
            decl.append((f"c{k}", "int"))
        if self.o["lists"] and (f.ret == "list" or r.random() < 0.5):
            decl.append(("l0", "list"))
        self.sink = "i0"
        for v, t in decl:
            if t == "int":
                self.emit(1, f"{v}{r.choice(['', ': int'])} = {self.iexpr(sc, 1) if v[0] == 'i' and r.random() < .5 else r.choice(['0', '1'])}")
            else:
                self.emit(1, f"{v}: {TY[t]} = []")
            sc.append(v)
        returned = False
        for _ in range(r.randint(1, 4)):
            if self.stmt(sc, 1, self.o["depth"], False):
                returned = True
                break
        if nloops and not f.loops and not returned:
            self.while_(sc, 1, self.o["depth"], False)
        if not returned or r.random() < .5:
            # a statement after code that always returns is dead code; keep it sometimes
            if returned:
                f.features.add("dead_code")
            self.emit(1, f"return {self.retexpr(sc)}")
        if f.loops and f.written_params:
            f.features.add("write_param_loop")
        return f


def module(fns, header="from typing import List, Set\n\n\ndef decoy(i0: List[int], c0: List[int], l0: int, p0: List[int], lp: int) -> int:\n    i1: List[int] = []\n    c1 = i0\n    return l0 + lp + len(i0) + len(c0) + len(p0) + len(i1) + len(c1)\n\n\ndef uf(a: int, b: int) -> int:\n    return 3 * a - b\n\n\n"):
    """Assemble functions into one module; sets Fn.start (1-based line of the def)."""
    text = header
    for f in fns:
        f.start = text.count("\n") + 1
        text += f.text() + "\n\n\n"
    return text
