"""Interpreter of the LLVM IR the repository's compile script produces (clang -O0, AddEmptyBlocks, lowerinvoke, ...).

Independent of llvmlite and of the front end: its own text parser, machine semantics (two's complement, C division,
unsigned comparisons).  Executions that leave the common domain of C and mathematical integers (signed overflow, out of
range element, read of an uninitialised variable) are aborted with `Outside`.  Every arrival at a loop head is recorded with
the contents of every stack variable and parameter.
"""
import re, subprocess
from .ireval import TupV


class Outside(Exception):
    """the execution leaves the domain in which the property is stated"""


class Unknown(Exception):
    """the interpreter does not know the construct"""


class _Uninit:
    def __repr__(self):
        return "uninit"


UNINIT = _Uninit()


class Cell:
    def __init__(self, v=UNINIT, ty=""):
        self.v, self.ty = v, ty

    def get(self):
        if self.v is UNINIT:
            raise Outside("uninitialised")
        return self.v

    def set(self, v):
        self.v = v


class Elem:
    def __init__(self, base, i):
        self.base, self.i = base, i

    def get(self):
        v = self.base.get()
        if not 0 <= self.i < len(v):
            raise Outside("element")
        return v[self.i]

    def set(self, x):
        v = self.base.get()
        if not 0 <= self.i < len(v):
            raise Outside("element")
        self.base.set(v[:self.i] + (x,) + v[self.i + 1:])


_dem = {}


def demangle(names):
    todo = [n for n in dict.fromkeys(names) if n not in _dem]
    if todo:
        out = subprocess.run(["c++filt", "-n"], input="\n".join(todo), capture_output=True, text=True).stdout.split("\n")
        _dem.update(zip(todo, out))
    return [_dem[n] for n in names]


def base_name(d):
    """std::__1::vector<int, ...>::push_back(int&&) -> push_back;  int listGet<int>(list<int>*, int) -> listGet"""
    d = d.strip()
    if d.endswith(" const"):
        d = d[:-6]
    if d.endswith(")"):
        d = d[:_open(d, "(", ")")]
    if d.endswith(">") and not d.endswith("operator>"):
        d = d[:_open(d, "<", ">")]
    m = re.search(r"(operator\W+|~?\w+)$", d)
    return m.group(1) if m else d


def _open(d, o, c):
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        depth += (d[i] == c) - (d[i] == o)
        if depth == 0:
            return i
    return 0


def split_args(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


NAME = r'(?:"[^"]*"|[-\w.$]+)'


def nm(s):
    return s.strip().lstrip("%@").strip('"')


def last_operand(s):
    """'i32 noundef signext 3' -> ('i32', '3');  '%"class.x"* nonnull align 8 dereferenceable(24) %v' -> (type, '%v')"""
    toks = re.findall(r'%"[^"]*"[*]*|@"[^"]*"|\S+\([^)]*\)|\S+', s)
    return toks[0], toks[-1]


class Func:
    pass


class Fns(dict):
    """functions by name, and the module's integer variables"""

    def __init__(self):
        self.globals = {}


def parse(text):
    """-> {name: Func(name, params=[(type, name, is_sret)], blocks={label: [line]}, order=[label])}"""
    fns = Fns()
    for m in re.finditer(r"(?m)^@(" + NAME + r") = .*?\b(?:global|constant) (i\d+) (\S+?)(?:,|$)", text):
        fns.globals[nm(m.group(1))] = (m.group(2), m.group(3))
    for part in re.split(r"(?m)^(?=define )", text)[1:]:
        head, _, body = part.partition("{\n")
        body = body[:body.index("\n}")]
        m = re.match(r"define (.*?)@(" + NAME + r")\((.*)\)", head)
        f = Func()
        f.name = nm(m.group(2))
        f.ret = m.group(1).split()[-1] if m.group(1).split() else "void"
        h = head[head.index("@" + m.group(2)) + 1 + len(m.group(2)):]
        depth = 0
        for i, ch in enumerate(h):
            depth += (ch == "(") - (ch == ")")
            if depth == 0:
                break
        f.params = []
        for a in split_args(h[1:i]):
            ty, n = last_operand(a)
            f.params.append((ty, nm(n), " sret" in a))
        f.blocks, f.order, cur = {}, [], None
        for line in body.split("\n"):
            lm = re.match(r"(" + NAME + r"):", line)
            if lm:
                cur = nm(lm.group(1))
                f.blocks[cur] = []
                f.order.append(cur)
            elif line.strip() and not line.strip().startswith(";"):
                if line.startswith("    ") and f.blocks[cur]:
                    f.blocks[cur][-1] += " " + line.strip()          # switch tables, landingpad clauses
                elif line.strip() == "]":
                    f.blocks[cur][-1] += " ]"
                else:
                    f.blocks[cur].append(line.strip())
        fns[f.name] = f
    return fns


def loops(text, fn):
    """'opt -analyze -loops' output -> [header names] in the order the loops are listed"""
    out, on = [], False
    for l in text.split("\n"):
        m = re.match(r"Printing analysis 'Natural Loop Information' for function '(.*)':", l)
        if m:
            on = m.group(1) == fn
        elif on:
            m = re.match(r"\s*(?:Parallel )?Loop at depth \d+ containing: (.*)", l)
            if m:
                h = [b for b in m.group(1).split(",") if "<header>" in b]
                out.append(nm(h[0].split("<")[0]))
    return out


def width(t):
    m = re.match(r"i(\d+)$", t)
    return int(m.group(1)) if m else 32


class Machine:
    def __init__(self, fns, uninterp=(), max_steps=3000, trunc=False):
        self.trunc = trunc                      # divisions with negative operands are in the domain
        self.fns = fns
        self.uninterp = dict(uninterp)          # base name -> python function
        self.max = max_steps
        self.calls = set()                      # base names of everything called

    def run(self, name, args, heads=()):
        """args: values by position without the sret slot (vectors as tuples). -> (result, [(head, snapshot)])"""
        self.steps = 0
        f = self.fns[name]
        regs, cells = {}, {}
        it = iter(args)
        sret = None
        self.globals = {n: Cell(self.val(v, t, {}), t) for n, (t, v) in self.fns.globals.items()}
        for ty, n, is_sret in f.params:
            if is_sret:
                sret = regs[n] = cells[n] = Cell(UNINIT, ty)
            elif "vector" in ty:
                regs[n] = cells[n] = Cell(next(it), ty)
            else:
                regs[n] = next(it)
        self.events = []
        r = self.call_body(f, regs, cells, set(heads))
        if sret is not None:
            r = sret.get()
        return r, self.events

    def snapshot(self, regs, cells):
        def flat(v, ty=""):
            while isinstance(v, (Cell, Elem)):
                ty = getattr(v, "ty", "")
                try:
                    v = v.v if isinstance(v, Cell) else v.get()
                except Outside:
                    return UNINIT
            if ty.rstrip("*") == "i8" and v in (0, 1):
                return bool(v)
            return v
        return {n: flat(c) for n, c in cells.items()}

    def call_body(self, f, regs, cells, heads=frozenset()):
        blk, prev = f.order[0], None
        while True:
            if blk in heads:
                self.events.append((blk, self.snapshot(regs, cells)))
            lines = f.blocks[blk]
            # phis are evaluated together
            phis = {}
            for l in lines:
                m = re.match(r"%(" + NAME + r") = phi (\S+) (.*)", l)
                if not m:
                    break
                for v, p in re.findall(r"\[ (\S+), %(" + NAME + r") \]", m.group(3)):
                    if nm(p) == prev:
                        phis[nm(m.group(1))] = self.val(v, m.group(2), regs)
            regs.update(phis)
            for l in lines:
                self.steps += 1
                if self.steps > self.max:
                    raise Outside("too long")
                m = re.match(r"(?:%(" + NAME + r") = )?(?:tail |musttail |notail )?(\w+)\b(.*)", l)
                dst, op, rest = m.group(1) and nm(m.group(1)), m.group(2), m.group(3).strip()
                if op == "phi":
                    continue
                if op == "br":
                    ls = [nm(x) for x in re.findall(r"label (%" + NAME + r")", rest)]
                    if len(ls) == 1:
                        t = ls[0]
                    else:
                        c = self.val(re.match(r"i1 (\S+),", rest).group(1), "i1", regs)
                        t = ls[0] if c else ls[1]
                    prev, blk = blk, t
                    break
                if op == "switch":
                    mm = re.match(r"(i\d+) (\S+), label (%" + NAME + r")", rest)
                    v = self.val(mm.group(2), mm.group(1), regs)
                    t = nm(mm.group(3))
                    for k, lab in re.findall(r"i\d+ (-?\w+), label (%" + NAME + r")", rest[mm.end():]):
                        if self.val(k, mm.group(1), regs) == v:
                            t = nm(lab)
                            break
                    prev, blk = blk, t
                    break
                if op == "ret":
                    if rest.startswith("void"):
                        return None
                    ty, o = last_operand(rest.split(", !")[0])
                    return self.val(o, ty, regs)
                if op == "unreachable":
                    raise Outside("unreachable")
                x = self.step(op, rest, l, regs, cells, dst)
                if dst is not None:
                    regs[dst] = x
            else:
                raise Unknown("block without end")

    def val(self, o, ty, regs):
        o = o.rstrip(",")
        if o.startswith("%"):
            n = nm(o)
            if n not in regs:
                raise Unknown("register " + n)
            return regs[n]
        if o.startswith("@"):
            if nm(o) not in self.globals:
                raise Unknown("operand " + o)
            return self.globals[nm(o)]
        if o in ("true", "false"):
            return o == "true"
        if re.match(r"-?\d+$", o):
            return bool(int(o)) if ty == "i1" else int(o)
        if o in ("null", "undef", "poison"):
            raise Outside(o)
        raise Unknown("operand " + o)

    def fit(self, v, w):
        if not -(1 << (w - 1)) <= v < (1 << (w - 1)):
            raise Outside("overflow")
        return v

    def step(self, op, rest, line, regs, cells, dst):
        if op == "alloca":
            c = Cell(UNINIT, split_args(rest)[0])
            cells[dst] = c
            return c
        if op == "load":
            ty, o = last_operand(split_args(rest)[1])
            return self.val(o, ty, regs).get()
        if op == "store":
            a = split_args(rest)
            t1, o1 = last_operand(a[0])
            t2, o2 = last_operand(a[1])
            self.val(o2, t2, regs).set(self.val(o1, t1, regs))
            return None
        if op in ("add", "sub", "mul", "sdiv", "srem", "and", "or", "xor", "udiv", "urem", "shl", "ashr", "lshr"):
            m = re.match(r"(?:nsw |nuw |exact )*(i\d+) (\S+), (\S+)", rest)
            w = width(m.group(1))
            a, b = (self.val(m.group(i), m.group(1), regs) for i in (2, 3))
            if isinstance(a, bool) and op in ("and", "or", "xor"):
                return {"and": a and b, "or": a or b, "xor": a != b}[op]
            a, b = int(a), int(b)
            if op == "add":
                return self.fit(a + b, w)
            if op == "sub":
                return self.fit(a - b, w)
            if op == "mul":
                return self.fit(a * b, w)
            if op in ("sdiv", "srem"):
                if b == 0:
                    raise Outside("division by zero")
                if (a < 0 or b < 0) and self.trunc:
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return q if op == "sdiv" else a - b * q
                if a < 0 or b < 0:
                    raise Outside("negative division")
                return a // b if op == "sdiv" else a % b
            if op in ("udiv", "urem"):
                if b == 0 or a < 0 or b < 0:
                    raise Outside("division")
                return a // b if op == "udiv" else a % b
            if op == "shl":
                if not 0 <= b < w:
                    raise Outside("shift")
                return self.fit(a << b, w)
            if op in ("ashr", "lshr"):
                if not 0 <= b < w or op == "lshr" and a < 0:
                    raise Outside("shift")
                return a >> b
            return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        if op == "icmp":
            m = re.match(r"(\w+) (.*?) (\S+), (\S+)$", rest)
            p, ty = m.group(1), m.group(2)
            a, b = self.val(m.group(3), ty, regs), self.val(m.group(4), ty, regs)
            if p in ("eq", "ne"):
                return (a == b) == (p == "eq")
            if p[0] == "u":
                w = width(ty)
                a, b = int(a) % (1 << w), int(b) % (1 << w)
            return {"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p[1:]]
        if op in ("sext", "zext", "trunc", "bitcast"):
            m = re.match(r"(.*?) (\S+) to (.*)$", rest)
            v = self.val(m.group(2), m.group(1), regs)
            if op == "bitcast":
                return v
            w0, w1 = width(m.group(1)), width(m.group(3))
            if op == "trunc":
                return bool(v & 1) if w1 == 1 else self.fit(int(v), w1)
            if op == "zext":
                v = int(v)
                return v if v >= 0 else v % (1 << w0)
            return -int(v) if w0 == 1 else int(v)
        if op == "select":
            a = [last_operand(x) for x in split_args(rest)]
            c = self.val(a[0][1], "i1", regs)
            return self.val(a[1][1], a[1][0], regs) if c else self.val(a[2][1], a[2][0], regs)
        if op == "call":
            return self.call(line, regs)
        raise Unknown(op + ": " + line)

    def call(self, line, regs):
        m = re.search(r"@(" + NAME + r")\((.*)\)", line)
        if not m:
            raise Unknown("indirect call")
        raw = nm(m.group(1))
        s = line[line.index("@" + m.group(1)) + 1 + len(m.group(1)):]
        depth = 0
        for i, ch in enumerate(s):
            depth += (ch == "(") - (ch == ")")
            if depth == 0:
                break
        args = []
        for a in split_args(s[1:i]):
            ty, o = last_operand(a)
            args.append(self.val(o, ty, regs))
        full = demangle([raw])[0]
        b = base_name(full)
        self.calls.add(b)
        if b in self.uninterp:
            return self.uninterp[b](*args)
        if "::vector<" in full or full.startswith("std::__1::vector<"):
            return self.vector(b, args)
        if b == "newList":
            return ()
        if b == "listLength":
            return len(args[0])
        if b == "listGet":
            if not 0 <= args[1] < len(args[0]):
                raise Outside("element")
            return args[0][args[1]]
        if b == "listAppend":
            return args[0] + (args[1],)
        if b == "listConcat":
            return args[0] + args[1]
        if b == "set_create":
            return frozenset()
        if b == "set_add":
            return args[0] | {args[1]}
        if b == "set_remove":
            return args[0] - {args[1]}
        if b == "set_contains":
            return int(args[1] in args[0])
        if b == "MakeTuple":
            return TupV(args)
        if b == "tupleGet":
            if not 0 <= args[1] < len(args[0]):
                raise Outside("element")
            return args[0][args[1]]
        if raw in self.fns:
            f = self.fns[raw]
            r2, c2 = {}, {}
            for (ty, n, _), v in zip(f.params, args):
                r2[n] = v
            try:
                return self.call_body(f, r2, c2)
            except Unknown as e:
                raise Unknown(f"{e} in {full}") from None
        raise Unknown("call of " + full)

    def vector(self, b, args):
        if b == "vector":
            args[0].set(() if len(args) == 1 else args[1].get())
            return None
        if b == "~vector":
            return None
        if b == "push_back":
            args[0].set(args[0].get() + (args[1].get(),))
            return None
        if b == "size":
            return len(args[0].get())
        if b == "operator[]":
            e = Elem(args[0], args[1])
            e.get()
            return e
        raise Unknown("vector::" + b)
