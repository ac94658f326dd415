"""Random C++ functions for the LLVM front end: a supported subset, and `wild` functions that also use constructs which may
be rejected but must not be misread."""

VECTOR_H = r"""
#pragma once
namespace std { inline namespace __1 {
typedef unsigned long size_t;
template <class T> struct allocator {};
template <class T, class A = allocator<T> > class vector {
  T *p; size_t n;
public:
  vector() noexcept;
  vector(const vector &);
  vector(vector &&) noexcept;
  vector &operator=(const vector &);
  ~vector();
  void push_back(const T &);
  void push_back(T &&);
  void pop_back();
  void clear() noexcept;
  void resize(size_t);
  size_t size() const noexcept;
  bool empty() const noexcept;
  T &operator[](size_t);
  const T &operator[](size_t) const;
  T &back();
};
} }
"""
TUPLE_H = r"""
#pragma once
namespace std { inline namespace __1 {
typedef unsigned long size_t;
template <bool B, class T = void> struct enable_if {};
template <class T> struct enable_if<true, T> { typedef T type; };
template <class... T> struct tuple { int x[sizeof...(T)]; };
template <class... T> tuple<T...> make_tuple(T... a);
template <size_t I, class... T> int &get(tuple<T...> &t);
} }
"""
PRELUDE = """#include "list.h"
#include "tuples.h"
extern "C" {
#include "set.h"
}
int uf(int a, int b);
int G;
void touch(int &x);
int helper(int x) { return x + 1; }
"""
CTY = {"int": "int", "list": "List<int>", "vec": "std::vector<int>", "mat": "std::vector<std::vector<int> >", "set": "set*", "bool": "bool"}


class Gen:
    def __init__(self, rng, name, wild=False, opts=None):
        self.r, self.name, self.wild = rng, name, wild
        self.o = {"depth": 3, **(opts or {})}
        self.lines, self.feat, self.n = [], set(), 0
        self.params, self.ret = [], "int"
        self.wildused = set()
        self.frozen = set()

    # -- names
    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def of(self, sc, t):
        return [v for v, ty in sc if ty == t]

    # -- expressions
    def iexpr(self, sc, d=2):
        r, k, F = self.r, self.r.random(), self.feat
        ints = self.of(sc, "int")
        if d <= 0 or k < .34:
            return r.choice(ints) if ints and r.random() < .78 else str(r.choice([0, 1, 2, 3, 5, 7]))
        if k < .64:
            F.add("arith")
            return f"({self.iexpr(sc, d - 1)} {r.choice('+-+-*')} {self.iexpr(sc, d - 1)})"
        if k < .68:
            F.add("neg")
            return f"(- {self.iexpr(sc, d - 1)})" if r.random() < .5 else str(-r.randint(1, 4))
        opts = []
        for t, f in (("list", self.list_e), ("vec", self.vec_e), ("mat", self.mat_e), ("tup", self.tup_e), ("tup3", self.tup3_e)):
            if self.of(sc, t):
                opts += [(t, f)] * 2
        opts += [("uf", None), ("div", None)]
        if self.wild:
            opts += [("wild", None)] * 2
        t, f = r.choice(opts)
        if f:
            F.add(t)
            return f(sc, d)
        if t == "uf":
            F.add("uninterp")
            return f"uf({self.iexpr(sc, d - 1)}, {self.iexpr(sc, d - 1)})"
        if t == "div":
            F.add("div")
            return f"({self.iexpr(sc, d - 1)} {r.choice('/%')} {r.choice('234')})"
        return self.wild_i(sc, d)

    def list_e(self, sc, d):
        l = self.r.choice(self.of(sc, "list"))
        return f"listLength({l})" if self.r.random() < .4 else f"listGet({l}, {self.iexpr(sc, d - 1)})"

    def vec_e(self, sc, d):
        v = self.r.choice(self.of(sc, "vec"))
        return f"(int){v}.size()" if self.r.random() < .4 else f"{v}[{self.iexpr(sc, d - 1)}]"

    def mat_e(self, sc, d):
        v = self.r.choice(self.of(sc, "mat"))
        k = self.r.random()
        if k < .3:
            return f"(int){v}.size()"
        i = self.iexpr(sc, d - 1) if self.r.random() < .6 else "0"
        return f"(int){v}[{i}].size()" if k < .6 else f"{v}[{i}][{self.iexpr(sc, d - 1)}]"

    def tup_e(self, sc, d):
        return f"tupleGet({self.r.choice(self.of(sc, 'tup'))}, {self.r.randint(0, 1)})"

    def tup3_e(self, sc, d):
        self.feat.add("tuple3")
        return f"tupleGet({self.r.choice(self.of(sc, 'tup3'))}, {self.r.randint(0, 2)})"

    def wild_i(self, sc, d):
        r = self.r
        ints = self.of(sc, "int")
        e = lambda: self.iexpr(sc, d - 1)
        k, t = r.choice([
            ("ternary", lambda: f"({self.cond(sc, 1)} ? {e()} : {e()})"), ("cond-value", lambda: f"({self.cmp(sc, 1)})"),
            ("not-value", lambda: f"(!{e()})"), ("and-value", lambda: f"({e()} && {e()})"), ("bits", lambda: f"({e()} {r.choice('&|^')} {r.randint(1, 7)})"),
            ("shift", lambda: f"({e()} {r.choice(['<<', '>>'])} {r.randint(0, 3)})"), ("char", lambda: f"(int)(char){e()}"),
            ("long", lambda: f"(int)((long){e()} * 2)"), ("helper", lambda: f"helper({e()})"), ("global", lambda: "G"),
            ("unsigned", lambda: f"(int)((unsigned){e()} / 2u)"), ("short", lambda: f"(int)(short){e()}"),
            ("preinc", lambda: f"(++{r.choice(ints)})" if ints else "0"), ("postinc", lambda: f"({r.choice(ints)}--)" if ints else "0"),
            ("assign-value", lambda: f"({r.choice(ints)} = {e()})" if ints else "0"), ("comma", lambda: f"({e()}, {e()})"),
            ("udiv", lambda: f"(int)({e()} % 3u)"), ("empty", lambda: f"(int){r.choice(self.of(sc, 'vec'))}.empty()" if self.of(sc, "vec") else "0"),
            ("back", lambda: f"{r.choice(self.of(sc, 'vec'))}.back()" if self.of(sc, "vec") else "0"),
            ("listConcat", lambda: "listLength(listConcat({0}, {0}))".format(r.choice(self.of(sc, 'list'))) if self.of(sc, "list") else "0"),
        ])
        if k in ("preinc", "postinc", "assign-value") and any(v in self.frozen for v in ints):
            return "1"
        self.wildused.add(k)
        return t()

    def cmp(self, sc, d=1):
        r = self.r
        if r.random() < .12 and self.of(sc, "set"):
            self.feat.add("contains")
            return f"set_contains({r.choice(self.of(sc, 'set'))}, {self.iexpr(sc, 1)})"
        if r.random() < .1 and self.of(sc, "vec"):
            self.feat.add("ult")
            return f"{self.iexpr(sc, d)} < {r.choice(self.of(sc, 'vec'))}.size()"
        if self.wild and r.random() < .08:
            self.wildused.add("unsigned-cmp")
            return f"(unsigned){self.iexpr(sc, d)} {r.choice(['<', '<=', '>', '>='])} (unsigned){self.iexpr(sc, d)}"
        if self.wild and self.of(sc, "bool") and r.random() < .4:
            self.wildused.add("bool-cond")
            return r.choice(["", "!"]) + r.choice(self.of(sc, "bool"))
        return f"{self.iexpr(sc, d)} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {self.iexpr(sc, d)}"

    def cond(self, sc, d=2):
        k = self.r.random()
        if d <= 0 or k < .68:
            return self.cmp(sc)
        if self.wild and k < .73:
            self.wildused.add("not")
            return f"!({self.cond(sc, d - 1)})"
        self.feat.add("logic")
        return f"({self.cond(sc, d - 1)}) {self.r.choice(['&&', '||'])} ({self.cond(sc, d - 1)})"

    # -- statements
    def emit(self, ind, s):
        self.lines.append("  " * ind + s)

    def assignable(self, sc, t):
        return [v for v in self.of(sc, t) if v not in self.frozen]

    def block(self, sc, ind, d, n, loop):
        sc = list(sc)
        for _ in range(n):
            self.stmt(sc, ind, d, loop)
        return sc

    def stmt(self, sc, ind, d, loop):
        r, k, F = self.r, self.r.random(), self.feat
        if self.wild and r.random() < .12:
            return self.wild_s(sc, ind, d, loop)
        if k < .2:
            x = self.fresh("x")
            self.emit(ind, f"int {x} = {self.iexpr(sc)};")
            sc.append((x, "int"))
        elif k < .5 and self.assignable(sc, "int"):
            x = r.choice(self.assignable(sc, "int"))
            op = r.choice(["=", "=", "+=", "-="])
            if op != "=":
                F.add("compound")
            self.emit(ind, f"{x} {op} {self.iexpr(sc)};" if r.random() < .85 else f"{x}{r.choice(['++', '--'])};")
        elif k < .66:
            self.coll(sc, ind)
        elif k < .82 and d > 0:
            F.add("if")
            self.emit(ind, f"if ({self.cond(sc)}) {{")
            self.block(sc, ind + 1, d - 1, r.randint(1, 2), loop)
            if r.random() < .6:
                self.emit(ind, "} else {")
                self.block(sc, ind + 1, d - 1, r.randint(1, 2), loop)
            self.emit(ind, "}")
        elif k < .93 and d > 0 and self.o.get("loops", 2) > 0 and ind < 4:
            self.o["loops"] = self.o.get("loops", 2) - 1
            self.loop(sc, ind, d)
        elif loop and r.random() < .6:
            w = r.choice(["break", "continue"])
            if w == "continue" and loop == "nocontinue":
                w = "break"
            F.add(w)
            self.emit(ind, f"if ({self.cond(sc, 1)}) {w};")
        elif self.ret == "int" and not self.has_vec and self.o.get("early", True) and ind > 1:
            F.add("early-return")
            self.emit(ind, f"if ({self.cond(sc, 1)}) return {self.iexpr(sc)};")
        else:
            x = self.fresh("x")
            self.emit(ind, f"int {x} = {self.iexpr(sc)};")
            sc.append((x, "int"))

    def coll(self, sc, ind):
        r, F = self.r, self.feat
        opts = []
        if self.assignable(sc, "list"):
            opts += ["append"] * 3
        if self.assignable(sc, "vec"):
            opts += ["push"] * 3
        if self.assignable(sc, "set"):
            opts += ["setop"] * 3
        if self.o.get("tuples") and len(self.of(sc, "tup")) < 2:
            opts += ["tuple"]
        if self.o.get("lists"):
            opts += ["newlist"]
        k = r.choice(opts) if opts else "none"
        if k == "append":
            F.add("append")
            l, m = r.choice(self.assignable(sc, "list")), r.choice(self.of(sc, "list"))
            self.emit(ind, f"{l} = listAppend({m}, {self.iexpr(sc)});")
        elif k == "push":
            F.add("push_back")
            self.emit(ind, f"{r.choice(self.assignable(sc, 'vec'))}.push_back({self.iexpr(sc)});")
        elif k == "setop":
            F.add("setop")
            s, t = r.choice(self.assignable(sc, "set")), r.choice(self.of(sc, "set"))
            e = r.random()
            self.emit(ind, f"{s} = set_create();" if e < .15 else f"{s} = set_{r.choice(['add', 'remove'])}({t}, {self.iexpr(sc)});")
        elif k == "tuple":
            F.add("tuple")
            t = self.fresh("t")
            k = r.choice([2, 2, 3])
            if k == 3:                          # may be rejected: the struct's name does not tell its arity, and two paths meet as pairs
                self.wildused.add("tuple3")
            self.emit(ind, f"Tuple<{', '.join(['int'] * k)}> {t} = MakeTuple({', '.join(self.iexpr(sc) for _ in range(k))});")
            sc.append((t, "tup" if k == 2 else "tup3"))
        elif k == "newlist":
            F.add("newlist")
            l = self.fresh("l")
            src = self.of(sc, "list")
            self.emit(ind, f"List<int> {l} = {r.choice(src) if src and r.random() < .4 else 'newList<int>()'};")
            sc.append((l, "list"))
        else:
            x = self.fresh("x")
            self.emit(ind, f"int {x} = {self.iexpr(sc)};")
            sc.append((x, "int"))

    def loop(self, sc, ind, d):
        r, F = self.r, self.feat
        F.add("loop" if ind == 1 else "nested-loop")
        k = r.random()
        fr = set(self.frozen)
        if k < .5:
            F.add("for")
            i = self.fresh("i")
            bounds = [str(r.randint(1, 4))] + self.of(sc, "int") + [f"listLength({l})" for l in self.of(sc, "list")] + \
                [f"{v}.size()" for v in self.of(sc, "vec")] + [f"(int){v}.size()" for v in self.of(sc, "mat")]
            b = r.choice(bounds)
            if ".size()" in b:
                F.add("size-bound")
                self.frozen.add(b.split(".")[0].replace("(int)", ""))
            elif "listLength" in b:
                self.frozen.add(b[11:-1])
            else:
                self.frozen.add(b)
            if r.random() < .5:
                self.emit(ind, f"for (int {i} = {r.choice(['0', '0', '1'])}; {i} < {b}; {i}++) {{")
            else:
                self.emit(ind, f"int {i} = 0;")
                self.emit(ind, f"for (; {i} {'<' if '.size' in b else r.choice(['<', '<', '!='])} {b}; {i} = {i} + 1) {{")
                sc.append((i, "int"))
            self.frozen.add(i)
            self.block(sc + [(i, "int")], ind + 1, d - 1, r.randint(1, 3), "for")
        elif k < .78:
            F.add("while")
            i = self.fresh("w")
            self.emit(ind, f"int {i} = {self.iexpr(sc, 1)};")
            sc.append((i, "int"))
            both = self.wild and r.random() < .3
            if both:
                self.wildused.add("loop-logic")
            self.emit(ind, f"while ({i} > {r.choice(['0', '1', '-1'])}{' && ' + self.cmp(sc) if both else ''}) {{")
            self.frozen.add(i)
            first = r.random() < .5
            if first:
                self.emit(ind + 1, f"{i} = {i} - {r.choice('112')};")
            self.block(sc, ind + 1, d - 1, r.randint(1, 3), True if first else "nocontinue")
            if not first:
                self.emit(ind + 1, f"{i} -= {r.choice('112')};")
        else:
            F.add("do-while")
            i = self.fresh("w")
            self.emit(ind, f"int {i} = {self.iexpr(sc, 1)};")
            sc.append((i, "int"))
            self.emit(ind, "do {")
            self.frozen.add(i)
            self.emit(ind + 1, f"{i} = {i} - {r.choice('12')};")
            self.block(sc, ind + 1, d - 1, r.randint(1, 3), True)
            self.frozen = fr
            self.emit(ind, f"}} while ({i} > {r.choice('01')});")
            return
        self.frozen = fr
        self.emit(ind, "}")

    def wild_s(self, sc, ind, d, loop):
        r = self.r
        e = lambda: self.iexpr(sc)
        ints, vecs, mats = self.assignable(sc, "int"), self.assignable(sc, "vec"), self.assignable(sc, "mat")
        opts = []
        if ints:
            x = r.choice(ints)
            opts += [("reference", f"{{ int &q = {x}; q = {e()}; }}"), ("pointer", f"{{ int *q = &{x}; *q = {e()}; }}"), ("touch", f"touch({x});"),
                     ("read-reference", f"{{ int &q = {x}; {x} = {e()}; {r.choice(ints)} = q; }}"),
                     ("switch", f"switch ({e()}) {{ case 0: {x} = {e()}; break; case 1: {x} = 2; default: {x} = {e()}; }}"),
                     ("array", f"{{ int a[3]; a[1] = {e()}; {x} = a[1]; }}"), ("global-store", f"G = {e()}; {x} = G + 1;"),
                     ("char-var", f"{{ char q = {e()}; {x} = q; }}"), ("bool-const", f"{{ bool q = {r.choice(['true', 'false'])}; if (q) {x} = {e()}; }}"),
                     ("unsigned-var", f"{{ unsigned q = {e()}; {x} = q; }}"), ("swap-ref", f"{{ int &q = {x}; int y = q; {x} = y + 1; {x} = q; }}"),
                     ("goto", f"{{ if ({self.cond(sc, 1)}) goto L{self.n}; {x} = {e()}; L{self.n}: ; }}"),
                     ("static", f"{{ static int q = 1; {x} = q; }}")]
        if vecs:
            v = r.choice(vecs)
            opts += [("element-store", f"{v}[{e()}] = {e()};"), ("pop_back", f"{v}.pop_back();"), ("clear", f"{v}.clear();"),
                     ("vec-ref", f"{{ {CTY['vec']} &q = {v}; q.push_back({e()}); }}"), ("vec-copy", f"{{ {CTY['vec']} q = {v}; q.push_back({e()}); }}"),
                     ("vec-assign", f"{v} = {r.choice(vecs)};"), ("resize", f"{v}.resize({e()});"), ("vec-elem-ref", f"{{ int &q = {v}[0]; q = {e()}; }}"),
                     ("vec-read-ref", f"{{ const {CTY['vec']} &q = {v}; {v}.push_back({e()}); G = q.size(); if (q.size() > 2) {v}.push_back(q.size()); }}")]
        if mats:
            m = r.choice(mats)
            opts += [("row-push", f"{m}[0].push_back({e()});"), ("row-ref", f"{{ {CTY['vec']} &q = {m}[0]; q.push_back({e()}); }}"),
                     ("mat-store", f"{m}[0][0] = {e()};")]
        b = self.fresh("b")
        opts += [("bool-var", None)]
        k, t = r.choice(opts)
        self.n += 1
        self.wildused.add(k)
        if k == "bool-var":
            self.emit(ind, f"bool {b} = {self.cond(sc, 1)};")
            sc.append((b, "bool"))
        else:
            self.emit(ind, t)

    # -- functions
    def gen(self):
        r = self.r
        kind = r.choice(["int"] * 4 + ["list", "list", "vec", "vec", "mat", "set", "bool"])
        self.ret = {"vec": r.choice(["vec", "vec", "int"]), "mat": r.choice(["mat", "int", "vec"]), "list": r.choice(["list", "int"]), "set": "set"}.get(kind, kind)
        self.has_vec = self.ret in ("vec", "mat")
        n = r.randint(1, 3)
        self.params = [(f"p{i}", "int") for i in range(n)]
        if kind in ("list", "vec", "mat", "set"):
            self.params.insert(r.randint(0, n), ({"list": "lp", "vec": "vp", "mat": "mp", "set": "sp"}[kind], kind))
            if r.random() < .2:
                self.params.append(("z" + kind, kind))
        if r.random() < .5 and kind in ("int", "list", "bool"):
            self.o["tuples"] = r.random() < .3
        self.o["lists"] = kind == "list"
        ps = ", ".join(f"{CTY[t]} {p}" for p, t in self.params)
        self.emit(0, f"{CTY[self.ret]} {self.name}({ps}) {{")
        sc = list(self.params)
        self.frozen = {p for p, t in sc if t in ("vec", "mat")}
        if r.random() < .5:
            self.frozen |= {p for p, t in sc}
        out = None
        if self.ret == "list" and r.random() < .8:
            out = ("ol", "list")
            self.emit(1, "List<int> ol = newList<int>();")
        elif self.ret in ("vec", "mat"):
            out = ("ov", self.ret)
            self.emit(1, f"{CTY[self.ret]} ov;")
        if out:
            sc.append(out)
            if out[1] == "mat":
                self.frozen.add("ov")
        self.o["loops"] = r.choice([0, 1, 1, 2, 2, 3])
        for _ in range(r.randint(2, 5)):
            self.stmt(sc, 1, self.o["depth"], None)
            if out and out[1] == "mat" and r.random() < .5:
                self.matloop(sc)
        if out and out[1] == "mat":
            self.matloop(sc)
        if self.ret == "bool":
            if self.wild and r.random() < .5:
                self.wildused.add("logic-value")
                self.emit(1, f"return {self.cond(sc)};")
            else:
                self.emit(1, f"return {self.cmp(sc)};")
        elif out:
            self.emit(1, f"return {out[0]};")
        else:
            opts = self.of(sc, self.ret)
            self.emit(1, f"return {r.choice(opts)};" if opts and (self.ret != "int" or r.random() < .5) else f"return {self.iexpr(sc)};")
        self.emit(0, "}")
        return self

    def matloop(self, sc):
        r = self.r
        self.feat.add("mat-build")
        i, row = self.fresh("i"), self.fresh("row")
        b = r.choice(["2", "(int)mp.size()", "mp.size()"]) if any(p == "mp" for p, _ in self.params) else "2"
        self.emit(1, f"for (int {i} = 0; {i} < {b}; {i}++) {{")
        self.emit(2, f"{CTY['vec']} {row};")
        self.frozen.add(i)
        s2 = sc + [(i, "int"), (row, "vec")]
        if r.random() < .6:
            j = self.fresh("j")
            bb = r.choice(["2", "p0"] + ([f"mp[{i}].size()"] if b != "2" else []))
            self.emit(2, f"for (int {j} = 0; {j} < {bb}; {j}++) {{")
            self.frozen |= {j, "p0"}
            e = f"mp[{i}][{j}] + {self.iexpr(s2 + [(j, 'int')], 1)}" if "mp[" in bb else self.iexpr(s2 + [(j, "int")])
            self.emit(3, f"{row}.push_back({e});")
            self.emit(2, "}")
        else:
            self.emit(2, f"{row}.push_back({self.iexpr(s2)});")
        self.emit(2, f"ov.push_back({row});")
        self.emit(1, "}")

    def text(self):
        return "\n".join(self.lines)


# every construct outside the subset on its own: it may be rejected, otherwise the conditions must be exact.
# name: (parameters, statements); must-reject constructs end in "!"
I, V, M, L, B, B2 = ("p0", "int"), ("vp", "vec"), ("mp", "mat"), ("lp", "list"), ("bp", "bool"), ("cp", "bool")
# constructs of DIRECTED that the front end has to take
SUPPORTED = ["triple-0", "triple-1", "triple-2", "not", "int-condition", "bool-loop", "goto", "infinite-loop", "comma", "push-row-twice", "append-keeps", "append-alias",
             "size-minus-one", "count-down", "same-name", "loop-after-loop", "conditional-loop", "early-return-loop", "returns-in-branches",
             "label-latch", "label-header", "bool-constants", "bool-list-loop", "nested-same-latch", "nested-break-outer", "nested-continue",
             "loop-in-both-branches", "loop-modified-after", "three-deep", "two-returns-in-loop", "vector-result-aliases"]
DIRECTED = {
    "reference": ([I], "int x = 1; { int &q = x; q = p0; } return x;"),
    "pointer": ([I], "int x = 1; { int *q = &x; *q = p0; } return x;"),
    "reference-read": ([I], "int x = 1; int &q = x; x = p0; return q;"),
    "parameter-reference": ([I], "int &q = p0; q = q + 1; return p0;"),
    "triple-0": ([I, ("p1", "int")], "Tuple<int, int, int> t = MakeTuple(p0, p1, p0 + p1); return tupleGet(t, 0);"),
    "triple-1": ([I, ("p1", "int")], "Tuple<int, int, int> t = MakeTuple(p0, p1, p0 + p1); return tupleGet(t, 1);"),
    "triple-2": ([I, ("p1", "int")], "Tuple<int, int, int> t = MakeTuple(p0, p1, p0 + p1); return tupleGet(t, 2);"),
    "reference-prefix": ([I], "int x = 1; int &x2 = x; x2 = p0; return x;"),
    "reference-vector-prefix": ([I], "std::vector<int> q; std::vector<int> &q2 = q; q2.push_back(p0); return (int)q.size();"),
    "reference-parameter-prefix": ([V, I], "std::vector<int> &vp2 = vp; vp2.push_back(p0); return (int)vp.size();"),
    "reference-parameter-prefix-int": ([I], "int &p02 = p0; p02 = p02 + 1; return p0;"),
    "pointer-to-pointer": ([I], "int x = 1; int *q = &x; int **z = &q; **z = p0; return x;"),
    "pointer-retarget": ([I], "int x = 1; int y = 2; int *q = &x; if (p0 > 0) q = &y; *q = p0; return x;"),
    "unknown-effects!": ([I], "int x = 1; touch(x); return x;"),
    "unknown-loop!": ([I], "int x = 1; for (int i = 0; i < p0; i++) { touch(x); } return x;"),
    "unknown-branch!": ([I], "int x = 1; if (p0 > 2) { touch(x); } return x;"),
    "helper": ([I], "return helper(p0);"),
    "helper-twice": ([I], "int x = helper(p0); return helper(x) + helper(p0);"),
    "switch": ([I], "int x = 0; switch (p0) { case 0: x = 5; break; case 1: x = 2; default: x = x + 1; } return x;"),
    "array": ([I], "int a[3]; a[0] = 1; a[1] = p0; return a[1] + a[0];"),
    "global": ([I], "G = p0; return G + 1;"),
    "global-read": ([I], "return G + p0;"),
    "static": ([I], "static int q = 1; return q + p0;"),
    "char": ([I], "char q = p0; return q;"),
    "char-constant": ([I], "char q = 0; if (p0 > 0) q = 1; return q;"),
    "unsigned-char": ([I], "unsigned char q = 200; return q + p0;"),
    "short": ([I], "short q = p0; return q + 1;"),
    "long": ([I], "long q = p0; return (int)(q * 2);"),
    "unsigned-compare": ([I], "unsigned q = p0; if (q > 2u) return 1; return 0;"),
    "unsigned-compare-ge": ([I], "if ((unsigned)p0 >= (unsigned)(p0 - 3)) return 1; return 0;"),
    "unsigned-divide": ([I], "return (int)((unsigned)p0 / 2u);"),
    "ternary": ([I], "return p0 > 1 ? p0 : 3;"),
    "and-value": ([I], "int x = p0 > 1 && p0 < 4; return x;"),
    "not": ([I], "if (!(p0 > 1)) return 1; return 0;"),
    "not-value": ([I], "return !p0;"),
    "int-condition": ([I], "if (p0) return 1; return 0;"),
    "xor": ([I], "return p0 ^ 5;"),
    "shift": ([I], "return p0 << 2;"),
    "mask": ([I], "return p0 & 3;"),
    "or": ([I], "return p0 | 3;"),
    "bool-variable": ([I], "bool q = p0 > 1; if (q) return 1; return 0;"),
    "bool-and": ([I], "bool q = p0 > 1; bool z = p0 < 4; bool y = q && z; if (y) return 1; return 0;"),
    "bool-to-int": ([I], "bool q = p0 > 1; int x = q; return x + 1;"),
    "bool-loop": ([I], "bool q = true; int x = 0; while (q) { x = x + 1; if (x > p0) q = false; } return x;"),
    "goto": ([I], "int x = 0; if (p0 > 1) goto L; x = 2; L: x = x + 1; return x;"),
    "loop-condition": ([I], "int x = 0; while (x < p0 && x < 3) x = x + 1; return x;"),
    "loop-condition-or": ([I], "int x = 0; while (x < p0 || x < 3) x = x + 1; return x;"),
    "infinite-loop": ([I], "int x = 0; for (;;) { x = x + 1; if (x > p0) return x; }"),
    "comma": ([I], "int x; x = (p0 = p0 + 1, p0); return x + p0;"),
    "element-store": ([V, I], "vp[0] = p0; return vp[0];"),
    "element-compound": ([V], "vp[0] += 1; return vp[0];"),
    "element-reference": ([V, I], "int &q = vp[0]; q = p0; return vp[0];"),
    "element-read-reference": ([V, I], "const int &q = vp[0]; return q + p0;"),
    "element-swap": ([V], "int t = vp[0]; vp[0] = vp[1]; vp[1] = t; return vp[0];"),
    "pop-back": ([V], "vp.pop_back(); return (int)vp.size();"),
    "clear": ([V], "vp.clear(); return (int)vp.size();"),
    "resize": ([V], "vp.resize(2); return (int)vp.size();"),
    "empty": ([V], "if (vp.empty()) return 1; return 0;"),
    "back": ([V], "return vp.back();"),
    "vector-reference": ([V, I], "std::vector<int> &q = vp; q.push_back(p0); return (int)vp.size();"),
    "vector-copy": ([V, I], "std::vector<int> q = vp; q.push_back(p0); return (int)vp.size();"),
    "vector-copy-used": ([V, I], "std::vector<int> q = vp; q.push_back(p0); return (int)q.size();"),
    "vector-assign": ([V, I], "std::vector<int> q; q = vp; q.push_back(p0); return (int)vp.size();"),
    "vector-pointer": ([V, I], "std::vector<int> *q = &vp; q->push_back(p0); return (int)vp.size();"),
    "row-push": ([M, I], "mp[0].push_back(p0); return (int)mp[0].size();"),
    "row-reference": ([M, I], "std::vector<int> &q = mp[0]; q.push_back(p0); return (int)mp[0].size();"),
    "row-copy": ([M, I], "std::vector<int> q = mp[0]; q.push_back(p0); return (int)mp[0].size();"),
    "matrix-store": ([M, I], "mp[0][0] = p0; return mp[0][0];"),
    "push-row-twice": ([V, I], "std::vector<std::vector<int> > o; std::vector<int> r; r.push_back(p0); o.push_back(r); r.push_back(p0); o.push_back(r); return (int)o[0].size();"),
    "append-keeps": ([L, I], "List<int> o = listAppend(lp, p0); return listLength(lp);"),
    "append-alias": ([L, I], "List<int> o = lp; o = listAppend(o, p0); return listLength(lp) * 10 + listLength(o);"),
    "concat": ([L], "return listLength(listConcat(lp, lp));"),
    "narrow-loop": ([I], "int s = 0; for (unsigned i = 0; i < 3u; i++) s += p0; return s;"),
    "size-minus-one": ([V], "int s = 0; for (int i = 0; i < vp.size() - 1; i++) s = s + vp[i]; return s;"),
    "size-compare-negative": ([V, I], "if (p0 < vp.size()) return 1; return 0;"),
    "count-down": ([V], "int s = 0; for (int i = (int)vp.size() - 1; i >= 0; i--) s = s + vp[i]; return s;"),
    "same-name": ([I], "int s = 0; { int i = 2; s = s + i; } for (int i = 0; i < 2; i++) { int s = p0; } for (int i = 0; i < 3; i++) s = s + i; return s;"),
    "loop-after-loop": ([I], "int i = 0; while (i < 2) i = i + 1; int j = i; while (i < p0) i = i + 1; return i * 10 + j;"),
    "conditional-loop": ([I], "int x = 0; if (p0 > 1) { while (x < p0) x = x + 1; } else { while (x > p0) x = x - 1; } return x;"),
    "early-return-loop": ([V, I], "for (int i = 0; i < (int)vp.size(); i++) { if (vp[i] == p0) return i; } return -1;"),
    "label-latch": ([I], "int s = 0; int q = 0; for (int i = 0; i < 3; i++) { if (p0 > 2) goto xlatch1; s = s + 1; xlatch1: q = q + p0; s = s + 1; } return s * 10 + q;"),
    "label-header": ([I], "int s = 0; int q = 0; for (int i = 0; i < 3; i++) { if (p0 > 2) goto header2; s = s + 1; header2: q = q + p0; if (q > 4) break; } return s * 10 + q;"),
    "bool-constants": ([I], "bool q = false; int x = 0; if (p0 > 1) q = true; if (q) x = 3; while (!false) { if (x > p0) break; x = x + 1; } return x;"),
    "bool-list-loop": ([V], "bool q = true; int i = 0; int x = 0; while (q) { if (i >= (int)vp.size()) { q = false; } else { x = x + vp[i]; i = i + 1; } } return x;"),
    "bool-parameter": ([B, I], "int x = 0; while (x < p0) { if (bp) x = x + 2; else { x = x + 1; bp = true; } } return x;"),
    "bool-parameters": ([B, B2], "int x = 0; if (bp) { if (cp) x = 1; else x = 2; } return x;"),
    "nested-same-latch": ([I], "int x = 0; int i = 0; while (i < 3) { int j = 0; while (j < i) { x = x + p0; j = j + 1; } i = i + 1; } return x;"),
    "nested-break-outer": ([V], "int x = 0; for (int i = 0; i < (int)vp.size(); i++) { for (int j = 0; j < i; j++) { if (vp[j] == vp[i]) goto done; x = x + 1; } } done: return x;"),
    "nested-continue": ([I], "int x = 0; for (int i = 0; i < 3; i++) { if (i == p0) continue; for (int j = 0; j < 2; j++) { if (j == p0) continue; x = x + 1; } } return x;"),
    "loop-in-both-branches": ([I], "int x = 0; int y = 0; if (p0 > 2) { for (int i = 0; i < p0; i++) x = x + 2; } else { for (int i = 0; i < 3; i++) y = y + p0; } return x * 100 + y;"),
    "loop-modified-after": ([I], "int x = 0; int y = 1; while (x < p0) { x = x + y; y = 2; } y = y + x; while (y < 9) y = y + x + 1; return y;"),
    "three-deep": ([I], "int s = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) s = s + p0; return s;"),
    "two-returns-in-loop": ([V, I], "for (int i = 0; i < (int)vp.size(); i++) { if (vp[i] == p0) return i; if (vp[i] > p0) return 0 - i; } return 77;"),
    "vector-result-aliases": ([V, I], "std::vector<int> o; for (int i = 0; i < (int)vp.size(); i++) { if (vp[i] > p0) { o.push_back(vp[i]); o.push_back(p0); } } return (int)o.size();"),
    "returns-in-branches": ([I], "if (p0 > 2) { if (p0 > 4) return 1; return 2; } else { while (p0 < 2) p0 = p0 + 1; return p0; }"),
}


def value(r, t):
    if t.startswith("big"):
        v = value(r, t[3:])
        f = r.choice([lambda x: x, lambda x: abs(x) * 9, lambda x: abs(x) + 14])
        return tuple(tuple(f(x) for x in w) if isinstance(w, tuple) else f(w) for w in v)
    if t == "int":
        return r.choice([r.randint(-2, 4), r.randint(0, 3), r.randint(-3, 6)])
    if t == "bool":
        return r.random() < .5
    if t in ("list", "vec"):
        return tuple(r.randint(-2, 4) for _ in range(r.randint(0, 4)))
    if t == "mat":
        k = r.randint(1, 3)
        return tuple(tuple(r.randint(-2, 4) for _ in range(k)) for _ in range(r.randint(1, 3)))
    if t == "set":
        return frozenset(r.randint(-1, 4) for _ in range(r.randint(0, 3)))
