"""Random LLVM IR modules (typed pointers, LLVM 14) with observable control flow, and random C programs."""

HEAD = """@h = global i64 0
@fuel = global i64 0
@mem = global [8 x i64] zeroinitializer
@fmt = private constant [16 x i8] c"%lld %lld %lld\\0A\\00"
@fmtn = private constant [5 x i8] c"[%s]\\00"
declare i32 @printf(i8*, ...)

define void @mark(i64 %id) {
  %o = load i64, i64* @h
  %m = mul i64 %o, 31
  %n = add i64 %m, %id
  store i64 %n, i64* @h
  ret void
}

define i64 @digest() {
entry:
  br label %l
l:
  %i = phi i64 [ 0, %entry ], [ %i2, %l ]
  %a = phi i64 [ 7, %entry ], [ %a3, %l ]
  %p = getelementptr [8 x i64], [8 x i64]* @mem, i64 0, i64 %i
  %v = load i64, i64* %p
  store i64 0, i64* %p
  %a2 = mul i64 %a, 131
  %a3 = add i64 %a2, %v
  %i2 = add i64 %i, 1
  %c = icmp slt i64 %i2, 8
  br i1 %c, label %l, label %e
e:
  ret i64 %a3
}

define i1 @alive() {
  %f = load i64, i64* @fuel
  %g = sub i64 %f, 1
  store i64 %g, i64* @fuel
  %c = icmp sgt i64 %g, 0
  ret i1 %c
}
"""


def function(r, name, feats):
    """-> IR text of i64 @name(i64, i64, i64); feats counts what was generated."""
    n = r.randint(2, 9)
    names = ["entry"] + [r.choice([f"b{i}", f"if.then{i}", f"for.body.{i}", f'"q {i}"', f'"{i+100}x"']) for i in range(1, n)]
    term = {}
    rets = {n - 1} | {i for i in range(1, n) if r.random() < .12}
    for i in range(n):
        if i in rets:
            term[i] = ("ret",)
            continue
        tgt = lambda: r.randrange(1, n) if r.random() < .45 else min(n - 1, i + r.randint(1, 2))
        k = r.random()
        if k < .15:
            term[i] = ("br", tgt())
        elif k < .72:
            a, b = tgt(), tgt()
            if r.random() < .18:
                b = a
            term[i] = ("cond", a, b)
        else:
            term[i] = ("switch", tgt(), [(v, tgt()) for v in r.sample(range(-2, 4), r.randint(0, 4))])
    heads = set()
    edges = []
    for i, t in term.items():
        ts = [] if t[0] == "ret" else [t[1]] if t[0] == "br" else list(t[1:]) if t[0] == "cond" else [t[1]] + [x for _, x in t[2]]
        for x in ts:
            edges.append((i, x))
            if x <= i:
                heads.add(x)
    seen = {0}
    work = [0]
    while work:
        i = work.pop()
        for a, b in edges:
            if a == i and b not in seen:
                seen.add(b)
                work.append(b)
    ids = {i: r.randint(2, 30) for i in range(n)}
    lines = []
    vals = {}      # block -> values defined in it usable on its outgoing edges
    common = ["%a", "%b", "%c", "%e0", "%e1"]
    srcname = {i: (names[i] if i not in heads else f"body{i}") for i in range(n)}
    phi_of = {i: [f"%p{i}_{k}" for k in range(r.choice([0, 0, 1, 2]))] if i else [] for i in range(n)}
    for i in range(n):
        vals[i] = phi_of[i] + [f"%v{i}_{k}" for k in range(3)]
    exit_used = bool(heads)
    first = {}

    def incoming(i, j, k):
        # the same value for all edges of one pair of blocks, as LLVM requires
        key = (i, j, k)
        if key not in first:
            first[key] = r.choice([str(r.randint(-9, 9)), r.choice(common) if i else r.choice(["%a", "%b", "%c"]), r.choice(vals[i]), r.choice(vals[i])])
        return first[key]
    for i in range(n):
        nm = names[i]
        lines.append(f"{nm}:")
        preds = [a for a, b in edges if b == i]
        if i and preds:
            for k, p in enumerate(phi_of[i]):
                inc = ", ".join(f"[ {incoming(a, i, k)}, %{srcname[a]} ]" for a in preds)
                lines.append(f"  {p} = phi i64 {inc}")
                feats["phis"] += 1
        elif i:
            for p in phi_of[i]:
                lines.append(f"  {p} = add i64 0, {r.randint(0, 5)}")
        if i in heads:
            lines.append(f"  %al{i} = call i1 @alive()")
            lines.append(f"  br i1 %al{i}, label %body{i}, label %dead")
            lines.append(f"body{i}:")
            feats["loops"] += 1
        if i == 0:
            lines.append("  %slot = alloca i64")
            lines.append("  %e0 = add i64 %a, %b")
            lines.append("  %e1 = mul i64 %c, 3")
            lines.append("  store i64 %e0, i64* %slot")
        lines.append(f"  call void @mark(i64 {ids[i]})")
        pool = (common if i else ["%a", "%b", "%c"]) + phi_of[i]
        lines.append(f"  %v{i}_0 = load i64, i64* %slot")
        lines.append(f"  %v{i}_1 = {r.choice(['add', 'sub', 'mul', 'xor'])} i64 %v{i}_0, {r.choice(pool)}")
        lines.append(f"  %v{i}_2 = {r.choice(['add', 'sub', 'mul', 'and'])} i64 {r.choice(pool)}, {r.randint(-4, 9)}")
        if r.random() < .8:
            lines.append(f"  store i64 {r.choice(vals[i])}, i64* %slot")
        if r.random() < .4:
            lines.append(f"  %g{i} = getelementptr [8 x i64], [8 x i64]* @mem, i64 0, i64 {r.randrange(8)}")
            lines.append(f"  store i64 {r.choice(vals[i])}, i64* %g{i}")
        t = term[i]
        if t[0] == "ret":
            lines.append(f"  ret i64 {r.choice(vals[i])}")
        elif t[0] == "br":
            lines.append(f"  br label %{names[t[1]]}")
        elif t[0] == "cond":
            lines.append(f"  %k{i} = icmp {r.choice(['slt', 'sgt', 'eq', 'ne', 'sle', 'ult'])} i64 {r.choice(vals[i])}, {r.choice(pool + [str(r.randint(-3, 4))])}")
            cnd = f"%k{i}" if r.random() < .93 else r.choice(["true", "false"])
            lines.append(f"  br i1 {cnd}, label %{names[t[1]]}, label %{names[t[2]]}")
            feats["cond"] += 1
            feats["same_target"] += t[1] == t[2]
        else:
            lines.append(f"  %m{i} = srem i64 {r.choice(vals[i])}, 4")
            lines.append(f"  switch i64 %m{i}, label %{names[t[1]]} [ " + " ".join(f"i64 {v}, label %{names[x]}" for v, x in t[2]) + " ]")
            feats["switch"] += 1
            ts = [t[1]] + [x for _, x in t[2]]
            feats["switch_shared"] += len(ts) != len(set(ts))
    if exit_used:
        lines.append("dead:")
        lines.append("  call void @mark(i64 77)")
        lines.append("  ret i64 -12345")
    dead = len(seen) < n
    feats["unreachable_blocks"] += dead
    return f"define i64 @{name}(i64 %a, i64 %b, i64 %c) {{\n" + "\n".join(lines) + "\n}\n"


def module(r, feats, nf=4, ninputs=6):
    fns = [function(r, f"f{k}", feats) for k in range(nf)]
    out = [HEAD] + fns
    body = []
    q = 0
    for k in range(nf):
        for _ in range(ninputs):
            a, b, c = (r.randint(-4, 6) for _ in range(3))
            body.append(f"  store i64 0, i64* @h\n  store i64 {r.choice([3, 6, 12])}, i64* @fuel")
            body.append(f"  %r{q} = call i64 @f{k}(i64 {a}, i64 {b}, i64 {c})")
            body.append(f"  %h{q} = load i64, i64* @h\n  %d{q} = call i64 @digest()")
            body.append(f"  %t{q} = call i32 (i8*, ...) @printf(i8* getelementptr ([16 x i8], [16 x i8]* @fmt, i64 0, i64 0), i64 %r{q}, i64 %h{q}, i64 %d{q})")
            q += 1
    out.append("define i32 @main() {\n" + "\n".join(body) + "\n  ret i32 0\n}\n")
    return "\n".join(out), q
