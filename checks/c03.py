import os, re, sys, subprocess, shutil, tempfile, collections, random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import harness, llgen
from mon.llbuild import sh, build

PID, LEVEL = "C03", "exploration"
RULE = "a module in which the pass split at least one branch and whose runs before and after were compared, identified by its seed"

CSRC = r"""
#include <stdio.h>
long A[8]; long T;
__attribute__((noinline)) long t(long x) { T = T * 31 + x; return x; }
int sc(int a, int b) { if ((t(a) && t(b)) || t(a - b)) return t(1); else if (!(t(a) || t(b)) && t(3)) return 2; return a < b ? t(4) : t(5); }
int sw(int a, int b) { int r = 0; switch (a) { case 0: case 1: r = t(1); break; case 2: r = t(2); case 3: r += t(3); break; default: if (b) r = t(9); else r = t(8); } return r; }
int lp(int a, int b) { int s = 0; for (int i = 0; i < a; i++) { for (int j = i; j < b; j++) { if (j == 3) continue; if (i * j > 7) break; s += t(i + j); } } while (s > 10) { s -= 7; if (s == 12) return t(100); } return s; }
int em(int a, int b) { if (a > b) ; else ; if (a) { } do { if (b-- > 2) continue; a++; } while (a < 3); return t(a * 10 + b); }
int tern(int a, int b) { return (a > 0 ? (b > 0 ? t(1) : t(2)) : (b < 0 ? t(3) : t(4))) + (a == b ? 7 : t(b)); }
int go(int a, int b) { top: if (a <= 0) goto out; if (t(a) % 2) { a--; goto top; } a -= 2; if (b) goto top; out: return t(a) + b; }
long mx(int a, int b) { long m = A[0]; for (int i = 1; i < 8; i++) m = A[i] > m ? A[i] : m; for (int i = 0; i < 8; i++) if (i % 2 == a % 2) A[i] += b; else A[i] -= 1; return m; }
_Bool bo(int a, int b) { _Bool x = a && b, y = a < b || !x; return x ^ (y && (a != 1 || b == 2)); }
int main(void) { for (int a = -2; a < 5; a++) for (int b = -2; b < 6; b++) { T = 0;
  long v[] = { sc(a, b), sw(a, b), lp(a, b), em(a, b), tern(a, b), go(a, b), mx(a, b), bo(a, b) };
  for (int i = 0; i < 8; i++) printf("%ld ", v[i]); for (int i = 0; i < 8; i++) printf("%ld ", A[i]); printf("%ld\n", T); } return 0; }
"""
PIPES = [["-addEmptyBlock"], ["-addEmptyBlock", "-addEmptyBlock"], ["-addEmptyBlock", "-lowerinvoke", "--unreachableblockelim", "-instnamer"],
         ["-mem2reg", "-addEmptyBlock"], ["-simplifycfg", "-addEmptyBlock", "-instnamer"]]


def shape(text):
    """conditional branches whose targets can be reached some other way (as (function, target)), from printed IR with named blocks"""
    bad, nbr, nblk = [], 0, 0
    for f in re.split(r"(?m)^define ", text)[1:]:
        f = f[:f.index("\n}")]
        preds, conds = collections.Counter(), []
        nblk += len(re.findall(r'(?m)^("[^"]*"|[-\w.$]+):', f))
        for t in re.findall(r"(?m)^  (?:br|switch|invoke|indirectbr) [^\[\n]*(?:\[[^\]]*\])?", f):
            ts = re.findall(r'label %("[^"]*"|[-\w.$]+)', t)
            preds.update(ts)
            if t.startswith("  br i1"):
                nbr += 1
                conds.append(ts)
        for ts in conds:
            bad += [(f.split("(")[0].split()[-1], x) for x in ts if preds[x] != 1]
    return bad, nbr, nblk


def one(job):
    """run one module through the pass; returns a dict of observations (no assertions here: runs in a worker thread)"""
    d, so, tag, text, pipe, valgrind = job
    src, dst = os.path.join(d, f"{tag}.ll"), os.path.join(d, f"{tag}.out.ll")
    open(src, "w").write(text)
    o = {"tag": tag, "pipe": pipe, "text": text}
    opt = ["opt-14", "-enable-new-pm=0", "-load", so, *pipe, "-S", src, "-o", dst]
    p = sh((["valgrind", "-q", "--error-exitcode=97"] if valgrind else []) + opt, timeout=600)
    o["opt"] = (p.returncode, "\n".join(l for l in p.stderr.split("\n") if not l.startswith("replace:"))[:500] if p.returncode else "")
    if p.returncode == 0:
        named = sh(["opt-14", "-instnamer", "-S", dst])
        o["out"] = named.stdout if named.returncode == 0 else None
        for k, f in (("before", src), ("after", dst)):
            try:
                q = sh(["lli-14", f], timeout=30)
                o[k] = (q.returncode, q.stdout)
            except subprocess.TimeoutExpired:
                o[k] = ("timeout", "")
    for f in (src, dst):
        if os.path.exists(f):
            os.unlink(f)
    return o


def run(c):
    d = tempfile.mkdtemp(prefix="c03-")
    try:
        go(c, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(c, d):
    so = build(d)
    jobs = []
    feats = collections.Counter()
    for R in range(c.n(260, 3000)):
        r = c.rng("module", R)
        text, _ = llgen.module(r, feats, nf=r.randint(1, 5))
        # mem2reg and friends are other people's code: they only provide more shapes, and run before the pass
        jobs.append((d, so, f"m{R}", text, PIPES[R % len(PIPES)] if R % 3 else PIPES[0], c.thorough and R < 2))
    cf = os.path.join(d, "c.c")
    open(cf, "w").write(CSRC)
    for lvl in ("-O0", "-O1", "-O2", "-Os"):
        out = os.path.join(d, "c.ll")
        p = sh(["clang-14", lvl, "-fno-discard-value-names", "-S", "-emit-llvm", cf, "-o", out])
        if p.returncode:
            raise SystemExit("clang failed: " + p.stderr[-500:])
        for pipe in PIPES:
            jobs.append((d, so, f"c{lvl}{len(jobs)}", open(out).read().replace(" optnone", ""), pipe, False))
    for k, v in feats.items():
        c.count("generated_" + k, v)
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(one, jobs):
            if c.out_of_time():
                break
            c.case((o["tag"], tuple(o["pipe"])))
            rc, err = o["opt"]
            info = {"module": o["text"][:12000], "pipe": o["pipe"]}
            if rc:
                c.fail("pass-fails", f"{o['tag']} {o['pipe']}: opt ended with {rc}: {err}", **info)
                continue
            if o["out"] is None:
                c.fail("malformed", f"{o['tag']} {o['pipe']}: the verifier rejects the module", **info)
                continue
            bad0 = shape(o["text"])
            bad, nbr, nblk = shape(o["out"])
            c.count("branches", nbr)
            c.count("blocks_added", max(0, nblk - bad0[2]))
            c.count("shared_targets_before", len(bad0[0]))
            if bad:
                c.fail("not-split", f"{o['tag']} {o['pipe']}: after the pass {bad[0]} (function, target) is still reached in another way too", **info)
            if o["before"][0] != 0:
                c.count("unusable_runs")
                continue
            lines = o["before"][1].split("\n")
            c.count("runs_compared", len(lines) - 1)
            if o["before"] != o["after"]:
                la = o["after"][1].split("\n")
                k = next((i for i, (x, y) in enumerate(zip(lines, la)) if x != y), min(len(lines), len(la)))
                c.fail("behaviour", f"{o['tag']} {o['pipe']}: run {k} printed {lines[k:k+1]} before the pass, {la[k:k+1]} (rc {o['after'][0]}) after", **info)
            elif nblk > bad0[2] or nbr:
                c.nontrivial((o["tag"], tuple(o["pipe"])))
            c.count("distinct_traces", len(set(lines)))
    for k, m in (("runs_compared", 1000), ("shared_targets_before", 200), ("generated_same_target", 40), ("generated_switch", 100), ("generated_phis", 200), ("blocks_added", 1000)):
        c.require(k, m)


if __name__ == "__main__":
    harness.main(PID, LEVEL, RULE, run)
