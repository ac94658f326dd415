"""Make and confirm planted changes: python3 tools/plant.py SPECFILE [ID...]

SPECFILE defines PLANTS = [dict(id, prop, edits=[(file, old, new)], demo=<python text>,
needs, breaks)].  Each is made in a scratch copy of /repo, demonstrated there, written to
seeded/<id>/, and the check of its property is run against it (applied to /repo, undone)."""
import json, os, shutil, subprocess, sys, time
V = "/verif"
HDR = '''import os, sys, tempfile, atexit, shutil, warnings
warnings.simplefilter("ignore")
REPO = os.getcwd()
SITE = "/opt/venv/lib/pypy3.9/site-packages"
TMP = tempfile.mkdtemp(prefix="demo.")
atexit.register(shutil.rmtree, TMP, True)
for p in ["llvmlite", "mypy", "mypyc", "mypy_extensions.py", "pydash", "networkx",
          "pyparsing", "dotenv", "typing_extensions.py"]:
    os.symlink(os.path.join(SITE, p), os.path.join(TMP, p))
sys.path.insert(0, REPO)
sys.path.insert(0, TMP)
sys.dont_write_bytecode = True
'''
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 on the unchanged tree
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec timeout 250 python3-vt -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd=None, timeout=1000):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    PL = "/tmp/pl"
    shutil.rmtree(PL, ignore_errors=True)
    sh("cp -a /repo /tmp/pl")
    for p in ns["PLANTS"]:
        if want and p["id"] not in want:
            continue
        sh("git checkout -q -- .", PL)
        bad = None
        for f, old, new in p["edits"]:
            path = os.path.join(PL, f)
            t = open(path).read()
            if t.count(old) != 1:
                bad = f"{f}: pattern found {t.count(old)} times: {old[:60]!r}"
                break
            ln = t[:max(0, t.find(old))].count("\n") + 1
            _, bl = sh(f"git blame -s -L{ln},{ln + old.count(chr(10))} {f}", PL)
            mine = [l for l in bl.splitlines() if not l.startswith("^8719e2f")]
            if mine:
                print(p["id"], "  note: touches lines of own commits:", mine[0][:90])
            open(path, "w").write(t.replace(old, new))
        if bad:
            print(p["id"], "SKIP", bad)
            continue
        d = os.path.join(V, "seeded", p["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _, diff = sh("git diff", PL)
        open(d + "/patch.diff", "w").write(diff)
        if p["demo"]:
            open(d + "/demo.py", "w").write(HDR + p["demo"].lstrip("\n"))
        for name, text in p.get("files", {}).items():
            open(os.path.join(d, name), "w").write(text)
        open(d + "/demo.sh", "w").write(SH if "demo_sh" not in p else p["demo_sh"])
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0, o0 = sh(f"bash {d}/demo.sh", "/repo")
        r1, o1 = sh(f"bash {d}/demo.sh", PL)
        print(p["id"], "demo clean rc", r0, "planted rc", r1, flush=True)
        if r0 != 0:
            print(o0[-1500:])
        if r1 == 0:
            print("   NOT DEMONSTRATED", o1[-800:])
        if r0 or not r1:
            continue
        # own tests + own check on the real tree with the patch applied
        rc, o = sh(f"git -C /repo apply {d}/patch.diff")
        assert rc == 0, o
        try:
            rb, ob = sh("bash /opt/vp/build.sh", "/repo")
            sh("bash /opt/vp/test.sh /tmp/plants/out.json")
            res = json.load(open("/tmp/plants/out.json"))
            passed = sum(1 for v in json.dumps(res).split('"') if v == "passed")
            t = time.time()
            rc, o = sh(f"PYTHONHASHSEED=0 VERIF_SEED=1 VERIF_TIER=quick python3-vt -W ignore checks/{p['prop'].lower()}.py", V)
            vl = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            print("   build", rb, "tests", summarise(res), "check rc", rc, "violations", len(vl), f"{time.time()-t:.0f}s", "CAUGHT" if rc == 1 and vl else "*** MISSED ***", flush=True)
            for l in o.splitlines():
                if "VIOLATION" in l or "Error" in l:
                    print("     ", l[:200])
                    break
        finally:
            sh("git -C /repo checkout -- .")
    shutil.rmtree(PL, ignore_errors=True)
    sh("bash /opt/vp/build.sh", "/repo")


def summarise(res):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    txt = json.dumps(res)
    ok = set(res.get("passed", [])) if isinstance(res, dict) else set()
    if ok:
        return f"{sum(b in ok for b in base)}/{len(base)}"
    return txt[:120]


main()
