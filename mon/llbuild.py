"""Compile C++ the way the repository's compile script does, with the repository's pass built from the working tree."""
import os, re, shutil, subprocess
from . import boot

OPT = ["opt-14", "-enable-new-pm=0"]


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=k.pop("timeout", 120), **k)


def build(d, repo=None):
    """build the repository's pass, from a copy so that nothing is written into /repo"""
    repo = repo or boot.REPO
    src = os.path.join(d, "src")
    os.makedirs(src)
    shutil.copy(os.path.join(repo, "llvm-pass", "CMakeLists.txt"), src)
    shutil.copytree(os.path.join(repo, "llvm-pass", "addEmptyBlocks"), os.path.join(src, "addEmptyBlocks"))
    b = os.path.join(d, "build")
    for cmd in (["cmake", "-S", src, "-B", b, "-DLLVM_DIR=/usr/lib/llvm-14/cmake", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++"],
                ["cmake", "--build", b, "-j8"]):
        p = sh(cmd, timeout=600)
        if p.returncode:
            raise SystemExit("the pass does not build:\n" + (p.stdout + p.stderr)[-2000:])
    so = [os.path.join(r, f) for r, _, fs in os.walk(b) for f in fs if f.startswith("libAddEmptyBlocksPass.so")]
    return so[0]


def compile_cc(path, so, inc, repo=None):
    """path.cc -> (path.ll, path.loops) as the compile script produces them, in the textual dialect of the LLVM inside llvmlite"""
    repo = repo or boot.REPO
    stem = os.path.splitext(path)[0]
    raw, ll, lp = stem + ".raw.ll", stem + ".ll", stem + ".loops"
    front = ["clang-14"] if path.endswith(".c") else ["clang++-14", "-std=c++17", "-nostdinc++"]
    steps = [front + ["-O0", "-w", "-I", inc, "-I", os.path.join(repo, "headers"), "-c", "-emit-llvm", "-fno-discard-value-names", "-S", path, "-o", raw],
             OPT + ["-load", so, "-addEmptyBlock", "-lowerinvoke", "--unreachableblockelim", "-instnamer", "-S", raw, "-o", ll]]
    for cmd in steps:
        p = sh(cmd)
        if p.returncode:
            raise RuntimeError(" ".join(cmd) + "\n" + p.stderr[-1500:])
    p = sh(OPT + ["-analyze", "-loops", ll])
    if p.returncode:
        raise RuntimeError(p.stderr[-1000:])
    open(lp, "w").write(p.stdout)
    t = open(ll).read()
    t = re.sub(r"sret\([^)]*\)", "sret", t)
    t = re.sub(r"(?m)^(attributes #\d+ = \{).*", r"\1 nounwind }", t)
    t = re.sub(r", !llvm\.loop !\d+", "", t)
    t = re.sub(r"(?m)^!.*\n", "", t)
    open(ll, "w").write(t)
    return ll, lp
