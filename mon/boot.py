"""Boot: make the code under /repo importable in the tooling interpreter.

/repo's own dependencies (mypy, llvmlite, ...) live in a PyPy venv; they are pure
Python (llvmlite.binding included, loaded lazily).  We expose only the packages the
repository needs, via a directory of symlinks under a per-process scratch dir, so the
venv's other packages (pytest, ...) cannot shadow the tooling venv's.
"""
import os, sys, tempfile, atexit, shutil, warnings

REPO = os.environ.get("MON_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/pypy3.9/site-packages"
PKGS = ["llvmlite", "mypy", "mypyc", "mypy_extensions.py", "pydash", "networkx",
        "pyparsing", "dotenv", "typing_extensions.py"]
_scratch = None


def scratch():
    """Per-process scratch directory (removed at exit)."""
    global _scratch
    if _scratch is None:
        base = os.environ.get("MON_SCRATCH") or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="mlmon.", dir=base)
        pid = os.getpid()

        def clean(p=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(p, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def boot(repo=None):
    repo = repo or REPO
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    warnings.simplefilter("ignore")
    d = os.path.join(scratch(), "shim")
    if d not in sys.path:
        os.makedirs(d, exist_ok=True)
        for p in PKGS:
            if not os.path.lexists(os.path.join(d, p)):
                os.symlink(os.path.join(SITE, p), os.path.join(d, p))
        sys.path.insert(0, repo)
        sys.path.insert(0, d)
    sys.setrecursionlimit(100000)
    return d
