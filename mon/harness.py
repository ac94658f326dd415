"""Check driver: tiers, seeds, verdicts, known findings, evidence.

A check module defines PID, LEVEL, RULE and run(c).  It reports through `c`:
  c.case(key)            one monitored execution; key (hashable) is counted for distinctness
  c.nontrivial(key)      the case was non-trivial under RULE
  c.count(name, n)       extra event counters
  c.require(name, n)     fewer than n of these events -> inconclusive (exit 3)
  c.fail(mech, msg, **d) the oracle refuted the property; mech names the mechanism
Known findings are keyed by (property, mechanism) and only a directed reproducer may use such a
mechanism, so no random case can be classified as known.
"""
import os, sys, json, time, random, traceback, hashlib, io, contextlib
from . import boot


class Stop(Exception):
    pass


class Inconclusive(Exception):
    pass


def load_known():
    p = os.path.join(boot.VERIF, "known_findings.json")
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return {"known": [], "fixed": []}


class Ctx:
    MAXFAIL = 5

    def __init__(self, pid, level, rule):
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.evals = 0
        self.keys = set()
        self.nt = set()
        self.counters = {}
        self.required = {}
        self.samples = []
        self.fails = []
        self.seen_mech = {}
        self.known_hit = {}
        self.assumptions = []
        self.known = {(k["property"], k["mechanism"]): k for k in load_known()["known"]}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *salt):
        h = hashlib.sha256(repr((self.pid, self.seed, salt)).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    @staticmethod
    def _h(key):
        return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()

    def case(self, key=None):
        self.evals += 1
        if key is not None:
            self.keys.add(self._h(key))

    def nontrivial(self, key):
        self.nt.add(self._h(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def require(self, name, n=1):
        self.required[name] = n
        self.counters.setdefault(name, 0)

    def sample(self, s, cap=8):
        if len(self.samples) < cap:
            self.samples.append(s if isinstance(s, (str, dict, list)) else repr(s))

    def elapsed(self):
        return time.time() - self.t0

    def out_of_time(self, quick=420, thorough=5400):
        return self.elapsed() > (thorough if self.thorough else quick)

    def fail(self, mech, msg, **detail):
        """Report a refutation. Returns normally so several can be collected."""
        if (self.pid, mech) in self.known:
            self.known_hit[mech] = msg
            return
        n = self.seen_mech.get(mech, 0)
        self.seen_mech[mech] = n + 1
        if n >= 2:
            return
        self.fails.append({"mechanism": mech, "message": msg, "detail": {k: _js(v) for k, v in detail.items()}})
        if len(self.fails) >= self.MAXFAIL:
            raise Stop()

    # -- output
    def finish(self, error=None):
        ev_dir = os.path.join(boot.VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.nt), "rule": self.rule,
               "distinct_cases": len(self.keys), "samples": self.samples, "events": dict(sorted(self.counters.items()))}
        if self.known_hit:
            cov["known_findings_reproduced"] = sorted(self.known_hit)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(self.elapsed(), 2), "violations": len(self.fails)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        with open(os.path.join(ev_dir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for m in sorted(self.known_hit):
            k = self.known[(self.pid, m)]
            print(f"KNOWN-FINDING: property={self.pid} [{m}] {k['what']}")
        print(f"{self.pid} tier={self.tier} seed={self.seed}: {self.evals} executions, {len(self.nt)} distinct non-trivial, "
              f"{self.elapsed():.1f}s, events {self.counters}")
        if self.fails:
            for i, v in enumerate(self.fails):
                rp = os.path.join(ev_dir, f"replay-{self.pid}-{i}.json")
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, **v}, f, indent=1, default=repr)
                print(f"  [{v['mechanism']}] {v['message'][:1500]}")
                print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if error is not None:
            print(f"INCONCLUSIVE property={self.pid}: {error}")
            return 3
        missing = {k: (self.counters.get(k, 0), n) for k, n in self.required.items() if self.counters.get(k, 0) < n}
        if missing or not self.evals:
            print(f"INCONCLUSIVE property={self.pid}: monitor not reached often enough {missing}")
            return 3
        return 0


def _js(v):
    try:
        json.dumps(v)
        return v
    except Exception:
        return repr(v)


@contextlib.contextmanager
def quiet():
    """Swallow the repository's progress prints."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def main(pid, level, rule, run):
    c = Ctx(pid, level, rule)
    boot.boot()
    err = None
    try:
        run(c)
    except Stop:
        pass
    except Inconclusive as e:
        err = str(e)
    except Exception:
        err = "check error\n" + traceback.format_exc()
    rc = c.finish(err)
    sys.stdout.flush()
    os._exit(rc) if _clean() else None


def _clean():
    import shutil
    if boot._scratch:
        shutil.rmtree(boot._scratch, ignore_errors=True)
    return True
