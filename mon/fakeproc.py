"""Scripted solver processes on a virtual clock.

`World` replaces subprocess.Popen (and with it run/check_output/call, which are built on it) and
time.sleep.  Nothing real is started.  A program is a Python object that is asked what to do when it is
started; it schedules file writes and its exit on the virtual clock.
"""
import io, os, subprocess, time


class Hang(BaseException):
    """The code under test waits for something that will never happen."""


class World:
    def __init__(self, limit=5000.0, calls=200000):
        self.now, self.limit, self.calls = 0.0, limit, calls
        self.events = []
        self.log = []
        self.programs = []          # (predicate on argv, factory(world, argv, popen))
        self.n = 0

    def at(self, dt, fn):
        self.n += 1
        self.events.append((self.now + dt, self.n, fn))

    def tick(self, dt):
        self.calls -= 1
        self.now += dt
        if self.now > self.limit or self.calls < 0:
            raise Hang(f"still waiting after {self.now:.0f}s of virtual time")
        for ev in sorted(e for e in self.events if e[0] <= self.now):
            self.events.remove(ev)
            ev[2]()

    def wait_for(self, cond, timeout=None):
        end = None if timeout is None else self.now + timeout
        while not cond():
            if end is not None and self.now >= end:
                return False
            self.tick(.05)
        return True

    def __enter__(self):
        self._old = subprocess.Popen, time.sleep
        w = self

        class Popen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, shell=False, cwd=None,
                         env=None, universal_newlines=None, text=None, encoding=None, errors=None, **kw):
                self.args, self.cwd = args, cwd
                self.argv = args.split() if isinstance(args, str) else [str(a) for a in args]
                self.pid, self.returncode, self._rc = 4242, None, None
                self.killed = False
                self.program_world = w
                self.out, self.err = b"", b""
                self.text = text or universal_newlines or encoding
                self.program = None
                for pred, fac in w.programs:
                    if pred(self.argv):
                        self.program = fac(w, self.argv, self)
                        break
                else:
                    raise FileNotFoundError(2, "No such file or directory", self.argv[0])
                self.stdout = _Pipe(self, "out") if stdout == subprocess.PIPE else None
                self.stderr = _Pipe(self, "err") if stderr == subprocess.PIPE else None
                self.stdin = None
                if hasattr(stdout, "write"):
                    w.wait_for(lambda: self._rc is not None)
                    stdout.write(self._dec(self.out))
                w.log.append(("start", self.argv))

            def _dec(self, b):
                return b.decode() if self.text else b

            def poll(self):
                w.tick(.001)
                self.returncode = self._rc
                return self._rc

            def wait(self, timeout=None):
                if not w.wait_for(lambda: self._rc is not None, timeout):
                    raise subprocess.TimeoutExpired(self.args, timeout)
                self.returncode = self._rc
                return self._rc

            def communicate(self, input=None, timeout=None):
                self.wait(timeout)
                return (self._dec(self.out) if self.stdout is not None else None,
                        self._dec(self.err) if self.stderr is not None else None)

            def kill(self):
                if self._rc is None:
                    self._rc, self.killed = -9, True

            def terminate(self):
                if self._rc is None:
                    self._rc, self.killed = -15, True

            def send_signal(self, s):
                self.kill()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()
        subprocess.Popen = Popen
        time.sleep = lambda s: w.tick(max(s, .001))
        return self

    def __exit__(self, *a):
        subprocess.Popen, time.sleep = self._old


class _Pipe:
    """A pipe end: blocks (on the virtual clock) until data or end of file."""

    def __init__(self, p, which):
        self.p, self.which, self.pos = p, which, 0

    def _buf(self):
        return getattr(self.p, self.which)

    def readline(self, *a):
        self.p.program_world.wait_for(lambda: b"\n" in self._buf()[self.pos:] or self.p._rc is not None)
        b = self._buf()[self.pos:]
        i = b.find(b"\n")
        r = b if i < 0 else b[:i + 1]
        self.pos += len(r)
        return self.p._dec(r)

    def read(self, *a):
        self.p.program_world.wait_for(lambda: self.p._rc is not None)
        r = self._buf()[self.pos:]
        self.pos = len(self._buf())
        return self.p._dec(r)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def close(self):
        pass

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
