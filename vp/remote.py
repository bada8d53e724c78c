"""Simulations run by the schedule-exploring server (harness/tsan_server.cpp)."""
import os
import struct
import subprocess
import tempfile
import numpy as np
from . import lib as L


class ServerDied(Exception):
    pass


class Server:
    """Stands in for lib.Lib: sim() gives a RemoteSim."""

    def __init__(self, path, scratch):
        self.path, self.scratch, self.p = path, scratch, None
        self.start()
        self.dim, self.degree = (int(t) for t in self.ask("info").split())

    def start(self):
        self.log = os.path.join(tempfile.mkdtemp(dir=self.scratch), "tsan")
        e = dict(os.environ)
        e["TSAN_OPTIONS"] = "log_path=%s:suppress_equal_stacks=0:suppress_equal_addresses=0:exitcode=0:history_size=4:report_bugs=1:halt_on_error=0" % self.log
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def send(self, *a):
        try:
            self.p.stdin.write((" ".join(a) + "\n").encode())
        except (BrokenPipeError, ValueError):
            self.dead()

    def ask(self, *a):
        self.send(*a)
        try:
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            self.dead()
        r = self.p.stdout.readline()
        if not r:
            self.dead()
        return r.decode()

    def dead(self):
        rc = self.p.wait()
        self.p = None
        self.start()
        raise ServerDied("the process ended with code %d (97: the threads wait for each other)" % rc)

    def report(self):
        """The first report of the race detector."""
        d = os.path.dirname(self.log)
        out = ""
        for f in sorted(os.listdir(d)):
            out += open(os.path.join(d, f)).read()
        return out

    def sim(self, save=False, directory="/nonexistent/", name="x"):
        return RemoteSim(self)


def _f(x):
    return float(x).hex()


class RemoteSim:
    def __init__(self, srv):
        self.s, self.D, self.n = srv, srv.dim, 0
        srv.send("new")
        srv.send("init", "0", "/nonexistent/", "x")
        self.set(reduce_verbose=1)
        self.seed, self.dyn = 1, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def set(self, **kw):
        for k, v in kw.items():
            if k in ("gravity", "grid_reference_point"):
                a = list(np.asarray(v, float)[: self.D]) + [0.0] * 3
                self.s.send("setv", k, *[_f(t) for t in a[:3]])
            else:
                self.s.send("set", k, _f(v))

    def particles(self, **arrays):
        self.n = len(arrays["x"])
        self.s.send("particles", str(self.n))
        for k, a in arrays.items():
            self.put(k, a)

    def put(self, k, a):
        a = np.ascontiguousarray(a, float).ravel()
        self.s.send("put", k, str(a.size), *[_f(t) for t in a])

    def plate(self, pos, type, bc=0, friction=0.0, lower=-1e15, upper=1e15, v=(0, 0, 0), vmin_factor=1.0, load_factor=0.0):
        w = list(v) + [0.0] * 3
        self.s.send("plate", *[_f(t) for t in (pos, type, bc, friction, lower, upper, w[0], w[1], w[2], vmin_factor, load_factor)])

    def object(self, kind, bc=0, friction=0.0, par=()):
        w = list(par) + [0.0] * 8
        self.s.send("object", *[_f(t) for t in (kind, bc, friction) + tuple(w[:8])])

    def simulate(self, timeout=None):
        self.s.send("seed", str(int(self.seed)), str(self.dyn))
        e, self.races, self.switches = self.s.ask("simulate").split()
        self.exit, self.races, self.switches = float(e), int(self.races), int(self.switches)
        return 0

    def getp(self, k):
        assert k == "exit"
        return self.exit

    def get(self, k):
        n = int(self.s.ask("get", k))
        b = self.s.p.stdout.read(n * self.D * self.D * 8)
        a = np.frombuffer(b, float)
        sh = (n, self.D) if k in L.VEC else (n, self.D, self.D) if k in L.MAT else (n,)
        return a[: int(np.prod(sh))].reshape(sh).copy()

    def state(self):
        return {k: self.get(k) for k in L.VEC + L.MAT + L.SCA}
