"""ctypes access to a built variant."""
import ctypes as C
import numpy as np

_d = C.c_double
_p = C.POINTER(C.c_double)
_vp = C.c_void_p

TOP, BOTTOM, LEFT, RIGHT, FRONT, BACK = range(6)
HENCKY, NEOHOOKEAN = 0, 1
(NOPL, VM, DP, DPSOFT, MCC, VMVISC, DPVISC, MCCVISC, DPMUI, MCCMUI) = range(10)
MODEL_NAMES = ["NoPlasticity", "VM", "DP", "DPSoft", "MCC", "VMVisc", "DPVisc", "MCCVisc", "DPMui", "MCCMui"]
NOHARD, EXPOEXPL, EXPOIMPL, SINHEXPL, SINHIMPL = range(5)
NOSLIP, SLIPSTICK, SLIPFREE = range(3)
HALFSPACE, BALL, GROUND, CURVE, BUMP, GATE, RAMP, SILO = range(8)

VEC = ("x", "v", "pic", "flip")
MAT = ("F", "Bmat", "tau")
SCA = ("eps_pl_dev", "eps_pl_vol", "eps_pl_vol_pradhana", "delta_gamma", "viscosity", "muI")


def _ptr(a):
    return a.ctypes.data_as(_p)


class Lib:
    def __init__(self, path, variant=None):
        self.c = c = C.CDLL(path)
        self.path = path
        self.variant = variant
        c.ms_new.restype = _vp
        for n in ("ms_getp", "ms_clock"):
            if hasattr(c, n):
                getattr(c, n).restype = _d
        self.dim = c.ms_dim()
        self.degree = c.ms_degree()

    def sim(self, **kw):
        return Sim(self, **kw)


class Sim:
    """One Simulation object."""

    def __init__(self, lib, save=False, directory="/nonexistent/", name="x", init=True):
        self.lib, self.c, self.D = lib, lib.c, lib.dim
        self.h = _vp(self.c.ms_new())
        self.n = 0
        if init:
            self.c.ms_init(self.h, int(save), directory.encode(), name.encode())
        self.set(reduce_verbose=1)

    def close(self):
        if self.h:
            self.c.ms_free(self.h)
            self.h = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        self.close()

    def set(self, **kw):
        for k, v in kw.items():
            if k in ("gravity", "grid_reference_point"):
                a = np.zeros(3)
                a[: self.D] = np.asarray(v, float)[: self.D]
                assert self.c.ms_setv(self.h, k.encode(), _ptr(a)) == 0
            else:
                assert self.c.ms_set(self.h, k.encode(), _d(float(v))) == 0, k

    def getp(self, k):
        return self.c.ms_getp(self.h, k.encode())

    def particles(self, **arrays):
        """x is required; anything else overrides the default state."""
        x = np.ascontiguousarray(arrays["x"], float)
        self.n = len(x)
        self.c.ms_particles(self.h, self.n)
        for k, a in arrays.items():
            self.put(k, a)

    def put(self, k, a):
        a = np.ascontiguousarray(a, float)
        assert a.size == self.n * (self.D if k in VEC else self.D ** 2 if k in MAT else 1), (k, a.shape)
        assert self.c.ms_put(self.h, k.encode(), _ptr(a)) == 0, k

    def count(self, k):
        return self.c.ms_count(self.h, k.encode())

    def get(self, k):
        n = self.count(k)
        sh = (n, self.D) if k in VEC else (n, self.D, self.D) if k in MAT else (n,)
        a = np.zeros(sh)
        assert self.c.ms_get(self.h, k.encode(), _ptr(a), n) == 0
        return a

    def state(self):
        return {k: self.get(k) for k in VEC + MAT + SCA}

    def plate(self, pos, type, bc=NOSLIP, friction=0.0, lower=-1e15, upper=1e15, v=(0, 0, 0), vmin_factor=1.0, load_factor=0.0):
        a = np.zeros(3)
        a[: len(v)] = v
        self.c.ms_plate(self.h, _d(pos), int(type), int(bc), _d(friction), _d(lower), _d(upper), _ptr(a), _d(vmin_factor), _d(load_factor))

    def get_plate(self, i):
        a = np.zeros(6)
        self.c.ms_get_plate(self.h, int(i), _ptr(a))
        return dict(pos=a[0], lower=a[1], upper=a[2], v=a[3:6][: self.D])

    def object(self, kind, bc=NOSLIP, friction=0.0, par=()):
        a = np.zeros(8)
        a[: len(par)] = par
        assert self.c.ms_object(self.h, int(kind), int(bc), _d(friction), _ptr(a)) == 0

    def monitor(self, keep=False, max_steps=0):
        self.c.ms_monitor(self.h, int(keep))
        self._keep = keep
        if max_steps:
            self.c.ms_monitor_limit(self.h, int(max_steps))

    def overrun(self):
        return bool(self.c.ms_monitor_overrun(self.h))

    def records(self):
        k = self.c.ms_monitor_steps(self.h)
        t, s, g = np.zeros(k), np.zeros(k), np.zeros((k, self.D))
        n = k * self.n * self.D if self._keep else 1
        xs, vs = np.zeros(n), np.zeros(n)
        self.c.ms_monitor_get(self.h, _ptr(t), _ptr(s), _ptr(g), _ptr(xs), _ptr(vs))
        r = dict(t=t, speed=s, g=g, clock=self.c.ms_clock(self.h))
        if self._keep:
            r["x"] = xs.reshape(k, self.n, self.D)
            r["v"] = vs.reshape(k, self.n, self.D)
        return r

    def simulate(self, timeout=60.0):
        """0 finished, 1 watchdog, 2 threw"""
        return self.c.ms_simulate(self.h, _d(timeout))

    # output path
    def grid(self):
        self.c.ms_save_grid(self.h)
        return self._captured()

    def saved_particles(self):
        self.c.ms_save_particles(self.h)
        return self._captured()

    def _captured(self):
        out, i, buf = {}, 0, C.create_string_buffer(64)
        while self.c.ms_cap_name(i, buf, 63) == 0:
            name = buf.value
            n = self.c.ms_cap_count(name)
            a = np.zeros(n)
            self.c.ms_cap_get(name, _ptr(a))
            out[name.decode()] = a
            i += 1
        return out

    def avg(self):
        D = self.D
        a, b, j = np.zeros((D, D)), np.zeros((D, D)), np.zeros(1)
        self.c.ms_avg(self.h, _ptr(a), _ptr(b), _ptr(j))
        return a, b, j[0]

    def save_avg(self):
        self.c.ms_save_avg(self.h)


def read_ply(path):
    """Columns of a binary little-endian PLY file with one element."""
    with open(path, "rb") as f:
        b = f.read()
    head, sep, body = b.partition(b"end_header\n")
    if not sep:
        return None
    names, n = [], None
    for ln in head.decode().split("\n"):
        w = ln.split()
        if w[:1] == ["element"]:
            n = int(w[2])
        if w[:1] == ["property"]:
            names.append((w[2], "<f8" if w[1] == "double" else "<f4"))
    a = np.frombuffer(body, dtype=np.dtype(names))
    return n, {k: a[k].astype(float) for k, _ in names}
