"""Shared by the property modules: failure type, sub-check record, environment, generators."""
import math
import os
import numpy as np
from hypothesis import strategies as st
from . import build as B
from . import lib as L


class Fail(AssertionError):
    """The property does not hold for this case."""


class Skip(Exception):
    """Outside the domain of the property (counted, never a verdict)."""


class Sub:
    """One generated check: strategy -> case (JSON-able dict), run(case, env) -> dict or raises Fail."""

    def __init__(self, name, strategy, run, quick, thorough, isolate=False):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.isolate = quick, thorough, isolate


class Env:
    """Built libraries of this run, loaded on demand."""

    def __init__(self, paths, scratch):
        self.paths, self.scratch, self._libs = paths, scratch, {}

    def lib(self, variant):
        if variant not in self._libs:
            self._libs[variant] = L.Lib(self.paths[variant], variant)
        return self._libs[variant]


def need(cond, fmt, *a):
    if not cond:
        raise Fail(fmt % a if a else fmt)


def close(name, got, want, rtol, atol=0.0, scale=None):
    """max |got - want| <= atol + rtol * scale, NaN never accepted."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    need(got.shape == want.shape, "%s: shape %s, expected %s", name, got.shape, want.shape)
    if got.size == 0:
        return
    if scale is None:
        scale = np.abs(want).max()
    err = np.abs(got - want)
    bad = ~(err <= atol + rtol * scale)
    if bad.any():
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err))), err.shape)
        raise Fail("%s differs at %s: got %.17g, expected %.17g (tolerance %.3g)"
                   % (name, tuple(int(k) for k in i), got[i], want[i], atol + rtol * float(np.max(scale))))


# ------------------------------------------------------------------ generators
VARS = ["2q", "2c", "3q", "3c"]


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


def logfl(lo, hi):
    """Log-uniform positive numbers."""
    return fl(math.log10(lo), math.log10(hi)).map(lambda e: float(10.0 ** e))


seeds = st.integers(0, 2 ** 32 - 1)
flip_ratios = st.one_of(st.sampled_from([0.0, 1.0, -1.0, -2.0, -0.95, 0.95, -1e-12, 0.5, -0.5]), st.just(-1.5), fl(0, 1), fl(-1, -1e-3))


def rng(case, salt=0):
    return np.random.Generator(np.random.PCG64([int(case["seed"]), salt]))


def rand_F(r, n, d, amp, kind=0):
    """Deformation gradients R1 diag(exp(e)) R2 with |e| <= amp, det > 0."""
    e = r.uniform(-amp, amp, (n, d))
    if kind == 1:      # nearly isotropic
        e = e[:, :1] + 1e-7 * e
    elif kind == 2:    # repeated principal stretches
        e[:, -1] = e[:, 0]
    elif kind == 3:    # isochoric
        e -= e.mean(1, keepdims=True)
    elif kind == 4:    # diagonal frames
        return np.einsum("ni,ij->nij", np.exp(e), np.eye(d))
    return np.einsum("nij,nj,njk->nik", rand_rot(r, n, d), np.exp(e), rand_rot(r, n, d))


def rand_rot(r, n, d):
    q, rr = np.linalg.qr(r.normal(size=(n, d, d)))
    q = q * np.sign(np.einsum("nii->ni", rr))[:, None, :]
    q[np.linalg.det(q) < 0, :, 0] *= -1
    return q


def rand_sym(r, n, d, amp):
    t = r.uniform(-amp, amp, (n, d, d))
    return 0.5 * (t + t.transpose(0, 2, 1))


def cloud(r, n, d, dx, extent, mode):
    """Particle positions in a box of about extent cells.
    0 uniform cloud, 1 two separate clusters, 2 a line/sheet, 3 jittered lattice, 4 clumped."""
    if mode == 1:
        x = r.uniform(0, extent, (n, d)) * 0.3
        x[n // 2:] += extent * 0.9
    elif mode == 2:
        x = r.uniform(0, extent, (n, d))
        x[:, int(r.integers(d))] = r.uniform(0, extent)
    elif mode == 3:
        k = int(math.ceil(n ** (1.0 / d)))
        g = np.stack(np.meshgrid(*[np.arange(k)] * d, indexing="ij"), -1).reshape(-1, d)[:n]
        x = (g + 0.5 + r.uniform(-0.2, 0.2, g.shape)) * 0.5
    elif mode == 4:
        c = r.uniform(0, extent, (max(1, n // 5), d))
        x = c[r.integers(len(c), size=n)] + r.normal(size=(n, d)) * 0.05
    else:
        x = r.uniform(0, extent, (n, d))
    return x * dx


def away_from_edges(x, dx, origin, degree, tol=1e-6):
    """True when no particle sits within tol cells of the edge of a kernel's support (where a
    node with vanishing weight may or may not take part, which is decided by rounding)."""
    u = (x - origin) / dx
    frac = u - np.floor(u)
    if degree == 2:
        return bool((np.abs(frac - 0.5) > tol).all())
    return bool(((frac > tol) & (frac < 1 - tol)).all())


def base_params(case, **over):
    p = dict(dx=case["dx"], rho=case.get("rho", 1000.0), particle_mass=case["mass"], particle_volume=case["vol"],
             flip_ratio=case["flip"], use_musl=int(case.get("musl", 0)), E=case.get("E", 1e6), nu=case.get("nu", 0.3))
    p.update(over)
    return p


ONE_STEP = dict(cfl=1e30, cfl_elastic=1e30)   # the frame time is the only limit: one step per frame


# ------------------------------------------------------------------ worlds
@st.composite
def world(draw, variants=VARS, max_n=40, models=None, musl=True, flips=None, elastic=True, modes=(0, 1, 2, 3, 4), threads=(1,)):
    """A cloud of particles with everything the transfers see. Dimensionless amplitudes keep the
    motion within a step well below a cell; dx and dt set the units."""
    c = dict(variant=draw(st.sampled_from(variants)), seed=draw(seeds), n=draw(st.integers(1, max_n)),
             dx=draw(logfl(1e-3, 10.0)), dt=draw(logfl(1e-5, 1e-1)), mode=draw(st.sampled_from(list(modes))),
             extent=draw(fl(0.5, 6.0)), shift=draw(st.sampled_from([0.0, 0.0, 1.0, -3.7, 1e3])),
             flip=draw(flips if flips is not None else flip_ratios), musl=draw(st.booleans()) if musl else False,
             cv=draw(st.sampled_from([0.0, 0.01, 0.1, 0.3])), ct=draw(st.sampled_from([0.0, 0.01, 0.1, 0.3])),
             cb=draw(st.sampled_from([0.0, 0.1, 0.5])), ce=draw(st.sampled_from([0.01, 0.1, 0.3])), cg=draw(st.sampled_from([0.0, 0.05, 0.2])),
             rho=draw(logfl(10.0, 1e4)), nu=draw(fl(-0.5, 0.45)), famp=draw(st.sampled_from([0.0, 0.05, 0.3])),
             threads=draw(st.sampled_from(list(threads))), ppc=draw(st.sampled_from([4.0, 4.0, 1.0, 9.0, 0.37, 27.0])))
    if elastic:
        c["elastic"] = draw(st.sampled_from([L.HENCKY, L.NEOHOOKEAN]))
    if models:
        c["model"] = draw(st.sampled_from(models))
        if c["model"] != L.NOPL:
            c["elastic"] = L.HENCKY
    return c


def world_arrays(c, d, degree):
    """Arrays and parameters of a world; reproducible from the case."""
    r = rng(c)
    n, dx, dt = c["n"], c["dx"], c["dt"]
    vol = (dx ** d) / c.get("ppc", 4.0)
    mass = c["rho"] * vol
    x = cloud(r, n, d, dx, c["extent"], c["mode"]) + c["shift"] * dx
    v = r.uniform(-1, 1, (n, d)) * c["cv"] * dx / dt
    B = r.uniform(-1, 1, (n, d, d)) * c["cb"] * dx * dx * max(c["cv"], 0.01) / dt
    tau = rand_sym(r, n, d, c["ct"] * c["rho"] * dx * dx / dt ** 2)
    F = rand_F(r, n, d, c["famp"], int(r.integers(5)))
    g = r.uniform(-1, 1, d) * c["cg"] * dx / dt ** 2
    E = c["rho"] * (c["ce"] * dx / dt) ** 2
    par = dict(dx=dx, particle_mass=mass, particle_volume=vol, rho=c["rho"], flip_ratio=c["flip"], use_musl=int(c["musl"]),
               E=E, nu=c["nu"], elastic_model=c.get("elastic", 0), plastic_model=c.get("model", 0), n_threads=c.get("threads", 1))
    return dict(x=x, v=v, Bmat=B, tau=tau, F=F), par, g


def ref_par(par, degree):
    q = dict(par)
    q["degree"] = degree
    return q


def finite(st_):
    return all(np.isfinite(a).all() for a in st_.values())


def det_ok(F):
    return bool((np.linalg.det(F) > 0).all())


def prefixes_ok(make, steps, neo):
    """Raises Skip when, somewhere in the first `steps` single-step frames, the material state leaves the
    domain (solver refused, non-finite state, or an inverted element under NeoHookean elasticity).
    Each prefix is a separate run, so the code never has to step from a state outside its domain."""
    for k in range(0, steps):
        if k:
            with make(k) as s:
                if s.simulate(60) == 1:
                    raise Skip("time")
                if s.getp("exit") != 0:
                    raise Skip("solver gave up")
                o = s.state()
            if not finite(o):
                raise Skip("not finite")
            if neo and not det_ok(o["F"]):
                raise Skip("inverted element")


# ------------------------------------------------------------------ obstacles
BCS = [L.NOSLIP, L.SLIPSTICK, L.SLIPFREE]
frictions = st.one_of(st.sampled_from([0.0, 0.0, 0.1, 0.5, 1.0]), fl(0, 2))
FIXED = [L.CURVE, L.BUMP, L.GATE, L.RAMP, L.SILO]


@st.composite
def obstacles(draw, max_objects=3, max_plates=3, moving=True, fixed=True, bcs=BCS, laterals=True, three=None):
    """Rigid obstacles around a cloud. Lengths are in units of the cloud's extent, speeds in dx/dt;
    place() turns them into absolute ones."""
    def one(kinds):
        return dict(kind=draw(st.sampled_from(kinds)), bc=draw(st.sampled_from(bcs)), friction=draw(frictions),
                    u=[draw(fl(-1, 1)) for _ in range(3)], off=draw(fl(-0.6, 0.9)), a=draw(st.booleans()))
    objs, plates = [], []
    if fixed and draw(st.integers(0, 3)) == 0:
        objs.append(one(FIXED))
        objs[0]["at"] = [draw(fl(-1, 1)), draw(fl(-1, 1))]
    for _ in range(draw(st.integers(0, max_objects - len(objs)))):
        objs.append(one([L.HALFSPACE, L.HALFSPACE, L.BALL, L.GROUND]))
    for _ in range(draw(st.integers(0 if objs else 1, max_plates))):
        p = dict(type=draw(st.integers(0, 5)), bc=draw(st.sampled_from(bcs)), friction=draw(frictions), off=draw(fl(-0.6, 0.9)), lat=None)
        p["v"] = [draw(st.sampled_from([0.0, 0.05, -0.2, 0.3])) for _ in range(3)] if moving and draw(st.booleans()) else [0.0, 0.0, 0.0]
        if laterals and draw(st.integers(0, 2)) == 0:
            p["lat"] = [draw(fl(0.0, 0.5)), draw(fl(0.5, 1.0)), draw(st.sampled_from([0, 0, 1, 2]))]
        plates.append(p)
    return dict(objects=objs, plates=plates)


def fixed_scene(ob):
    """The unit-scale object of a scene, if any: dx has to be small compared with its features."""
    return next((o for o in ob["objects"] if o["kind"] in FIXED), None)


FIXED_DX = {L.CURVE: 0.1, L.BUMP: 0.01, L.GATE: 0.003, L.RAMP: 0.003, L.SILO: 0.1}


def place(ob, x, d, dx, dt):
    """Moves the cloud x next to a unit-scale object if the scene has one, and gives the absolute
    obstacles: (x, objects, plates)."""
    f = fixed_scene(ob)
    if f is not None and not (f["kind"] == L.SILO and d == 2):
        k, (a, b) = f["kind"], f["at"]
        c = np.zeros(d)
        if k == L.CURVE:
            c[:2] = a, a * a
        elif k == L.BUMP:
            c[0] = 0.43 + 0.15 * a
            c[1] = 0.0475 / np.cosh(25 * (c[0] - 0.43))
        elif k == L.GATE:
            c[0] = 0.03 * a
            c[1] = 0.016 + 100 * c[0] ** 2
        elif k == L.RAMP:
            c[0] = 0.03 * a
            c[1] = -0.1 * np.tanh(100 * c[0])
        elif k == L.SILO:
            c[1] = a
            r = np.tanh(a) + 1
            c[0], c[2] = r * np.cos(np.pi * b), r * np.sin(np.pi * b)
        x = x - x.mean(0) + c
    lo, hi = x.min(0), x.max(0)
    ext = np.maximum(hi - lo, dx)
    mid = 0.5 * (lo + hi)
    objects = []
    for o in ob["objects"]:
        k = o["kind"]
        if k == L.SILO and d == 2:
            continue
        n = np.array(o["u"][:d])
        if o["a"] or np.linalg.norm(n) < 1e-3:       # axis-aligned
            n = np.eye(d)[int(abs(o["u"][0]) * 10) % d] * (1 if o["u"][1] >= 0 else -1)
        n = n / np.linalg.norm(n)
        if k == L.HALFSPACE:
            par = list(n) + list(mid - n * o["off"] * 0.5 * ext.max())
        elif k == L.BALL:
            R = (0.3 + abs(o["u"][2])) * ext.max()
            par = list(mid - n * (R + o["off"] * 0.5 * ext.max())) + [R]
        elif k == L.GROUND:
            par = [mid[1] - o["off"] * 0.5 * ext[1]]
        elif k == L.GATE:
            par = [0.016]
        elif k == L.SILO:
            par = [-1.0]
        else:
            par = []
        objects.append(dict(kind=k, bc=o["bc"], friction=o["friction"], par=[float(t) for t in par]))
    plates = []
    for p in ob["plates"]:
        t = p["type"] % (6 if d == 3 else 4)
        ax, s = {L.TOP: (1, -1), L.BOTTOM: (1, 1), L.LEFT: (0, 1), L.RIGHT: (0, -1), L.FRONT: (2, -1), L.BACK: (2, 1)}[t]
        q = dict(type=t, bc=p["bc"], friction=p["friction"], pos=float(mid[ax] - s * p["off"] * 0.5 * ext[ax]), lower=-1e15, upper=1e15,
                 v=[float(c * dx / dt) for c in p["v"]])
        if p["lat"] and ax != 2:
            oth = 1 - ax
            q["lower"], q["upper"] = float(lo[oth] + p["lat"][0] * ext[oth]), float(lo[oth] + p["lat"][1] * ext[oth])
            if len(p["lat"]) > 2 and p["lat"][2]:       # bounded on one side only
                q.update({1: dict(lower=-1e15), 2: dict(upper=1e15)}[p["lat"][2]])
        plates.append(q)
    return x, objects, plates


def add_obstacles(s, objects, plates):
    for o in objects:
        s.object(o["kind"], o["bc"], o["friction"], o["par"])
    for p in plates:
        s.plate(p["pos"], p["type"], p["bc"], p["friction"], p["lower"], p["upper"], p["v"], p.get("vmin_factor", 1.0), p.get("load_factor", 0.0))


def scene_dx(c):
    """Adapts the cell size of a world to a unit-scale object."""
    f = fixed_scene(c["ob"])
    if f is not None:
        c["dx"] = FIXED_DX[f["kind"]] * (0.3 + 0.7 * min(1.0, abs(math.log10(c["dx"])) / 3))
        c["shift"] = 0.0
    return c
