"""Sampling of particles in a box."""
from ..core import *

ID = "C15"
VARIANTS = ["2q", "3q"]
PARTS = ("core", "geom", "io", "sample")
RULE = ("'regular' and 'random': a box (sides independent, often whole multiples of the spacing), spacing or radius, particles per cell, density, crop option, and possibly an earlier "
        "sampling in the same simulation; non-trivial when at least two particles result")


def setup(c, lib, s):
    s.set(Lx=c["L"][0], Ly=c["L"][1], Lz=c["L"][2], rho=c["rho"])
    if c.get("dx"):
        s.set(dx=c["dx"])


def fresh(s, n, d):
    """Everything at rest and undeformed, arrays of one length."""
    for k in L.VEC + L.MAT + L.SCA:
        need(s.count(k) == n, "array %s has %d entries for %d particles", k, s.count(k), n)
    o = s.state()
    need(bool((o["F"] == np.eye(d)).all()), "a particle starts deformed")
    for k in ("v", "pic", "flip", "Bmat", "tau") + L.SCA:
        need(bool((o[k] == 0).all()), "%s of a new particle is not zero", k)
    return o["x"]


def crop_keep(c, d, x, dx):
    """(inside, distance from the deciding surface)"""
    Lx, Lz = c["L"][0], c["L"][2]
    if d == 3 and c["crop"] == 1:
        r = np.hypot(x[:, 0] - Lx / 2, x[:, 2] - Lz / 2)
        return r < Lx / 2, np.abs(r - Lx / 2) / Lx
    if d == 3 and c["crop"] == 2:
        r = np.hypot(x[:, 0] - Lx / 2, x[:, 2] - Lz / 2)
        R = np.tanh(x[:, 1]) + 1
        return r < R, np.abs(r - R)
    if d == 2 and c["crop"] == 1:
        h = 0.05 + 100 * (x[:, 0] - Lx) ** 2 - 0.5 * dx
        return x[:, 1] < h, np.abs(x[:, 1] - h)
    return np.ones(len(x), bool), np.full(len(x), np.inf)


def same_set(name, got, want, tol):
    """got equals want as a set of points (same order not needed)."""
    need(len(got) == len(want), "%s: %d particles, expected %d", name, len(got), len(want))
    if len(got):
        from scipy.spatial import cKDTree
        dd, i = cKDTree(want).query(got)
        need(dd.max() <= tol, "%s: a particle is at %s, %.3g away from its place", name, got[int(np.argmax(dd))], dd.max())
        need(len(set(i.tolist())) == len(got), "%s: two particles share a place", name)


def sample_reg(lib, c, crop):
    d = lib.dim
    s = lib.sim()
    if c["again"]:     # an earlier, different sampling and a used state
        setup(dict(c, L=[1.7 * t for t in c["L"]]), lib, s)
        lib.c.ms_sample_regular(s.h, L.C.c_double(c["ppc"]), 0)
    setup(c, lib, s)
    lib.c.ms_sample_regular(s.h, L.C.c_double(c["ppc"]), crop)
    s.n = int(s.getp("Np"))
    return s


@st.composite
def regulars(draw):
    c = dict(variant=draw(st.sampled_from(VARIANTS)), ppc=draw(st.one_of(st.sampled_from([1.0, 4.0, 8.0, 9.0, 27.0]), fl(1, 30))), dx=draw(st.one_of(st.sampled_from([0.1, 0.05, 0.02, 1.0, 0.3]), logfl(1e-3, 10))),
             rho=draw(logfl(1, 1e4)), crop=draw(st.sampled_from([0, 0, 1, 2])), again=draw(st.booleans()))
    d = int(c["variant"][0])
    sp = c["dx"] / (c["ppc"] ** (1 / d))
    n = 30 if d == 2 else 11
    L_ = []
    for _ in range(3):
        if draw(st.booleans()):
            L_.append(draw(st.integers(1, n)) * sp)
        elif draw(st.booleans()):
            L_.append(round(draw(st.integers(1, n)) * sp, 6) or sp)
        else:
            L_.append(draw(fl(0.2, n)) * sp)
    if draw(st.integers(0, 30)) == 0:      # a long thin box
        k = draw(st.integers(0, d - 1))
        L_ = [min(t, 2.2 * sp) for t in L_]
        L_[k] = draw(st.integers(100, 3000 if d == 2 else 1500)) * sp
    c["L"] = L_
    return c


def run_regular(c, env):
    lib = env.lib(c["variant"])
    d = lib.dim
    Ls = np.array(c["L"][:d])
    sp = c["dx"] / (c["ppc"] ** (1.0 / d))
    with sample_reg(lib, c, c["crop"]) as s:
        x = fresh(s, s.n, d)
        pv, pm, dx = s.getp("particle_volume"), s.getp("particle_mass"), s.getp("dx")
    need(dx == c["dx"], "the cell size changed from %.17g to %.17g", c["dx"], dx)
    close("particle volume", pv, sp ** d, 1e-12)
    close("particle mass", pm, c["rho"] * sp ** d, 1e-12)
    near = np.abs(Ls / sp - np.round(Ls / sp))
    if ((near > 1e-11) & (near < 1e-6)).any():
        raise Skip("almost a whole number of spacings")
    m = np.floor(Ls / sp + 1e-7).astype(int)
    full = np.stack(np.meshgrid(*[np.arange(k) for k in m], indexing="ij"), -1).reshape(-1, d)
    want = (full + 0.5) * sp
    keep, dist = crop_keep(c, d, want, dx)
    clear = dist > 1e-9
    tol = 1e-9 * sp + 1e-12 * Ls.max()
    if not clear.all():
        raise Skip("a lattice point on the surface of the shape")
    need(bool((x >= 0).all() and (x <= Ls * (1 + 1e-9)).all()), "a particle lies outside the box")
    same_set("lattice", x, want[keep], tol)
    mult = near < 1e-11
    if mult.all() and c["crop"] == 0:
        close("sum of particle volumes", pv * len(x), np.prod(Ls), 1e-5)
    with sample_reg(lib, c, c["crop"]) as s:
        need(s.n == len(x) and bool((s.get("x") == x).all()), "the same request gave other particles")
    return dict(nontrivial=len(x) > 1, classes=["dim=%d" % d, "crop=%d" % c["crop"], "whole multiples=%d" % int(mult.sum()), "again=%d" % c["again"]], obs=dict(n=len(x), spacing=sp))


@st.composite
def randoms(draw):
    c = dict(variant=draw(st.sampled_from(VARIANTS)), rho=draw(logfl(1, 1e4)), crop=draw(st.sampled_from([0, 0, 1, 2])), again=draw(st.booleans()), attempts=draw(st.integers(1, 40)), seed=draw(st.integers(0, 2 ** 31 - 1)),
             ppc=draw(st.one_of(st.sampled_from([4.0, 6.0, 8.0]), fl(1, 30))), unit=draw(logfl(1e-3, 10)))
    d = int(c["variant"][0])
    n = 12 if d == 2 else 5
    c["L"] = [draw(fl(0.5, n)) * c["unit"] for _ in range(3)]
    return c


def sample_poi(lib, c, crop):
    s = lib.sim()
    if c["again"]:
        setup(dict(c, L=[0.5 * t for t in c["L"]]), lib, s)
        lib.c.ms_sample_poisson(s.h, L.C.c_double(c["unit"]), L.C.c_double(c["ppc"]), 0, 5, 1)
    setup(c, lib, s)
    lib.c.ms_sample_poisson(s.h, L.C.c_double(c["unit"]), L.C.c_double(c["ppc"]), crop, c["attempts"], c["seed"])
    s.n = int(s.getp("Np"))
    return s


def run_random(c, env):
    lib = env.lib(c["variant"])
    d = lib.dim
    Ls, R = np.array(c["L"][:d]), c["unit"]
    with sample_poi(lib, c, 0) as s:
        x = fresh(s, s.n, d)
        pv, pm, dx = s.getp("particle_volume"), s.getp("particle_mass"), s.getp("dx")
    need(len(x) >= 1, "no particles")
    need(bool((x >= 0).all() and (x <= Ls).all()), "a particle lies outside the box")
    if len(x) > 1:
        from scipy.spatial import cKDTree
        dd = cKDTree(x).query(x, k=2)[0][:, 1].min()
        need(dd >= R * (1 - 1e-12), "two particles are %.17g apart, the radius is %.17g", dd, R)
    # fills the box: no empty ball of three radii centred in the box
    from scipy.spatial import cKDTree
    g = np.stack(np.meshgrid(*[np.linspace(0, t, 7) for t in Ls], indexing="ij"), -1).reshape(-1, d)
    gap = cKDTree(x).query(g)[0].max()
    need(gap <= 3 * R, "the box has an empty ball of radius %.3g (sampling radius %.3g)", gap, R)
    close("volume of all samples", pv * len(x), np.prod(Ls), 1e-10)
    close("cell volume", dx ** d, c["ppc"] * pv, 1e-10)
    close("particle mass", pm, c["rho"] * pv, 1e-12)
    with sample_poi(lib, c, 0) as s:
        need(s.n == len(x) and bool((s.get("x") == x).all()), "the same request gave other particles")
    if len(x) > 1:
        with sample_poi(lib, dict(c, seed=c["seed"] ^ 5), 0) as s:
            need(s.n != len(x) or not bool((s.get("x") == x).all()), "the seed has no effect")
    if c["crop"]:
        keep, dist = crop_keep(c, d, x, dx)
        if dist.min() < 1e-9:
            raise Skip("a sample on the surface of the shape")
        with sample_poi(lib, c, c["crop"]) as s:
            y = fresh(s, s.n, d)
            close("volume, mass, cell size after cropping", [s.getp("particle_volume") / pv, s.getp("particle_mass") / pm, s.getp("dx") / dx], [1, 1, 1], 1e-12)
        same_set("cropped samples", y, x[keep], 0.0 + 1e-12 * Ls.max())
    return dict(nontrivial=len(x) > 1, classes=["dim=%d" % d, "crop=%d" % c["crop"], "again=%d" % c["again"]], obs=dict(n=len(x), dx=dx))


SUBS = [Sub("regular", regulars(), run_regular, 12000, 200000), Sub("random", randoms(), run_random, 8000, 100000)]
