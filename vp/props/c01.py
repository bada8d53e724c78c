"""Mass and linear momentum."""
from ..core import *
from .. import ref

ID = "C01"
VARIANTS = VARS
RULE = ("a case is a random cloud of 1-40 (rarely up to 700) particles (positions, velocities, affine matrices, stresses, deformation, units, density, "
        "transfer scheme, USL/MUSL, material model with random parameters, gravity, 1-5 steps, 1-3 threads); it is non-trivial when two "
        "particles share a grid node and the particles move, carry stress or feel gravity")

MODELS = [L.NOPL, L.NOPL, L.VM, L.DP, L.DPSOFT, L.MCC, L.VMVISC, L.DPVISC, L.MCCVISC, L.DPMUI, L.MCCMUI]


@st.composite
def cases(draw):
    c = draw(world(models=MODELS, threads=(1, 1, 2, 3)))
    c["steps"] = draw(st.integers(1, 5))
    if draw(st.integers(0, 39)) == 0:
        c["n"] = draw(st.integers(100, 700))
    c["yield_rel"] = draw(st.sampled_from([1e-3, 1e-2, 0.1]))
    c["hard"] = draw(st.sampled_from([1, 2, 3, 4]))
    c["visc"] = draw(st.sampled_from([0.0, 1.0]))
    c["fixed_dt"] = draw(st.booleans()) if safe(c) else True
    return c


def safe(c):
    """Materials that stay finite whatever the deformation."""
    return c["elastic"] == L.HENCKY and c["model"] in (L.NOPL, L.VM, L.DP)


def material(c, E):
    y = c["yield_rel"] * E
    return dict(q_max=y, q_min=y, M=0.6, q_cohesion=y, p0=y, beta=0.3, xi=2.0, hardening_law=c["hard"],
                visc_time=c["visc"] * c["dt"], mu_1=0.4, mu_2=0.7, rho_s=2500, grain_diameter=1e-3)


def make(c, env, steps):
    lib = env.lib(c["variant"])
    arr, par, g = world_arrays(c, lib.dim, lib.degree)
    s = lib.sim()
    s.particles(**arr)
    s.set(gravity=g, fps=1.0 / c["dt"], end_frame=steps, **par)
    s.set(**material(c, par["E"]))
    if c["fixed_dt"]:
        s.set(**ONE_STEP)
    return s, arr, par, g, lib


def run(c, env):
    if not safe(c):
        prefixes_ok(lambda k: make(c, env, k)[0], c["steps"], c["elastic"] == L.NEOHOOKEAN)
    s, arr, par, g, lib = make(c, env, c["steps"])
    mp, dx = par["particle_mass"], par["dx"]
    with s:
        rc = s.simulate(60)
        if rc == 1:
            raise Skip("time")
        out = s.state()
        grid = s.grid()
        need(s.getp("Np") == c["n"], "number of particles changed from %d to %g", c["n"], s.getp("Np"))
        for k in out:
            need(len(out[k]) == c["n"], "array %s has %d entries for %d particles", k, len(out[k]), c["n"])
        need(s.getp("particle_mass") == mp, "particle mass changed")
        need(s.getp("particle_volume") == par["particle_volume"], "particle volume changed")
        stopped = s.getp("exit") != 0
    if stopped:
        raise Skip("solver gave up")
    if not all(np.isfinite(out[k]).all() for k in ("x", "v", "Bmat")):
        raise Fail("non-finite motion from a finite state")
    n, T = c["n"], c["steps"] * c["dt"]
    P0 = mp * arr["v"].sum(0)
    P1 = mp * out["v"].sum(0)
    want = P0 + n * mp * g * T
    tmax = max(np.abs(arr["tau"]).max(), np.nan_to_num(np.abs(out["tau"])).max(), par["E"])
    scale = n * mp * (np.abs(arr["v"]).max() + np.abs(out["v"]).max() + np.abs(g).max() * T + np.abs(arr["Bmat"]).max() / dx) \
        + n * T * par["particle_volume"] * tmax / dx
    close("total momentum after %d steps" % c["steps"], P1, want, 1e-10, scale=scale)
    # the grid of the last step carries exactly the particles' mass and momentum
    m = grid["mass"]
    need((m >= 0).all(), "negative grid mass")
    close("total grid mass", m.sum(), n * mp, 1e-12 * (n + 10), scale=n * mp)
    gv = np.stack([grid[k] for k in ("vx", "vy", "vz")[: lib.dim]], 1)
    close("grid momentum", (m[:, None] * gv).sum(0), want, 1e-10, scale=scale)
    shared = ref.Stencil(arr["x"], dx, lib.degree, ref.grid_origin(arr["x"], dx)).scatter(np.ones((n, 4 ** lib.dim))).max() > 1
    return dict(nontrivial=bool(n > 1 and shared and (c["cv"] or c["ct"] or c["cg"])),
                classes=["model=%s" % L.MODEL_NAMES[c["model"]], "variant=" + c["variant"], "musl=%d" % c["musl"],
                         "scheme=" + ("APIC" if c["flip"] < -1 else "AFLIP" if c["flip"] < 0 else "PIC/FLIP"),
                         "gravity=%d" % (c["cg"] > 0), "fixed_dt=%d" % c["fixed_dt"]],
                obs=dict(P0=P0.tolist(), P1=P1.tolist()))


def run_com(c, env):
    """The centre of mass moves with the momentum: x_cm(k+1) - x_cm(k) = dt P(k+1) / M."""
    if not safe(c):
        prefixes_ok(lambda k: make(dict(c, fixed_dt=True), env, k)[0], c["steps"] + 1, c["elastic"] == L.NEOHOOKEAN)
    states = []
    for k in (c["steps"], c["steps"] + 1):
        s, arr, par, g, lib = make(dict(c, fixed_dt=True), env, k)
        with s:
            if s.simulate(60) == 1:
                raise Skip("time")
            if s.getp("exit") != 0:
                raise Skip("solver gave up")
            states.append(s.state())
    a, b = states
    if not finite(b):
        raise Skip("not finite")
    dt = (c["steps"] + 1) * c["dt"] - c["steps"] * c["dt"]
    move = b["x"].mean(0) - a["x"].mean(0)
    want = dt * b["v"].mean(0)
    tmax = max(np.abs(a["tau"]).max(), par["E"])
    scale = np.abs(b["x"]).max() + dt * (np.abs(b["v"]).max() + np.abs(a["v"]).max()) + dt * dt * par["particle_volume"] * tmax / par["dx"] / par["particle_mass"]
    close("displacement of the centre of mass", move, want, 1e-10, scale=scale)
    return dict(nontrivial=bool(c["n"] > 1 and np.abs(want).max() > 0), classes=["variant=" + c["variant"]])


SUBS = [Sub("momentum", cases(), run, 9000, 300000), Sub("centre_of_mass", cases(), run_com, 3000, 60000)]
