"""One step equals the published scheme (independent reference)."""
from ..core import *
from .. import ref

ID = "C03"
VARIANTS = VARS
RULE = ("a case is a random particle cloud (1-40 particles, all state fields random), a transfer ratio, USL/MUSL, gravity, a material and a step "
        "index 1-4 of a run; the state before that step is taken from the code (or generated, for the first step) and the state after it compared with "
        "the reference; non-trivial when at least two particles share grid nodes and velocities or stresses are non-zero")


@st.composite
def cases(draw):
    c = draw(world(models=[L.NOPL, L.NOPL, L.VM, L.DP], threads=(1, 1, 2)))
    c["k"] = draw(st.integers(0, 3))
    c["init_pic"] = draw(st.booleans())
    return c


def make(c, env, steps):
    lib = env.lib(c["variant"])
    arr, par, g = world_arrays(c, lib.dim, lib.degree)
    s = lib.sim()
    s.particles(**arr)
    if c["init_pic"]:    # left-overs of an earlier step must not matter
        r = rng(c, 7)
        s.put("pic", r.normal(size=arr["v"].shape) * np.abs(arr["v"]).max())
        s.put("flip", r.normal(size=arr["v"].shape) * np.abs(arr["v"]).max())
    s.set(gravity=g, fps=1.0 / c["dt"], end_frame=steps, **par)
    s.set(q_max=1e-2 * par["E"], M=0.6, q_cohesion=1e-2 * par["E"], **ONE_STEP)
    return s, arr, par, g, lib


def run(c, env):
    neo = c["elastic"] == L.NEOHOOKEAN
    if neo:
        prefixes_ok(lambda k: make(c, env, k)[0], c["k"] + 1, True)
    st_k = None
    for k in (c["k"], c["k"] + 1):
        s, arr, par, g, lib = make(c, env, k)
        with s:
            if k == 0:
                st_k = dict(s.state())
                continue
            if s.simulate(60) == 1:
                raise Skip("time")
            out = s.state()
        if k == c["k"]:
            st_k = out
    return compare(c, st_k, out, par, g, lib, arr["x"])


def compare(c, a, b, par, g, lib, x0, objects=(), plates=(), period=None, origin=None, margin=None, F=True, dt=None):
    dx, dt = par["dx"], c["dt"] if dt is None else dt
    origin = ref.grid_origin(x0, dx) if origin is None else origin
    if not finite({k: a[k] for k in ("x", "v", "F", "tau", "Bmat")}):
        raise Skip("not finite")
    if lib.degree == 2 and not away_from_edges(a["x"], dx, origin, 2, 1e-4):
        raise Skip("particle on the edge of a kernel")
    r = ref.step(a, ref_par(par, lib.degree), dt, origin, objects, plates, g, period=period, margin=margin)
    if margin is not None and min(margin, default=np.inf) < 1e-7 * dx:
        raise Skip("node on a surface")
    sv = max(np.abs(a["v"]).max(), np.abs(r["gridv"]).max(), np.abs(r["vgrid_old"]).max(), np.abs(g).max() * dt,
             dt * par["particle_volume"] * np.abs(a["tau"]).max() / (par["particle_mass"] * dx), 1e-12 * dx / dt,
             *[np.abs(np.asarray(q["v"], float)).max() for q in plates])      # what is left after contact may be the rounding of a plate's speed
    close("velocity", b["v"], r["v"], 1e-8, scale=sv)
    close("affine state", b["Bmat"], r["Bmat"], 1e-8, scale=sv * dx)
    if period is None:
        close("position", b["x"] - a["x"], r["x"] - a["x"], 1e-8, atol=1e-14 * np.abs(a["x"]).max(), scale=sv * dt)
    if F and c.get("model", 0) == L.NOPL:
        close("deformation gradient", b["F"], r["F"], 1e-8, scale=max(1, np.abs(a["F"]).max()) * (1 + sv * dt / dx))
    shared = len(a["x"]) > 1 and (r["W"].max() > 0 and np.bincount(ref.Stencil(a["x"], dx, lib.degree, origin).inv.ravel()).max() > 1)
    fr = par["flip_ratio"]
    return dict(nontrivial=bool(shared and (np.abs(a["v"]).max() > 0 or np.abs(a["tau"]).max() > 0)),
                classes=["variant=" + c["variant"], "scheme=" + ("APIC" if fr < -1 else "AFLIP" if fr < 0 else "FLIP" if fr == 1 else "PIC" if fr == 0 else "PIC/FLIP"),
                         "musl=%d" % par["use_musl"], "step=%d" % c.get("k", 0), "model=%s" % L.MODEL_NAMES[c.get("model", 0)]],
                obs=dict(v0=b["v"][0].tolist(), ref=r["v"][0].tolist()))


SUBS = [Sub("step", cases(), run, 20000, 400000)]
