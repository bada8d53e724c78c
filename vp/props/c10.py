"""The adaptive grid behaves like an unbounded lattice."""
from ..core import *
from .. import ref
from . import c03

ID = "C10"
VARIANTS = VARS
RULE = ("drift: a cloud in uniform motion (speeds that are simple fractions of a cell per step, or arbitrary) observed at every one of up to 60 steps; "
        "travel: a cloud that translates, expands, contracts or shears by up to a cell per step, the step after k<=25 steps compared with the reference scheme on an unbounded "
        "lattice and the grid's total mass with the particles'; frame: the same setup (obstacles included) with a grid reference point, translated, or with permuted axes. "
        "Non-trivial when the cloud leaves its initial bounding box by more than a cell or shrinks by one (drift, travel), or the transformed setup differs (frame)")


@st.composite
def drift(draw):
    return dict(variant=draw(st.sampled_from(VARS)), seed=draw(seeds), n=draw(st.integers(1, 12)),
                dx=draw(st.one_of(st.sampled_from([1.0, 0.1, 0.5, 0.01, 3.0]), logfl(1e-3, 10))), dt=draw(st.one_of(st.sampled_from([1.0, 0.1, 0.01, 0.125]), logfl(1e-4, 1))),
                extent=draw(st.one_of(st.sampled_from([0.0, 1.0, 2.0, 0.5]), fl(0, 6), fl(0, 6), fl(6, 30))), lattice=draw(st.booleans()), shift=draw(st.sampled_from([0.0, 0.0, 1.0, -7.3, 1e4])),
                speed=[draw(st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.5, 0.25, -0.25, 0.1, -0.1, 0.2, -0.2, 1 / 3, -1 / 3]), fl(-1, 1), st.sampled_from([2.0, -3.0, 5.5, -7.25]))) for _ in range(3)],
                steps=draw(st.integers(2, 60)), flip=draw(flip_ratios), musl=draw(st.booleans()), threads=draw(st.sampled_from([1, 1, 1, 2, 3])))


def run_drift(c, env):
    lib = env.lib(c["variant"])
    d, dx, dt = lib.dim, c["dx"], c["dt"]
    r = rng(c)
    x = r.uniform(0, c["extent"], (c["n"], d))
    if c["lattice"]:
        x = np.round(x * 4) / 4
    x = (x + c["shift"]) * dx
    v0 = np.array(c["speed"][:d]) * dx / dt
    with lib.sim() as s:
        s.particles(x=x, v=np.tile(v0, (c["n"], 1)))
        s.set(dx=dx, particle_volume=dx ** d / 4, particle_mass=1000 * dx ** d / 4, rho=1000.0, flip_ratio=c["flip"], use_musl=int(c["musl"]),
              E=1000.0 * (0.1 * dx / dt) ** 2, nu=0.3, fps=1.0 / dt, end_frame=c["steps"], n_threads=c["threads"], **ONE_STEP)
        s.monitor(keep=True)
        if s.simulate(60) == 1:
            raise Skip("time")
        rec = s.records()
        o = s.state()
        gm = s.grid()["mass"].sum()
    # every step is seen through the particles at its start, the last one in the final state
    xs, vs = np.concatenate([rec["x"], o["x"][None]]), np.concatenate([rec["v"], o["v"][None]])
    if len(xs) != c["steps"] + 1:
        raise Skip("steps merged by the clock")
    sv = max(np.abs(v0).max(), 1e-9 * dx / dt)
    for k in range(len(xs)):
        close("velocity at the start of step %d" % k, vs[k], np.broadcast_to(v0, vs[k].shape), 1e-8, scale=sv)
        close("position at the start of step %d" % k, xs[k], x + k * dt * v0, 1e-8, atol=1e-12 * np.abs(x).max(), scale=sv * dt * max(k, 1))
    close("deformation", o["F"], np.broadcast_to(np.eye(d), o["F"].shape), 1e-8 * c["steps"], scale=1.0)
    close("mass on the grid", [gm], [c["n"] * 1000 * dx ** d / 4], 1e-10)
    far = np.abs(np.array(c["speed"][:d])).max() * c["steps"]
    return dict(nontrivial=bool(far > 1), classes=["variant=" + c["variant"], "cells=%d" % min(64, 2 ** int(math.log2(far + 1))), "threads=%d" % c["threads"]],
                obs=dict(v=o["v"][0].tolist(), expected=v0.tolist()))


@st.composite
def travel(draw):
    c = draw(world(models=[L.NOPL], max_n=25, threads=(1, 1, 2, 4), elastic=False))
    c["k"] = draw(st.integers(1, 25))
    c["elastic"] = L.HENCKY
    c["ce"] = draw(st.sampled_from([0.001, 0.01, 0.05]))
    c["ct"] = 0.0
    c["famp"] = 0.0
    c["cv"] = draw(st.sampled_from([0.0, 0.01, 0.1]))
    c["u"] = [draw(st.one_of(st.sampled_from([0.0, 0.25, -0.5, 1.0, -1.0]), fl(-1, 1))) for _ in range(3)]
    c["rate"] = draw(st.sampled_from([0.0, 0.0, 0.05, 0.2, -0.03, -0.08]))
    c["shear"] = draw(st.sampled_from([0.0, 0.05, -0.1]))
    c["cg"] = draw(st.sampled_from([0.0, 0.01]))
    c["ref"] = draw(st.sampled_from([None, None, "in", "up"]))
    return c


def travel_sim(c, env, steps):
    lib = env.lib(c["variant"])
    arr, par, g = world_arrays(c, lib.dim, lib.degree)
    d, dx, dt = lib.dim, c["dx"], c["dt"]
    A = np.eye(d) * c["rate"]
    A[0, 1] += c["shear"]
    mid = arr["x"].mean(0)
    arr["v"] = arr["v"] + np.array(c["u"][:d]) * dx / dt + (arr["x"] - mid) @ A.T / dt
    if par["flip_ratio"] < 0:
        arr["Bmat"] = np.broadcast_to(A / dt, arr["Bmat"].shape) * ref.d_matrix_scale(dx, lib.degree)
    s = lib.sim()
    s.particles(**arr)
    s.set(gravity=g, fps=1.0 / dt, end_frame=steps, **par)
    s.set(**ONE_STEP)
    lo, hi = arr["x"].min(0), arr["x"].max(0)
    if c["ref"] == "in":
        s.set(grid_reference_point=mid)
    elif c["ref"] == "up":
        s.set(grid_reference_point=hi + 3.3 * dx)
    return s, arr, par, g, lib


def run_travel(c, env):
    st_k = None
    for k in (c["k"], c["k"] + 1):
        s, arr, par, g, lib = travel_sim(c, env, k)
        with s:
            if s.simulate(60) == 1:
                raise Skip("time")
            out = s.state()
            if not finite(out):
                raise Fail("not finite after %d steps" % k)
            gm = s.grid()["mass"].sum()
            close("mass on the grid in step %d" % k, [gm], [c["n"] * par["particle_mass"]], 1e-10)
            if k == c["k"]:
                st_k = out
    if np.abs(st_k["v"]).max() * c["dt"] > 1e3 * c["dx"]:
        raise Skip("flew apart")
    r = c03.compare(c, st_k, out, par, g, lib, arr["x"])
    lo, hi = arr["x"].min(0), arr["x"].max(0)
    mv = np.maximum(np.abs(st_k["x"].min(0) - lo), np.abs(st_k["x"].max(0) - hi)).max() / c["dx"]
    r["nontrivial"] = bool(mv > 1)
    r["classes"] = ["variant=" + c["variant"], "cells=%d" % min(64, 2 ** int(math.log2(mv + 1))), "musl=%d" % par["use_musl"], "ref=%s" % c["ref"], "threads=%d" % c["threads"]]
    return r


# ------------------------------------------------------------------ change of frame
@st.composite
def frame(draw):
    c = draw(world(models=[L.NOPL, L.NOPL, L.VM, L.DP, L.DPMUI], max_n=20, threads=(1,), elastic=False))
    c["elastic"] = L.HENCKY
    c["shift"] = draw(st.sampled_from([0.0, 1.0]))
    c["steps"] = draw(st.integers(1, 8))
    c["ob"] = draw(obstacles(fixed=False, max_objects=2, max_plates=2, laterals=True)) if draw(st.booleans()) else dict(objects=[], plates=[])
    for o in c["ob"]["objects"]:
        if o["kind"] == L.GROUND:
            o["kind"] = L.HALFSPACE
    c["how"] = draw(st.sampled_from(["ref-in", "ref-up", "ref-down", "translate", "permute", "permute"]))
    c["t"] = [draw(st.one_of(st.sampled_from([0.0, 1.0, -10.0, 100.0]), fl(-50, 50))) for _ in range(3)]
    c["perm"] = draw(st.sampled_from([[1, 0, 2], [2, 1, 0], [0, 2, 1], [1, 2, 0], [2, 0, 1]]))
    c["mibf"] = draw(st.sampled_from([False, False, True]))
    return c


TYPE_OF = {(1, -1): L.TOP, (1, 1): L.BOTTOM, (0, 1): L.LEFT, (0, -1): L.RIGHT, (2, -1): L.FRONT, (2, 1): L.BACK}


def frame_run(c, lib, how, noise=0.0):
    d, dx, dt = lib.dim, c["dx"], c["dt"]
    arr, par, g = world_arrays(c, d, lib.degree)
    x, objects, plates = place(c["ob"], arr["x"], d, dx, dt)
    if noise:
        x = x + rng(c, 9).uniform(-1, 1, x.shape) * noise
        arr["v"] = arr["v"] + rng(c, 10).uniform(-1, 1, x.shape) * noise / dt
    t = np.zeros(d)
    perm = list(range(d))
    gref = None
    lo, hi = x.min(0), x.max(0)
    if how == "translate":
        t = np.array(c["t"][:d]) * dx
    elif how == "permute":
        perm = c["perm"] if d == 3 else [1, 0]
        if any(p["lower"] > -1e14 or p["upper"] < 1e14 for p in plates) and d == 3 and perm[2] != 2:
            raise Skip("limited plates have no z direction")
    elif how == "ref-in":
        gref = lo + np.abs(np.array(c["t"][:d])) / 100 * (hi - lo)
    elif how == "ref-up":
        gref = hi + np.abs(np.array(c["t"][:d])) * 0.1 * dx
    elif how == "ref-down":
        gref = lo - np.round(np.abs(np.array(c["t"][:d])) * 0.1) * dx
    P = np.zeros((d, d))
    for i, j in enumerate(perm):
        P[i, j] = 1            # new axis i is old axis j
    y = dict(x=(x + t) @ P.T, v=arr["v"] @ P.T, Bmat=P @ arr["Bmat"] @ P.T, tau=P @ arr["tau"] @ P.T, F=P @ arr["F"] @ P.T)
    objs = []
    for o in objects:
        q = list(o["par"])
        if o["kind"] == L.HALFSPACE:
            q = list(P @ np.array(q[:d])) + list(P @ (np.array(q[d:2 * d]) + t))
        elif o["kind"] == L.BALL:
            q = list(P @ (np.array(q[:d]) + t)) + [q[d]]
        objs.append(dict(o, par=q))
    pls = []
    for p in plates:
        ax, sgn = ref.PLATE_AXIS[p["type"]]
        q = dict(p)
        q["pos"] = p["pos"] + t[ax]
        if ax != 2:
            q.update({k: p[k] + t[1 - ax] for k in ("lower", "upper") if abs(p[k]) < 1e14})
        q["type"] = TYPE_OF[(perm.index(ax), sgn)]
        q["v"] = list(P @ np.array(p["v"][:d]))
        pls.append(q)
    with lib.sim() as s:
        s.particles(**y)
        s.set(gravity=P @ g, fps=1.0 / dt, end_frame=c["steps"], **par)
        s.set(q_max=1e-2 * par["E"], M=0.6, q_cohesion=1e-2 * par["E"], mu_1=0.4, mu_2=0.7, rho_s=par["rho"] * 2, grain_diameter=dx / 10, I_ref=0.3,
              use_mibf=int(c["mibf"] and c["model"] in (L.DPMUI,)), **ONE_STEP)
        if gref is not None:
            s.set(grid_reference_point=gref)
        add_obstacles(s, objs, pls)
        if s.simulate(60) == 1:
            raise Skip("time")
        if s.getp("exit") != 0:
            raise Skip("solver gave up")
        o = s.state()
        gm = s.grid()["mass"].sum()
    close("mass on the grid", [gm], [c["n"] * par["particle_mass"]], 1e-9)
    out = dict(dx_=(o["x"] @ P) - t - x, v=o["v"] @ P, F=P.T @ o["F"] @ P, tau=P.T @ o["tau"] @ P, Bmat=P.T @ o["Bmat"] @ P,
               eps=o["eps_pl_dev"], epv=o["eps_pl_vol"])
    return out, par


def distance(a, b, c, par):
    """Largest difference in natural units (infinite when one is not finite and the other is)."""
    dx, dt = c["dx"], c["dt"]
    unit = dict(dx_=dx, v=dx / dt, F=1.0, tau=par["E"], Bmat=dx * dx / dt, eps=1.0, epv=1.0)
    worst, where = 0.0, ""
    for k in unit:
        A, B = np.asarray(a[k]) / unit[k], np.asarray(b[k]) / unit[k]
        s = 1 + max(np.nanmax(np.abs(np.where(np.isfinite(A), A, 0)), initial=0), np.nanmax(np.abs(np.where(np.isfinite(B), B, 0)), initial=0))
        e = np.abs(A - B) / s
        e = np.where(np.isfinite(A) & np.isfinite(B), e, np.where(np.isfinite(A) == np.isfinite(B), 0.0, np.inf))
        if e.size and e.max() > worst:
            worst, where = float(e.max()), k
    return worst, where


def run_frame(c, env):
    lib = env.lib(c["variant"])
    if lib.degree == 2:
        arr, par, g = world_arrays(c, lib.dim, 2)
        x = place(c["ob"], arr["x"], lib.dim, c["dx"], c["dt"])[0]
        if c["ct"] and not away_from_edges(x, c["dx"], ref.grid_origin(x, c["dx"]), 2, 1e-6):
            raise Skip("particle on the edge of a kernel")
    a, par = frame_run(c, lib, "")
    b, _ = frame_run(c, lib, c["how"])
    err, where = distance(a, b, c, par)
    if err > 1e-7:
        # how much do rounding-size changes of the input matter here?
        big = max(1.0, np.abs(a["dx_"]).max() / c["dx"])
        sens = 0.0
        for noise in (1e-13, 1e-12, 1e-11):
            n, _ = frame_run(c, lib, "", noise * c["dx"] * 10)
            sens = max(sens, distance(a, n, c, par)[0])
        if sens > 1e-3 * err:
            raise Skip("ill-conditioned")
        raise Fail("%s: %s differs by %.3g (natural units) from the original setup; rounding-size perturbations of it change it by %.3g" % (c["how"], where, err, sens))
    moved = float(np.abs(a["dx_"]).max() / c["dx"])
    return dict(nontrivial=bool(moved > 1e-3 and c["n"] > 1), classes=["variant=" + c["variant"], "how=" + c["how"], "obstacles=%d" % (len(c["ob"]["objects"]) + len(c["ob"]["plates"])),
                                                        "model=%s" % L.MODEL_NAMES[c["model"]], "moved=%d" % min(8, int(moved))], obs=dict(difference=err, moved=moved))


SUBS = [Sub("drift", drift(), run_drift, 8000, 150000, isolate=True), Sub("travel", travel(), run_travel, 6000, 120000, isolate=True), Sub("frame", frame(), run_frame, 6000, 120000)]
