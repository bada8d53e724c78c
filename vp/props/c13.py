"""Periodic boundaries in x."""
from ..core import *
from .. import ref
from . import c03
from .c10 import distance

ID = "C13"
VARIANTS = VARS
CONFIRM = (8, 1)      # several threads are involved
RULE = ("step: a random cloud in a periodic box of 4-14 cells (particles near and exactly at the ends favoured), any transfer scheme, USL/MUSL, model, boundary "
        "obstacles that do not vary in x, material-induced friction, 1-4 threads; the step after k<=6 steps against the reference scheme on a periodic lattice; shift: the "
        "same setup moved by whole cells around the period, up to 10 steps; wrap: a lone particle drifting through an end and coming to rest within 1e-15 to 1 cell of it. Non-trivial when particles from both ends share a grid node (wrap: when it passes an end)")


@st.composite
def box(draw, models):
    c = draw(world(max_n=20, models=models, threads=(1, 1, 2, 4), modes=(0,)))
    c["cells"] = draw(st.one_of(st.integers(8, 14), st.integers(4, 9)))
    c["high"] = draw(fl(1.0, 3.0))
    c["pile"] = draw(st.sampled_from([0, 1, 1, 2, 3]))
    c["mibf"] = draw(st.booleans())
    c["drift"] = draw(st.sampled_from([0.0, 0.0, 0.4, -0.4, 0.9, -1.0]))
    c["dx"] = draw(st.sampled_from([1.0, 0.1, 0.0625, 0.3, 2.0]))
    ob = dict(objects=[], plates=[])
    for _ in range(draw(st.integers(0, 2))):
        ob["objects"].append(dict(kind=draw(st.sampled_from([L.GROUND, L.HALFSPACE, L.HALFSPACE])), bc=draw(st.sampled_from(BCS)), friction=draw(frictions),
                                  u=[0.0, draw(fl(-1, 1)), draw(fl(-1, 1))], off=draw(fl(-0.6, 0.9)), a=False))
    for _ in range(draw(st.integers(0, 2))):
        ob["plates"].append(dict(type=draw(st.sampled_from([L.TOP, L.BOTTOM, L.BOTTOM, L.FRONT, L.BACK])), bc=draw(st.sampled_from(BCS)), friction=draw(frictions),
                                 off=draw(fl(-0.6, 0.9)), lat=None, v=[draw(st.sampled_from([0.0, 0.1, -0.2])) for _ in range(3)]))
    c["ob"] = ob
    return c


@st.composite
def steps(draw):
    c = draw(box([L.NOPL, L.NOPL, L.VM, L.DP, L.DPMUI]))
    c["elastic"] = L.HENCKY
    c["k"] = draw(st.integers(0, 6))
    return c


def setup(c, env, shift=0):
    lib = env.lib(c["variant"])
    d, dx, dt = lib.dim, c["dx"], c["dt"]
    arr, par, g = world_arrays(c, d, lib.degree)
    r = rng(c, 3)
    n, Lx = c["n"], c["cells"] * dx
    x = np.zeros((n, d))
    x[:, 0] = r.uniform(0, Lx, n)
    if c["pile"]:       # near the ends
        w = 2.0 * dx
        x[:, 0] = np.where(r.random(n) < 0.5, r.uniform(0, w, n), Lx - r.uniform(0, w, n))
        if c["pile"] == 2:
            x[:, 0] = np.where(r.random(n) < 0.4, r.choice([0.0, Lx, Lx - 4 * dx, 4 * dx], n), x[:, 0])
        if c["pile"] == 3:
            x[:, 0] = np.where(r.random(n) < 0.4, np.round(x[:, 0] / dx * 4) / 4 * dx, x[:, 0])
    for k in range(1, d):
        x[:, k] = (3 + r.uniform(0, c["high"], n)) * dx      # room for the motion: the box ends at y = 0
    x[:, 0] = np.clip(x[:, 0], 0, Lx)
    arr["v"][:, 0] += c["drift"] * dx / dt
    Ly = (6 + c["high"]) * dx
    obs = dict(objects=[dict(o, u=[0.0] + o["u"][1:] if d == 3 or abs(o["u"][1]) > 1e-3 else [0.0, 1.0, 0.0]) for o in c["ob"]["objects"]],
               plates=[p for p in c["ob"]["plates"] if d == 3 or p["type"] < 4])
    _, objects, plates = place(obs, x, d, dx, dt)
    for o in objects:      # independent of x
        if o["kind"] == L.HALFSPACE:
            o["par"][0] = 0.0
            nn = np.array(o["par"][:d])
            if np.linalg.norm(nn) < 1e-6:
                nn[1] = 1.0
            o["par"][:d] = list(nn / np.linalg.norm(nn))
    arr["x"] = x
    if shift:
        xs = x.copy()
        xs[:, 0] = xs[:, 0] + shift * dx
        xs[:, 0] = np.where(xs[:, 0] > Lx, xs[:, 0] - Lx, xs[:, 0])
        arr["x"] = xs
    par["E"] = min(par["E"], c["rho"] * (0.1 * dx / dt) ** 2)
    par.update(pbc=1, Lx=Lx, Ly=Ly, use_mibf=int(c["mibf"]))
    if d == 3:
        par["Lz"] = Ly
    return lib, arr, par, g, objects, plates, Lx


def make(c, env, steps_, shift=0):
    lib, arr, par, g, objects, plates, Lx = setup(c, env, shift)
    s = lib.sim()
    s.particles(**arr)
    s.set(gravity=g, fps=1.0 / c["dt"], end_frame=steps_, **par)
    s.set(q_max=1e-2 * par["E"], M=0.6, q_cohesion=1e-2 * par["E"], mu_1=0.4, mu_2=0.7, rho_s=par["rho"] * 2, grain_diameter=c["dx"] / 10, I_ref=0.3,
          p0=1e-2 * par["E"], beta=0.1, xi=5.0, visc_time=c["dt"], **ONE_STEP)
    add_obstacles(s, objects, plates)
    return s, lib, arr, par, g, objects, plates, Lx


def in_room(c, o, d):
    y = o["x"][:, 1:] / c["dx"]
    return np.isfinite(o["x"]).all() and y.min() > 0.01 and y.max() < 8 + c["high"]


def ok_state(c, o, n, Lx):
    need(all(len(o[k]) == n for k in o), "%s particles instead of %d", {k: len(a) for k, a in o.items()}, n)
    x = o["x"][:, 0]
    need(bool(((x >= 0) & (x <= Lx)).all()), "a particle is at x = %r, outside [0, %r]", x[np.argmax(np.abs(x - Lx / 2))], Lx)


def run_step(c, env):
    st_k = None
    d = env.lib(c["variant"]).dim
    for k in range(c["k"] + 2):       # every prefix, so that no run has to continue from outside the box
        if k == 0 and c["k"] > 0:
            continue
        s, lib, arr, par, g, objects, plates, Lx = make(c, env, k)
        with s:
            if k:
                if s.simulate(60) == 1:
                    raise Skip("time")
                if s.getp("exit") != 0:
                    raise Skip("solver gave up")
            else:
                s.set(exit=0)
            out = dict(s.state())
            pl = [dict(p, pos=s.get_plate(i)["pos"]) for i, p in enumerate(plates)]
        if k == 0:
            out["muI"] = np.full(c["n"], 0.4 if c["model"] == L.DPMUI else 0.6)
        if k and not np.isfinite(out["v"]).all():
            raise Fail("not finite after step %d" % k)
        v = out["v"] * c["dt"] / c["dx"]
        if k <= c["k"] and not (in_room(c, out, d) and np.abs(v).max() < 2.0):
            raise Skip("left the box in y or too fast")
        if k:
            ok_state(c, out, c["n"], Lx)
        if k == c["k"]:
            st_k, plk = out, pl
    origin = np.array([-5 * c["dx"], -c["dx"], -5 * c["dx"]][:d])
    margin = []
    # a node and its periodic image may round differently: stay away from the edges of the kernel
    r = c03.compare(c, st_k, out, par, g, lib, arr["x"], objects, plk, period=Lx, origin=origin, margin=margin)
    R = ref.step(st_k, ref_par(par, lib.degree), c["dt"], origin, objects, plk, g, period=Lx)
    dxp = out["x"] - R["x"]
    dxp[:, 0] -= np.round(dxp[:, 0] / Lx) * Lx
    sv = max(np.abs(R["pic"]).max() * c["dt"], 1e-3 * c["dx"])
    close("position", dxp, np.zeros_like(dxp), 1e-8, atol=1e-12 * Lx, scale=sv)
    x = st_k["x"][:, 0]
    cross = bool((x < 2 * c["dx"]).any() and (x > Lx - 2 * c["dx"]).any())
    r["nontrivial"] = cross and c["n"] > 1
    r["classes"] += ["cross=%d" % cross, "threads=%d" % c["threads"], "mibf=%d" % c["mibf"], "pile=%d" % c["pile"], "obstacles=%d" % (len(objects) + len(plates))]
    return r


@st.composite
def shifts(draw):
    c = draw(box([L.NOPL, L.VM, L.DP, L.DPSOFT, L.MCC, L.VMVISC, L.DPVISC, L.MCCVISC, L.DPMUI, L.MCCMUI]))
    c["elastic"] = L.HENCKY
    c["steps"] = draw(st.integers(1, 10))
    c["shift_cells"] = draw(st.integers(1, 13))
    c["pile"] = draw(st.sampled_from([0, 1, 1]))
    return c


def run_shift(c, env):
    d = env.lib(c["variant"]).dim
    c = dict(c, shift_cells=c["shift_cells"] % c["cells"])
    if c["model"] in (L.MCC, L.MCCVISC, L.MCCMUI):
        c["mibf"] = False

    def go(shift, noise=0.0, steps_=None):
        s, lib, arr, par, g, objects, plates, Lx = make(c, env, steps_ or c["steps"], shift)
        with s:
            if noise:
                s.put("x", np.clip(arr["x"] + rng(c, 9).uniform(-1, 1, arr["x"].shape) * noise, 0, Lx))
                s.put("v", arr["v"] + rng(c, 10).uniform(-1, 1, arr["x"].shape) * noise / c["dt"])
            if s.simulate(60) == 1:
                raise Skip("time")
            if s.getp("exit") != 0:
                raise Skip("solver gave up")
            o = s.state()
        x = o["x"].copy()
        x[:, 0] -= shift * c["dx"]
        return o, dict(v=o["v"], F=o["F"], tau=o["tau"], Bmat=o["Bmat"], eps=o["eps_pl_dev"], epv=o["eps_pl_vol"], raw=x), par, Lx

    def rel(a, b, Lx):
        t = a["raw"] - b["raw"]
        t[:, 0] -= np.round(t[:, 0] / Lx) * Lx
        return distance(dict(a, dx_=t), dict(b, dx_=np.zeros_like(t)), c, par)

    for k in range(1, c["steps"]):
        o, _, par, Lx = go(0, 0.0, k)
        if not in_room(c, o, d) or np.abs(o["v"]).max() * c["dt"] > 2 * c["dx"] or not np.isfinite(o["tau"]).all():
            raise Skip("left the box in y or too fast")
    oa, a, par, Lx = go(0)
    ob, b, par, Lx = go(c["shift_cells"])
    if not in_room(c, oa, d):
        raise Skip("left the box in y or too fast")
    ok_state(c, oa, c["n"], Lx)
    ok_state(c, ob, c["n"], Lx)
    err, where = rel(a, b, Lx)
    if err > 1e-7:
        sens = max(rel(a, go(0, noise * c["dx"])[1], Lx)[0] for noise in (1e-13, 1e-12, 1e-11, 1e-10))
        if sens > 1e-3 * err:
            raise Skip("ill-conditioned")
        raise Fail("shifted by %d cells, %s differs by %.3g (natural units); rounding-size perturbations change it by %.3g" % (c["shift_cells"], where, err, sens))
    return dict(nontrivial=bool(c["shift_cells"] and c["n"] > 1 and (c["cv"] or c["ct"] or c["drift"])), classes=["variant=" + c["variant"], "model=%s" % L.MODEL_NAMES[c["model"]], "musl=%d" % c["musl"],
                                                                     "threads=%d" % c["threads"], "mibf=%d" % c["mibf"]], obs=dict(difference=err))



@st.composite
def wraps(draw):
    return dict(variant=draw(st.sampled_from(VARIANTS)), seed=draw(seeds), dx=draw(st.sampled_from([1.0, 0.1, 0.0625, 0.3, 2.0])), cells=draw(st.integers(4, 14)), end=draw(st.integers(0, 1)),
                delta=draw(st.one_of(st.sampled_from([0.0, 1e-15, -1e-15, 1e-12, -1e-12]), logfl(1e-14, 1.0), logfl(1e-14, 1.0).map(lambda t: -t))), speed=draw(st.one_of(fl(-1.9, 1.9), logfl(1e-9, 1), logfl(1e-9, 1).map(lambda t: -t))),
                steps=draw(st.one_of(st.just(1), st.integers(1, 12))), more=draw(st.sampled_from([0, 0, 3, 40])), flip=draw(flip_ratios), musl=draw(st.booleans()), dt=draw(logfl(1e-4, 1)))


def run_wrap(c, env):
    """One particle that drifts through an end of the box and comes to within delta cells of it: always inside, and where the drift takes it around the circle."""
    lib = env.lib(c["variant"])
    d, dx, dt = lib.dim, c["dx"], c["dt"]
    Lx = c["cells"] * dx
    u = c["speed"] * dx / dt
    target = c["end"] * Lx + c["delta"] * dx
    x0 = target - c["steps"] * dt * u
    if not 0 <= x0 <= Lx:
        x0 = x0 % Lx
    total = c["steps"] + c["more"]
    for k in sorted({1, c["steps"], total}):
        with lib.sim() as s:
            s.particles(x=np.array([[x0] + [4 * dx] * (d - 1)]), v=np.array([[u] + [0.0] * (d - 1)]))
            s.set(dx=dx, particle_volume=1e-12 * dx ** d, particle_mass=1.0, rho=1000.0, E=1e3, nu=0.2, flip_ratio=c["flip"], use_musl=int(c["musl"]), pbc=1, Lx=Lx, Ly=8 * dx, Lz=8 * dx,
                  fps=1.0 / dt, end_frame=k, **ONE_STEP)
            if s.simulate(60) == 1:
                raise Skip("time")
            o = s.state()
        ok_state(c, o, 1, Lx)
        off = o["x"][0, 0] - (x0 + k * dt * u)
        need(abs(off - np.round(off / Lx) * Lx) <= 1e-10 * (Lx + k * dt * abs(u)), "after %d steps of %.17g cells from x = %.17g the particle is at %.17g (box of %.17g)", k, c["speed"], x0, o["x"][0, 0], Lx)
        close("velocity", o["v"][0, 0], u, 1e-9, scale=abs(u) + 1e-300)
    wrapped = abs(np.floor((x0 + total * dt * u) / Lx)) > 0
    return dict(nontrivial=bool(wrapped), classes=["variant=" + c["variant"], "end=%d" % c["end"], "wrapped=%d" % wrapped], obs=dict(x=o["x"][0, 0] / Lx))


SUBS = [Sub("step", steps(), run_step, 8000, 150000, isolate=True), Sub("shift", shifts(), run_shift, 4000, 80000, isolate=True), Sub("wrap", wraps(), run_wrap, 4000, 60000)]
