"""Moving plates."""
from ..core import *
from .. import ref
from . import c03

ID = "C18"
VARIANTS = VARS
RULE = ("motion: 1-4 plates of any type, velocity (normal and tangential), extent, loading phase (0-6 frames, also fractional) and speed reduction, over 1-12 frames of one or many "
        "steps; final and intermediate positions against the prescribed motion; contact: the step after k<=6 frames of a cloud pushed by such plates against the "
        "reference scheme with the plates where (and as fast as) prescribed. Non-trivial when a plate moves (motion) and touches a grid node with mass (contact)")


@st.composite
def plate(draw, small=False):
    sp = st.sampled_from([0.0, 0.0, 0.05, -0.05, 0.2, -0.3]) if small else st.one_of(st.just(0.0), fl(-3, 3), logfl(1e-3, 1))
    p = dict(type=draw(st.integers(0, 5)), bc=draw(st.sampled_from(BCS)), friction=draw(frictions), v=[draw(sp) for _ in range(3)], off=draw(fl(-0.6, 0.9)),
             load=draw(st.one_of(st.just(0.0), st.integers(0, 6).map(float), fl(0.01, 6))), vmin=draw(st.one_of(st.just(1.0), st.sampled_from([2.0, 10.0, 1000.0]), fl(1, 50))),
             lat=[draw(fl(0, 0.5)), draw(fl(0.5, 1)), draw(st.sampled_from([0, 0, 1, 2]))] if draw(st.booleans()) else None)
    return p


@st.composite
def motion(draw):
    return dict(variant=draw(st.sampled_from(["2q", "3c"])), seed=draw(seeds), plates=draw(st.lists(plate(), min_size=1, max_size=4)), frames=draw(st.integers(1, 12)),
                fdt=draw(st.one_of(st.just(1.0), logfl(1e-3, 10))), sub=draw(st.sampled_from([0.0, 0.0, 0.5, 0.3, 0.017])), dx=draw(logfl(1e-2, 1)), special=draw(st.booleans()),
                side=[draw(st.sampled_from([0, 0, 1, 2, 3])) for _ in range(4)])


def run_motion(c, env):
    lib = env.lib(c["variant"])
    d, dx, fdt = lib.dim, c["dx"], c["fdt"]
    one = c["sub"] == 0
    dtm = fdt if one else c["sub"] * fdt
    rho, E = 1000.0, 1000.0 * (dx / fdt) ** 2
    with lib.sim() as s:
        s.particles(x=np.zeros((1, d)))
        s.set(dx=dx, particle_volume=1e-12, particle_mass=1.0, rho=rho, E=E, nu=0.2, fps=1 / fdt, end_frame=c["frames"], cfl=1e30, cfl_elastic=1e30 if one else c["sub"])
        init = []
        for p, side in zip(c["plates"], c["side"]):
            t = p["type"] % (6 if d == 3 else 4)
            lo, hi = (p["lat"][0], p["lat"][1]) if p["lat"] else (-1e15, 1e15)
            if side & 1:
                hi = 1e15          # bounded from below only
                lo = lo if side == 1 else -5 * lo - 1
            elif side == 2:
                lo = -1e15         # bounded from above only
            s.plate(p["off"] + 1000.0 * (1 if t in (L.TOP, L.RIGHT, L.FRONT) else -1), t, p["bc"], p["friction"], lo, hi, p["v"], p["vmin"], p["load"])
        init = [s.get_plate(i) for i in range(len(c["plates"]))]
        if s.simulate(60) == 1:
            raise Skip("time")
        fin = [s.get_plate(i) for i in range(len(c["plates"]))]
    T = c["frames"] * fdt
    moved = False
    for i, p in enumerate(c["plates"]):
        t = p["type"] % (6 if d == 3 else 4)
        ax = ref.PLATE_AXIS[t][0]
        slow = min(p["load"], c["frames"]) * fdt
        # a step that starts in the loading phase is slow throughout; a frame time is met up to rounding
        if one:
            k = math.ceil(p["load"] - 1e-9)
            lo_ = hi_ = min(max(k, 0), c["frames"]) * fdt
            if abs(p["load"] - round(p["load"])) < 1e-7 and p["load"] < c["frames"]:
                hi_ = min(hi_ + fdt * (1 if p["load"] > 0 else 0), T) if rounding(p["load"], fdt) else hi_
        else:
            lo_, hi_ = slow, min(slow + dtm * (1 + 1e-9), T) if p["load"] > 0 else slow
        for name, v in (("pos", p["v"][ax]), ("lower", 0 if ax == 2 else p["v"][1 - ax]), ("upper", 0 if ax == 2 else p["v"][1 - ax])):
            got, a = fin[i][name], init[i][name]
            if v == 0:
                need(got == a, "plate of type %d that does not move in this direction has %s %.17g, started with %.17g", t, name, got, a)
                continue
            if abs(a) > 1e14:
                continue
            moved = True
            e = [v * (lo_ / p["vmin"] + T - lo_), v * (hi_ / p["vmin"] + T - hi_)]
            tol = 1e-10 * abs(v) * T + 1e-11 * abs(a)
            need(min(e) - tol <= got - a <= max(e) + tol, "plate of type %d: %s moved by %.17g in %g, expected %.17g%s", t, name, got - a, T, e[0], "" if e[0] == e[1] else " to %.17g" % e[1])
        for k in range(d):
            want = p["v"][k] * (1 / p["vmin"] if p["load"] > c["frames"] + 1e-6 else 1)
            if abs(p["load"] - c["frames"]) <= 1.5 or not p["load"]:
                continue
            if p["load"] > c["frames"] or p["load"] < c["frames"] - 1.5:
                need(abs(fin[i]["v"][k] - want) <= 1e-12 * abs(want), "plate of type %d has speed %r along axis %d at the end, expected %r", t, fin[i]["v"][k], k, want)
    return dict(nontrivial=moved, classes=["variant=" + c["variant"], "steps per frame " + ("one" if one else "several")] + ["type=%d" % p["type"] for p in c["plates"]]
                + ["loading=%d" % int(p["load"] > 0 and p["vmin"] != 1) for p in c["plates"]], obs=dict(moved=fin[0]["pos"] - init[0]["pos"]))


def rounding(load, fdt):
    """Could the time accumulated frame by frame fall short of load * fdt by rounding?"""
    t, k = 0.0, int(round(load))
    f = 1.0 / (1.0 / fdt)
    for i in range(k):
        t += f * (i + 1) - t
    return t < load * f or abs(load - k) > 0


@st.composite
def contact(draw):
    c = draw(world(max_n=15, elastic=False, musl=True, threads=(1, 2), modes=(0, 3)))
    c["ct"] = 0.0
    c["ce"] = 0.01
    c["famp"] = 0.0
    c["plates"] = draw(st.lists(plate(small=True), min_size=1, max_size=3))
    c["k"] = draw(st.integers(0, 6))
    return c


def run_contact(c, env):
    lib = env.lib(c["variant"])
    d, dx, dt = lib.dim, c["dx"], c["dt"]
    arr, par, g = world_arrays(c, d, lib.degree)
    _, _, pls = place(dict(objects=[], plates=c["plates"]), arr["x"], d, dx, dt)
    for p, q in zip(c["plates"], pls):
        q["load_factor"], q["vmin_factor"] = p["load"], p["vmin"]
        if abs(p["load"] - c["k"]) < 1e-6 and p["load"] > 0 and p["vmin"] != 1:
            raise Skip("loading ends at this step")
    ks = [c["k"], c["k"] + 1] if c["k"] else [0, 1]
    for k in ks:
        with lib.sim() as s:
            s.particles(**arr)
            s.set(gravity=g, fps=1.0 / dt, end_frame=k, **par)
            s.set(**ONE_STEP)
            add_obstacles(s, [], pls)
            if k == 0:
                a = dict(s.state())
                continue
            if s.simulate(60) == 1:
                raise Skip("time")
            b = s.state()
        if k == c["k"]:
            a = b
    now = []
    for q in pls:
        fac = [1 / q["vmin_factor"] if j < q["load_factor"] else 1.0 for j in range(c["k"] + 1)]
        if any(abs(j - q["load_factor"]) < 1e-6 for j in range(1, c["k"] + 1)) and q["vmin_factor"] != 1:
            if rounding(q["load_factor"], dt):
                raise Skip("loading ends at a frame up to rounding")
        ax = ref.PLATE_AXIS[q["type"]][0]
        tt = dt * sum(fac[:-1])
        n = dict(q, pos=q["pos"] + tt * q["v"][ax], v=[fac[-1] * t for t in q["v"]])
        if ax != 2:
            n.update({k: q[k] + tt * q["v"][1 - ax] for k in ("lower", "upper") if abs(q[k]) < 1e14})
        now.append(n)
    margin = []
    r = c03.compare(c, a, b, par, g, lib, arr["x"], (), now, margin=margin)
    fr = ref.step(a, ref_par(par, lib.degree), dt, ref.grid_origin(arr["x"], dx), (), (), g)
    r["nontrivial"] = bool(np.abs(fr["pic"] - b["pic"]).max() > 1e-6 * max(np.abs(fr["pic"]).max(), 1e-300)) and any(any(q["v"]) for q in pls)
    r["classes"] = ["variant=" + c["variant"], "step=%d" % c["k"], "loading=%d" % any(p["vmin"] != 1 and p["load"] > c["k"] for p in c["plates"])]
    return r


SUBS = [Sub("motion", motion(), run_motion, 10000, 200000), Sub("contact", contact(), run_contact, 8000, 150000)]
