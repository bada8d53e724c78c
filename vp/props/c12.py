"""Time step limits, frames and ramped gravity."""
from ..core import *

ID = "C12"
VARIANTS = ["2q", "2c", "3q", "3c"]
RULE = ("a free cloud (1-8 particles, one or several speeds, gravity constant, ramped or absent, elastic stresses) run over 1-40 frames with generated CFL coefficients; every "
        "step's start time, particle speeds and momentum are recorded, and each step length compared with the smallest of the limits in force; the clock is cross-checked "
        "with the motion of the centre of mass. Non-trivial when the run has at least two steps")


@st.composite
def cases(draw):
    return dict(variant=draw(st.sampled_from(VARIANTS)), seed=draw(seeds), n=draw(st.integers(1, 8)), dx=draw(logfl(1e-3, 10)),
                fps=draw(st.one_of(st.sampled_from([1.0, 3.0, 7.0, 10.0, 24.0, 30.0, 100.0, 1000.0]), logfl(1e-2, 1e4))), frames=draw(st.one_of(st.integers(1, 6), st.integers(1, 40))),
                cfl=draw(st.one_of(st.sampled_from([0.5, 1.0, 0.1]), fl(0.05, 2))), cfle=draw(st.one_of(st.sampled_from([0.5, 1.0, 0.1]), fl(0.05, 2))),
                wave=draw(logfl(0.02, 30)), speed=draw(st.one_of(st.just(0.0), logfl(1e-3, 30))), spread=draw(st.sampled_from([0.0, 0.1, 1.0])),
                grav=draw(st.one_of(st.just(0.0), logfl(1e-2, 10))), special=draw(st.booleans()), gtime=draw(st.one_of(st.just(0.0), st.just(1.0), logfl(0.05, 20))),
                famp=draw(st.sampled_from([0.0, 0.0, 0.01])), flip=draw(flip_ratios), musl=draw(st.booleans()), rho=draw(logfl(1, 1e4)), threads=draw(st.sampled_from([1, 1, 2])),
                model=draw(st.sampled_from([L.NOPL, L.NOPL, L.DP])))


def run(c, env):
    lib = env.lib(c["variant"])
    d, dx, n = lib.dim, c["dx"], c["n"]
    r = rng(c)
    fdt = 1.0 / c["fps"]
    # speeds in cells per frame; wave speed likewise
    x = r.uniform(0, 3, (n, d)) * dx
    u = r.normal(size=d)
    u /= np.linalg.norm(u)
    # differences of velocity bounded so that the cloud (and with it the grid) stays small
    v = (u + c["spread"] * min(1.0, 5 / max(c["speed"] * c["frames"], 1e-9)) * r.uniform(-1, 1, (n, d))) * c["speed"] * dx / fdt
    w = c["wave"] * dx / fdt
    E = c["rho"] * w * w
    gv = r.normal(size=d)
    gv *= c["grav"] * dx / fdt ** 2 / c["frames"] / np.linalg.norm(gv)
    F = rand_F(r, n, d, c["famp"])

    def go(limit):
        with lib.sim() as s:
            s.particles(x=x, v=v, F=F)
            # a tiny volume makes internal forces negligible: speeds stay what they are for any elastic limit
            s.set(dx=dx, particle_volume=1e-15 * dx ** d, particle_mass=c["rho"] * dx ** d / 4, rho=c["rho"], flip_ratio=c["flip"], use_musl=int(c["musl"]), E=E, nu=0.2,
                  fps=c["fps"], end_frame=c["frames"], cfl=c["cfl"], cfl_elastic=c["cfle"], gravity=gv, gravity_special=int(c["special"]), gravity_time=c["gtime"] * fdt,
                  n_threads=c["threads"], plastic_model=c["model"], M=0.5, q_cohesion=1e-3 * E)
            s.monitor(keep=True, max_steps=800)
            stuck = s.simulate(limit) == 1
            return stuck, s.overrun(), s.records(), s.state()

    stuck, over, rec, o = go(8)
    if stuck:
        again = go(16)
        # twice the time and not one more step seen: the clock stands still
        need(not again[0] or len(again[2]["t"]) != len(rec["t"]), "the run does not end: the clock stands at %.17g of %.17g", rec["t"][-1] if len(rec["t"]) else 0.0, c["frames"] * fdt)
        raise Skip("time")
    t, sp = rec["t"], rec["speed"]
    if not np.isfinite(o["v"]).all():
        raise Skip("not finite")
    xs, vs = np.concatenate([rec["x"], o["x"][None]]), np.concatenate([rec["v"], o["v"][None]])
    T = np.append(t, rec["clock"])
    if over:
        T, xs, vs = T[:-2], xs[:-2], vs[:-2]
    need(len(T) >= 2, "no step was taken")
    dt = np.diff(T)
    end = c["frames"] * fdt
    eps = 4e-15 * end * math.sqrt(len(dt)) + 4e-14
    # the clock against the motion of the centre of mass (which moves with the new momentum)
    com, mom = xs.mean(1), vs.mean(1)
    vn = np.linalg.norm(mom[1:], axis=1)
    alt = np.einsum("ki,ki->k", np.diff(com, axis=0), mom[1:]) / np.where(vn > 0, vn, 1) ** 2
    good = vn * dt > 1e-6 * (np.abs(com[1:]).max() + dx)
    if good.any() and not (np.abs(alt - dt)[good] < 1e-4 * dt[good] + eps).all():
        raise Skip("the harness's clock is not reliable here")
    need(bool((dt > 0).all()), "step of length %r", dt.min())
    lim_e = c["cfle"] * dx / w
    spd = np.maximum(np.linalg.norm(vs[:-1], axis=2).max(1), 1e-300)
    lim_c = np.where(spd > 1e-10, c["cfl"] * dx / spd, np.inf)
    for name, lim in (("elastic limit", np.full_like(dt, lim_e)), ("CFL limit", lim_c)):
        k = int(np.argmax(dt - lim * (1 + 1e-9) - eps))
        need(dt[k] <= lim[k] * (1 + 1e-9) + eps, "step %d of length %.17g starting at %.17g exceeds the %s %.17g", k, dt[k], T[k], name, lim[k])
    # frame times: none strictly inside a step; the step after one starts there
    frame = np.arange(1, c["frames"] + 1) * fdt
    k = np.clip(np.searchsorted(T, frame), 1, len(T) - 1)     # T[k-1] < frame <= T[k]
    off = np.minimum(np.abs(T[k] - frame), np.abs(T[k - 1] - frame))
    passed = (off > eps) & (frame < T[-1])
    if passed.any():
        i = int(np.argmax(passed))
        raise Fail("frame %d at %.17g lies inside the step from %.17g to %.17g" % (i + 1, frame[i], T[k[i] - 1], T[k[i]]))
    j = np.clip(np.round(T[1:] / fdt), 1, c["frames"]).astype(int)
    at_frame = np.abs(T[1:] - j * fdt) <= eps
    lim = np.minimum(lim_e, lim_c)
    short = (dt < lim * (1 - 1e-9) - eps) & ~at_frame
    if short.any():
        k = int(np.argmax(short))
        raise Fail("step %d of length %.17g from %.17g to %.17g is shorter than its limits (elastic %.17g, CFL %.17g) and does not end at a frame" % (k, dt[k], T[k], T[k + 1], lim_e, lim_c[k]))
    if not over:
        need(abs(T[-1] - end) <= eps + 2e-14, "the run ended at %.17g, expected %.17g", T[-1], end)
        need(int((dt <= eps).sum()) <= c["frames"], "more than one rounding-size step per frame")
    # gravity from the change of momentum
    ramp = np.ones(len(dt))
    if c["special"] and c["gtime"] > 0:
        ramp = np.clip(T[:-1] / (c["gtime"] * fdt), 0, 1)
    dm = np.diff(mom, axis=0)
    want = dt[:, None] * ramp[:, None] * gv
    sv = max(np.abs(vs).max(), np.abs(gv).max() * fdt, 1e-9 * w, 4 * np.abs(o["Bmat"]).max() / dx)
    close("change of mean velocity in a step", dm, want, 1e-9, atol=1e-12 * sv + np.abs(gv).max() * eps * 10, scale=np.abs(want).max())
    which = np.where(at_frame, 0, np.where(lim_c < lim_e, 1, 2))
    return dict(nontrivial=len(dt) > 1, classes=["variant=" + c["variant"], "ramp=%d" % (c["special"] and c["gtime"] > 0 and c["grav"] > 0)]
                + ["limited by " + nm for i, nm in enumerate(("frame", "CFL", "elastic")) if (which == i).any()] + (["cut off at 800 steps"] if over else []),
                obs=dict(steps=len(dt), first=float(dt[0]), elastic=lim_e, cfl=float(lim_c[0]) if np.isfinite(lim_c[0]) else None, end=float(T[-1])))


SUBS = [Sub("run", cases(), run, 15000, 300000)]
