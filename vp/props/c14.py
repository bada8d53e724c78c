"""Output files against the in-memory state."""
import shutil
import tempfile
from ..core import *
from .. import ref
from .. import build as B

ID = "C14"
VARIANTS = VARS
RULE = ("'run': a generated world (cloud, model, obstacles or periodic ends, save options, possibly into a directory that holds files of an earlier run) saved over 1-4 frames, every file compared "
        "with the state of a separate, non-saving run of that many frames; non-trivial when at least one frame after the first is compared and the particles moved. "
        "'record': an arbitrary in-memory state of 1-30 particles written by the output function; non-trivial when stresses and strains are non-zero")
MODELS = list(range(10))


def model_par(c, E):
    y = c["yrel"] * E
    return dict(q_max=y, q_min=0.5 * y, p_min=-y, M=0.6, q_cohesion=0.1 * y, xi=1.0, hardening_law=c["hard"], beta=0.3, p0=y, use_pradhana=int(c["pradhana"]), visc_time=c["dt"],
                visc_exponent=1.0, use_duvaut_lions_formulation=0, mu_1=0.4, mu_2=0.8, rho_s=2500.0, grain_diameter=1e-3, I_ref=0.279, q_prefac=c["qp"], use_mibf=int(c["mibf"]))


@st.composite
def common(draw, c):
    c.update(yrel=draw(logfl(1e-4, 1e-2)), hard=draw(st.sampled_from([L.NOHARD, L.EXPOEXPL, L.SINHEXPL])), pradhana=draw(st.booleans()),
             qp=draw(st.sampled_from([1 / math.sqrt(2), math.sqrt(1.5), 1.0])), mibf=draw(st.booleans()))
    if c["model"] in (L.MCC, L.MCCVISC, L.MCCMUI) and c["hard"] == L.NOHARD:
        c["hard"] = L.EXPOEXPL
    return c


@st.composite
def runs(draw):
    c = draw(world(max_n=12, models=MODELS + [L.NOPL, L.NOPL]))
    c = draw(common(c))
    c.update(frames=draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.sampled_from([5, 11, 12]))), sub=draw(st.sampled_from([1, 1, 2, 3])), grid=draw(st.booleans()), stale=draw(st.integers(0, 3)) == 0, slash=draw(st.booleans()),
             pbc=draw(st.integers(0, 3)) == 0, threads=draw(st.sampled_from([1, 1, 1, 2])), name=draw(st.sampled_from(["sim", "collapse 1", "a.b", "x_f1"])))
    c["ob"] = draw(obstacles(max_objects=1, max_plates=1, fixed=False)) if not c["pbc"] and draw(st.booleans()) else None
    c["famp"] = min(c["famp"], 0.05)
    c["wide"] = draw(st.sampled_from([1.0, 1.0, 1.0, 10.0])) if c["ob"] is None and not c["pbc"] else 1.0
    c["wideax"] = draw(st.integers(0, 2))
    if c["elastic"] == L.NEOHOOKEAN:
        c["sub"] = 1    # every step is checked for inverted elements
    if c["sub"] > 1:
        c.update(ct=min(c["ct"], 0.01), cv=min(c["cv"], 0.1), cb=min(c["cb"], 0.1))
    if c["pbc"]:      # the box has fixed ends in y and z
        c.update(shift=0.0, ct=min(c["ct"], 0.01), cv=min(c["cv"], 0.1), cg=min(c["cg"], 0.05), cb=min(c["cb"], 0.1), ce=0.01, n=min(c["n"], 8))
    return c


def make(c, lib, frames, save=False, directory="/nonexistent/", extra=0):
    d, dt = lib.dim, c["dt"]
    cc = dict(c)
    if extra:
        cc.update(n=c["n"] + extra, ct=0.0, cv=0.0, cg=0.0, cb=0.0, famp=0.0)
    arr, par, g = world_arrays(cc, d, lib.degree)
    par.update(model_par(c, par["E"]))
    objs, plates = (), ()
    if c["ob"]:
        arr["x"], objs, plates = place(c["ob"], arr["x"], d, par["dx"], dt)
    dx = par["dx"]
    if c.get("wide", 1.0) != 1.0:
        m = arr["x"].mean(0)
        ax = slice(None) if d == 2 else slice(c["wideax"], c["wideax"] + 1)      # in 3D one direction only
        arr["x"][:, ax] = (m + (arr["x"] - m) * c["wide"])[:, ax]
    if c["pbc"]:
        # whole cells, everything within the box
        ext = 12 * dx
        arr["x"] = np.clip(arr["x"], 0, 7 * dx) + 2.51 * dx
        par.update(pbc=1, Lx=10 * dx, Ly=ext, Lz=ext)
    par["n_threads"] = c["threads"]
    s = lib.sim(save=save, directory=directory, name=c["name"])
    s.particles(**arr)
    add_obstacles(s, objs, plates)
    # sub steps per frame: the elastic limit is the binding one
    s.set(gravity=g, fps=1.0 / (dt * c["sub"]), end_frame=frames, save_grid=int(c["grid"]), **par)
    s.set(cfl=1e30, cfl_elastic=1e30 if c["sub"] == 1 else dt * math.sqrt(par["E"] / par["rho"]) / dx)
    return s, arr, par, g, objs, plates


def columns(d, model, mibf):
    ax = "xyz"[:d]
    r = list(ax) + ["v" + a for a in ax] + ["p", "q", "Je"]
    if model != L.NOPL:
        r += ["eps_pl_vol", "eps_pl_dev", "delta_gamma"]
        if model in (L.DPMUI, L.MCCMUI) or (mibf and model in (L.DPVISC, L.MCCVISC)):
            r.append("muI")
        if model in (L.DPMUI, L.MCCMUI):
            r.append("viscosity")
    return r


def same(name, got, want):
    need(len(got) == len(want), "%s: %d entries, expected %d", name, len(got), len(want))
    eq = (got == want) | (np.isnan(got) & np.isnan(want))
    if not eq.all():
        i = int(np.argmin(eq))
        raise Fail("%s of entry %d is %.17g in the file, the simulation has %.17g" % (name, i, got[i], want[i]))


def check_particles(f, o, d, c, what, n):
    req = columns(d, c["model"], c["mibf"])
    for k in req:
        need(k in f, "%s lacks column %s", what, k)
    for i in range(d):
        same(what + " " + "xyz"[i], f["xyz"[i]], o["x"][:, i])
        same(what + " v" + "xyz"[i], f["v" + "xyz"[i]], o["v"][:, i])
    p, q = ref.pq(o["tau"], c["qp"])
    ts = np.abs(o["tau"]).max(axis=(1, 2)) if n else np.zeros(0)
    close(what + " p", f["p"], p, 1e-12, scale=ts + 1e-300)
    close(what + " q", f["q"], q, 1e-12, scale=ts + 1e-300)
    fs = np.abs(o["F"]).max(axis=(1, 2)) ** d
    close(what + " Je", f["Je"], np.linalg.det(o["F"]), 1e-12, scale=fs)
    for k in ("eps_pl_vol", "eps_pl_dev", "delta_gamma", "muI", "viscosity"):
        if k in req:
            same(what + " " + k, f[k], o[k])


def ply(path, what):
    need(os.path.exists(path), "%s was not written", what)
    r = L.read_ply(path)
    need(r is not None, "%s is not a PLY file", what)
    n, cols = r
    for k, a in cols.items():
        need(len(a) == n, "%s is truncated", what)
    return cols


def check_grid(f, d, r, par, c, what, total):
    """Grid file against the reference step."""
    P = np.stack([f["xyz"[i]] for i in range(d)], 1)
    V = np.stack([f["v" + "xyz"[i]] for i in range(d)], 1)
    dx = par["dx"]
    fin = [P, V, f["mass"]] + ([f["friction"]] if c["mibf"] else [])
    need(all(np.isfinite(a).all() for a in fin), "%s has non-finite values", what)
    close(what + ": total mass", f["mass"].sum(), total, 1e-9)
    if r is None:
        return
    key = {tuple(k): i for i, k in enumerate(np.round((P - r["origin"]) / dx).astype(int))}
    need(len(key) == len(P), "%s lists a node twice", what)
    has = r["has"] & (r["W"] > 1e-9)
    sv = max(np.abs(r["gridv"]).max(), np.abs(r["vgrid_old"]).max(), r["fs"], 1e-12 * dx / c["dt"])
    seen = np.zeros(len(P), bool)
    for i in np.flatnonzero(r["has"]):
        k = tuple(r["nodes"][i])
        need(k in key, "%s lacks the node at %s", what, r["npos"][i])
        j = key[k]
        seen[j] = True
        close(what + ": node position", P[j], r["npos"][i], 1e-9, scale=dx + np.abs(P).max() * 1e-3)
        close(what + ": node mass", f["mass"][j], r["mass"][i], 1e-8, atol=1e-14 * total)
        if has[i]:
            close(what + ": node velocity", V[j], r["gridv"][i], 1e-7, scale=sv / min(1.0, r["W"][i] * 1e3))
            if c["mibf"]:
                close(what + ": node friction", f["friction"][j], r["fric"][i], 1e-7, scale=np.abs(r["fric"]).max() + 1e-12)
    need(bool((f["mass"][~seen] == 0).all() and (V[~seen] == 0).all()), "%s has mass or velocity at a node no particle reaches", what)


def run(c, env):
    lib = env.lib(c["variant"])
    d = lib.dim
    neo = c["elastic"] == L.NEOHOOKEAN
    N, sub = c["frames"], c["sub"]
    tmp = tempfile.mkdtemp(dir=env.scratch)
    try:
        one = c["threads"] == 1
        # the same run without saving, frame by frame
        states = {}
        with make(c, lib, 1)[0] as s:
            states[0] = s.state()
            if c["mibf"]:
                states[0]["muI"][:] = 0.4 if c["model"] in (L.DPMUI, L.MCCMUI) else 0.6
        for k in range(1, N + 1):
            s, arr, par, g, objs, plates = make(c, lib, k)
            with s:
                if s.simulate(60) == 1:
                    raise Skip("time")
                if s.getp("exit") != 0:
                    raise Skip("solver gave up")
                states[k] = s.state()
                if not finite(states[k]):
                    raise Skip("not finite")
                if c["pbc"] and ((states[k]["x"][:, 1:] < 0.5 * par["dx"]) | (states[k]["x"][:, 1:] > 11.5 * par["dx"])).any():
                    raise Skip("left the box")
                if neo and not det_ok(states[k]["F"]):
                    raise Skip("inverted element")
        need(os.listdir(tmp) == [], "a run without saving wrote files")
        dirn = os.path.join(tmp, "out") + "/"
        if c["stale"]:
            with make(c, lib, N + 1 if sub == 1 and not neo else N, True, dirn, extra=3)[0] as s:
                s.set(save_grid=1)
                s.simulate(60)
        before = set(os.listdir(os.path.join(dirn, c["name"]))) if c["stale"] else set()
        s, arr, par, g, objs, plates = make(c, lib, N, True, dirn)
        with s:
            if s.simulate(60) == 1:
                raise Skip("time")
            final = s.state()
        out = os.path.join(dirn, c["name"])
        for k in final:
            if one:
                same("%s of the saving run" % k, final[k].ravel(), states[N][k].ravel())
        files = set(os.listdir(out))
        want = {"particles_f%d.ply" % k for k in range(N + 1)} | ({"grid_f%d.ply" % k for k in range(1, N + 1)} if c["grid"] else set())
        need(want <= files, "not written: %s", sorted(want - files))
        extra = {f for f in files - before if (f.startswith("particles_f") or f.startswith("grid_f")) and f not in want}
        need(not extra, "written although not asked for: %s", sorted(extra))
        need(set(os.listdir(dirn)) == {c["name"]} and os.listdir(tmp) == ["out"], "files outside the output directory: %s", os.listdir(tmp))
        total = par["particle_mass"] * c["n"]
        checked = 0
        for k in range(N + 1):
            f = ply(os.path.join(out, "particles_f%d.ply" % k), "particle file of frame %d" % k)
            need(len(f.get("x", ())) == c["n"], "particle file of frame %d has %d particles, the simulation %d", k, len(f.get("x", ())), c["n"])
            if one or k in (0, N):
                check_particles(f, states[k] if one or k == 0 else final, d, c, "frame %d:" % k, c["n"])
                checked += 1
            if c["grid"] and k:
                gf = ply(os.path.join(out, "grid_f%d.ply" % k), "grid file of frame %d" % k)
                r = None
                if sub == 1 and one and not c["pbc"]:
                    o = ref.grid_origin(arr["x"], par["dx"])
                    margin = []
                    pl = [dict(p, pos=p["pos"] + p["v"][ref.PLATE_AXIS[p["type"]][0]] * c["dt"] * (k - 1)) for p in plates]
                    for p in pl:
                        if ref.PLATE_AXIS[p["type"]][0] != 2:
                            oth = 1 - ref.PLATE_AXIS[p["type"]][0]
                            p.update({s_: p[s_] + p["v"][oth] * c["dt"] * (k - 1) for s_ in ("lower", "upper") if abs(p[s_]) < 1e14})
                    r = ref.step(states[k - 1], ref_par(par, lib.degree), c["dt"], o, objs, pl, g, margin=margin)
                    r["origin"] = o
                    r["fs"] = c["dt"] * par["particle_volume"] * np.abs(states[k - 1]["tau"]).max() / (par["particle_mass"] * par["dx"]) + np.abs(g).max() * c["dt"]
                    if min(margin, default=np.inf) < 1e-7 * par["dx"] or (lib.degree == 2 and not away_from_edges(states[k - 1]["x"], par["dx"], o, 2, 1e-4)):
                        r = None
                need(len({len(a) for a in gf.values()}) == 1, "grid file has columns of different length")
                if not c["pbc"]:
                    check_grid(gf, d, r, par, c, "grid of frame %d" % k, total)
                else:
                    need(all(np.isfinite(a).all() for a in gf.values()), "grid file of frame %d has non-finite values", k)
        info = open(os.path.join(out, "info.txt")).read().split()
        w = [N, 1.0 / (c["dt"] * sub), par["dx"], c["n"], par["particle_volume"]]
        need(len(info) >= 5, "info.txt has %d entries", len(info))
        for nm, a, b in zip(("end_frame", "fps", "dx", "Np", "particle_volume"), info, w):
            need(abs(float(a) - b) <= 1e-5 * abs(b), "info.txt: %s is %s, the simulation has %.17g", nm, a, b)
        last = open(os.path.join(out, "last_written.txt")).read().split()
        need(last == [str(N)], "last_written.txt says %s after frame %d", last, N)
        with open(os.path.join(out, "initial_setup.cpp"), "rb") as a, open(os.path.join(B.REPO, "src", "mpm.cpp"), "rb") as b:
            need(a.read() == b.read(), "initial_setup.cpp is not a copy of mpm.cpp")
        moved = np.abs(final["x"] - arr["x"]).max() > 0
        return dict(nontrivial=bool(moved and checked > 1), classes=["variant=" + c["variant"], "model=" + L.MODEL_NAMES[c["model"]], "grid=%d" % c["grid"], "pbc=%d" % c["pbc"],
                    "steps per frame=%d" % sub, "stale=%d" % c["stale"], "mibf=%d" % c["mibf"], "threads=%d" % c["threads"]], obs=dict(files=len(want), frames=N))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ any state
@st.composite
def records(draw):
    c = dict(variant=draw(st.sampled_from(VARIANTS)), seed=draw(seeds), n=draw(st.integers(1, 30)), model=draw(st.sampled_from(MODELS)), scale=draw(logfl(1e-9, 1e9)),
             famp=draw(st.sampled_from([0.0, 0.1, 1.0])), dt=1.0, threads=draw(st.sampled_from([1, 2, 3])), iso=draw(st.sampled_from([0, 1, 2])))
    return draw(common(c))


def run_record(c, env):
    lib = env.lib(c["variant"])
    d, n = lib.dim, c["n"]
    r = rng(c)
    tau = rand_sym(r, n, d, c["scale"])
    if c["iso"] == 1:
        tau += np.eye(d) * c["scale"] * r.uniform(-30, 30, (n, 1, 1))
    elif c["iso"] == 2:
        tau = np.eye(d) * c["scale"] * r.uniform(-30, 30, (n, 1, 1))
    o = dict(x=r.normal(size=(n, d)) * 3, v=r.normal(size=(n, d)) * 10, F=rand_F(r, n, d, c["famp"]), tau=tau)
    for k in L.SCA:
        o[k] = r.normal(size=n)
    o["Bmat"] = r.normal(size=(n, d, d))
    tmp = tempfile.mkdtemp(dir=env.scratch)
    try:
        with lib.sim(save=True, directory=tmp + "/", name="r") as s:
            s.particles(**o)
            s.set(plastic_model=c["model"], n_threads=c["threads"], **model_par(c, 1e6))
            f = s.saved_particles()
            s.save_avg()
            ca, ki, J = s.avg()
            after = s.state()
        for k in o:
            same("%s after saving" % k, after[k].ravel(), o[k].ravel())
        check_particles(f, o, d, c, "record:", n)
        written = [p for p in os.listdir(tmp + "/r") if p.startswith("particles_f")]
        need(len(written) == 1, "files written: %s", written)
        w = ply(tmp + "/r/" + written[0], "particle file")
        for k in f:
            same("file column " + k, w[k], f[k])
        # averages: volumes are the initial one times the total volume ratio, the Cauchy stress tau/J
        Jp = np.linalg.det(o["F"]) * np.exp(o["eps_pl_vol"])
        ts = np.abs(o["tau"]).max()
        tj = (np.abs(o["tau"]).max((1, 2))).sum() / Jp.sum()
        close("volume average of the Cauchy stress", ca, o["tau"].sum(0) / Jp.sum(), 1e-11, scale=tj)
        close("volume average of the Kirchhoff stress", ki, (o["tau"] * Jp[:, None, None]).sum(0) / Jp.sum(), 1e-11, scale=ts)
        close("average volume ratio", J, Jp.mean(), 1e-11)
        for nm, a in (("cauchy", ca), ("kirchh", ki), ("J", np.array([J]))):
            fn = [p for p in os.listdir(tmp + "/r") if p.startswith("avg_%s_" % nm)]
            need(len(fn) == 1, "average files: %s", sorted(os.listdir(tmp + "/r")))
            t = open(tmp + "/r/" + fn[0]).read().replace(",", " ").split()
            need(len(t) == a.size, "%s has %d entries", fn[0], len(t))
            for u, v in zip(t, a.ravel()):
                need(abs(float(u) - v) <= 1e-5 * abs(v) + 1e-300, "%s: %s, expected %.17g", fn[0], u, v)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dict(nontrivial=n > 1, classes=["variant=" + c["variant"], "model=" + L.MODEL_NAMES[c["model"]]], obs=dict(p=float(f["p"][0]), q=float(f["q"][0])))


SUBS = [Sub("run", runs(), run, 4000, 60000), Sub("record", records(), run_record, 6000, 100000)]
