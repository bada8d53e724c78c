"""Memory safety of whole simulations, under AddressSanitizer, UBSan and checked containers."""
import os
import shutil
import subprocess
import tempfile
from ..core import *
from .. import build as BB
from . import c14, c16

ID = "C17"
VARIANTS = [v + "+asan" for v in VARS]
NOLIMIT = True
RULE = ("'world': a simulation with every feature chosen at random (model, hardening, scheme, update order, obstacles, periodic ends, friction, threads, grid reference point, ramped gravity, "
        "saving of particles and grid), particles in generic and special places (cell corners and faces, all in one point, far apart, drifting several cells per step), 1-5 frames of 1-3 steps; "
        "'sample': sampling calls (regular, random, crops, repeated) followed by a short simulation; 'terrain': generated level sets queried, sampled and used as terrain. Every case runs with AddressSanitizer, UBSan and checked containers; the arrays are counted "
        "afterwards. Non-trivial when more than one particle is simulated for at least one step")


def _runtime(name):
    return os.path.realpath(subprocess.run(["gcc", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True).stdout.strip())


ENV = {"LD_PRELOAD": _runtime("libasan.so") + " " + _runtime("libubsan.so"),
       "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=4096:malloc_context_size=3",
       "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=0"}


VDB = ["2q+asan", "3q+asan"]


def build():
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        v = ex.submit(BB.build, VDB, ("core", "geom", "io", "vdb"), libs=("-lopenvdb", "-ltbb"))
        r = dict(BB.build(VARIANTS, ("core", "geom", "io", "sample")))
        r.update({k + "+vdb": p for k, p in v.result().items()})
    return r


@st.composite
def worlds(draw):
    c = draw(c14.runs())
    c["variant"] = draw(st.sampled_from(VARIANTS))
    c["wide"] = 1.0
    c["n"] = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
    c.update(spot=draw(st.integers(0, 7)), drift=[draw(st.sampled_from([0.0, 0.0, 0.0, 0.3, -0.5, 1.0, -1.0, 3.0, -7.0])) for _ in range(3)], threads=draw(st.sampled_from([1, 1, 2, 3, 7])),
             save=draw(st.integers(0, 3)) == 0, ref=draw(st.sampled_from([None, None, [0, 0, 0], [5, -4, 2], [-30, 0, 0], [0, 25, -9]])), gs=draw(st.integers(0, 4)) == 0,
             hard=draw(st.integers(0, 4)), spread=draw(st.sampled_from([1.0, 1.0, 3.0, 12.0])), frames=draw(st.integers(1, 5)), dl=draw(st.booleans()), ve=draw(st.sampled_from([1.0, 0.5])))
    if not c["pbc"] and c["ob"] is None and draw(st.booleans()):
        c["ob"] = draw(obstacles())
        c = scene_dx(c)
    if c["pbc"]:
        c.update(drift=[draw(st.sampled_from([0.0, 0.3, -1.0, 1.0])), 0.0, 0.0], frames=min(c["frames"], 3),
                 pcells=draw(st.sampled_from([10.0, 10.0, 4.0, 5.0, 6.0, 7.0, 8.0, 5.5, 9.37])))
    return c


def make(c, lib, frames, save, directory):
    s, arr, par, g, objs, plates = c14.make(c, lib, frames, save, directory)
    d, dx, dt, r = lib.dim, par["dx"], c["dt"], rng(c, 5)
    x, n = arr["x"], c["n"]
    if not c["pbc"] and not (c["ob"] and fixed_scene(c["ob"])):
        m = x.mean(0)
        x = m + (x - m) * c["spread"]
    k = c["spot"]
    if k == 1:                         # on the corners of cells
        x = np.round(x / dx) * dx
    elif k == 2:                       # on the middle of faces
        x = (np.round(x / dx - 0.5) + 0.5) * dx
    elif k == 3 and n > 1:             # whole cells apart from the first one
        x = x[0] + np.round((x - x[0]) / dx) * dx
    elif k == 4 and n > 1:             # half cells apart from the first one
        x = x[0] + np.round((x - x[0]) / dx * 2) / 2 * dx
    elif k == 5:                       # all in one point
        x = np.repeat(x[:1], n, 0)
    elif k == 6:                       # a flat cloud
        x = x.copy()
        x[:, int(r.integers(d))] = x[0, 0] if not c["pbc"] else 4 * dx
    elif k == 7:                       # next to a face, by one rounding
        x = np.nextafter(np.round(x / dx) * dx, np.where(r.random(x.shape) < 0.5, 1e9, -1e9))
    if c["pbc"]:
        Lx = c.get("pcells", 10.0) * dx
        s.set(Lx=Lx)
        x[:, 0] = np.clip(x[:, 0] - 2.5 * dx + (r.random(n) < 0.4) * (r.integers(0, 2, n) * 2 - 1) * 10 * dx, 0, Lx)
        if k in (1, 7):                # on, or one rounding beside, a line of the grid: the ends of the range that has images among them
            e = np.round(x[:, 0] / dx) * dx
            x[:, 0] = np.clip(e if k == 1 else np.nextafter(e, np.where(r.random(n) < 0.5, 1e9, -1e9)), 0, Lx)
        x[:, 1:] = np.clip(x[:, 1:], 2 * dx, 10 * dx)
    s.put("x", x)
    s.put("v", arr["v"] + np.array(c["drift"][:d]) * dx / (dt * max(1, c["sub"])))
    s.set(hardening_law=c["hard"], use_duvaut_lions_formulation=int(c["dl"]), visc_exponent=c["ve"], gravity_special=int(c["gs"]), gravity_time=2.5 * dt)
    if c["ref"]:
        s.set(grid_reference_point=x[0] + np.array(c["ref"][:d]) * dx)
    return s, par


def lengths(s, n, what):
    need(s.getp("Np") == n, "%s: %d particles, expected %d", what, s.getp("Np"), n)
    for k in L.VEC + L.MAT + L.SCA:
        need(s.count(k) == n, "%s: array %s has %d entries for %d particles", what, k, s.count(k), n)


def run_world(c, env):
    lib = env.lib(c["variant"])
    neo = c["elastic"] == L.NEOHOOKEAN
    tmp = tempfile.mkdtemp(dir=env.scratch)
    done = 0
    try:
        # one more frame at a time: a run never has to continue from a state outside the domain
        for k in range(1, c["frames"] + 1):
            last = k == c["frames"]
            s, par = make(c, lib, k, c["save"] and last, os.path.join(tmp, "o") + "/")
            with s:
                if s.simulate(60) == 1:
                    raise Skip("time")
                lengths(s, c["n"], "after frame %d" % k)
                if s.getp("exit") != 0:
                    break
                o = s.state()
                if not finite(o) or np.abs(o["x"]).max() > 1e4 * par["dx"] + np.abs(c["shift"] * par["dx"]) * 2 or np.ptp(o["x"], axis=0).max() > 300 * par["dx"]:
                    break
                if c["pbc"] and ((o["x"][:, 1:] < 0.5 * par["dx"]) | (o["x"][:, 1:] > 11.5 * par["dx"])).any():
                    break
                if neo and not det_ok(o["F"]):
                    break
                done = k
                if last and c["n"] and k % 2:
                    s.avg()
                    s.saved_particles()
                    s.grid()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dict(nontrivial=c["n"] > 1 and done > 0, classes=["variant=" + c["variant"], "spot=%d" % c["spot"], "pbc=%d" % c["pbc"], "save=%d" % c["save"], "frames done=%d" % done, "model=" + L.MODEL_NAMES[c["model"]],
                "obstacles=%d" % bool(c["ob"]), "threads=%d" % c["threads"]], obs=dict(frames=done))


@st.composite
def samples(draw):
    calls = [dict(kind=draw(st.sampled_from(["regular", "poisson"])), L=[draw(fl(0.3, 6.0)) for _ in range(3)], ppc=draw(st.sampled_from([1.0, 4.0, 6.0, 8.0, 2.5])), crop=draw(st.sampled_from([0, 0, 1, 2])),
                  seed=draw(st.integers(0, 1000)), attempts=draw(st.integers(1, 30))) for _ in range(draw(st.integers(1, 3)))]
    return dict(variant=draw(st.sampled_from(VARIANTS)), calls=calls, dx=draw(logfl(1e-2, 1)), sim=draw(st.booleans()), threads=draw(st.sampled_from([1, 2])))


def run_sample(c, env):
    lib = env.lib(c["variant"])
    dx = c["dx"]
    with lib.sim() as s:
        for k in c["calls"]:
            s.set(Lx=k["L"][0] * dx, Ly=k["L"][1] * dx, Lz=k["L"][2] * dx, rho=1000.0, dx=dx)
            if k["kind"] == "regular":
                lib.c.ms_sample_regular(s.h, L.C.c_double(k["ppc"]), k["crop"])
            else:
                lib.c.ms_sample_poisson(s.h, L.C.c_double(0.6 * dx), L.C.c_double(k["ppc"]), k["crop"], k["attempts"], k["seed"])
            s.n = int(s.getp("Np"))
            lengths(s, s.n, "after sampling")
        n = s.n
        if c["sim"] and n:
            s.set(E=1e3, nu=0.3, gravity=[0, -1.0, 0], fps=1000.0, end_frame=2, cfl=0.5, cfl_elastic=0.5, n_threads=c["threads"])
            s.plate(0.0, L.BOTTOM)
            s.simulate(60)
            lengths(s, n, "after simulating the sample")
    return dict(nontrivial=n > 1, classes=["calls=%d" % len(c["calls"]), "simulated=%d" % (c["sim"] and n > 0)] + [k["kind"] for k in c["calls"]], obs=dict(n=n))


@st.composite
def terrains(draw):
    v = draw(st.sampled_from(VDB))
    return dict(variant=v, ls=draw(c16.levelsets(int(v[0]), nmax=14)), regular=draw(st.booleans()), ppc=draw(st.sampled_from([1.0, 4.0, 6.0])), cell=draw(fl(1.0, 4.0)), bc=draw(st.sampled_from(BCS)),
                seed=draw(seeds), threads=draw(st.sampled_from([1, 2])), far=draw(st.sampled_from([0.0, 1.0, 50.0])))


def run_terrain(c, env):
    lib = env.lib(c["variant"] + "+vdb")
    d = lib.dim
    ls = c16.LS(c["ls"], d)
    tmp = tempfile.mkdtemp(dir=env.scratch)
    r = rng(c)
    try:
        path = os.path.join(tmp, "t.vdb")
        ls.write(lib, path)
        with c16.Obj(lib, path) as o:
            lo, hi = o.bounds()
            w = hi - lo
            o.query(np.concatenate([r.uniform(lo - c["far"] * w, hi + c["far"] * w, (30, d)), lo[None], hi[None]]))
            with lib.sim() as s:
                dx = c["cell"] * ls.h
                s.set(rho=1000.0, dx=dx)
                lib.c.ms_vdb_sample(s.h, o.p, int(c["regular"]), L.C.c_double(0.5 * dx), L.C.c_double(c["ppc"]))
                n = int(s.getp("Np"))
                lengths(s, n, "after sampling")
        x = np.concatenate([r.uniform(lo, hi, (6, d)), np.array([lo + 0.5 * w])])
        with lib.sim() as s:
            s.particles(x=x, v=r.uniform(-1, 1, x.shape) * dx)
            lib.c.ms_vdb_add(s.h, path.encode(), c["bc"], L.C.c_double(0.3))
            s.set(rho=1000.0, dx=dx, particle_mass=1.0, particle_volume=1e-3, E=1e3, nu=0.3, gravity=[0, -1.0, 0], fps=10.0, end_frame=2, n_threads=c["threads"], **ONE_STEP)
            s.simulate(60)
            lengths(s, len(x), "after simulating on a level set")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dict(nontrivial=n > 0, classes=["variant=" + c["variant"], "shape=" + c["ls"]["kind"]], obs=dict(n=n))


SUBS = [Sub("world", worlds(), run_world, 4000, 60000), Sub("sample", samples(), run_sample, 600, 8000), Sub("terrain", terrains(), run_terrain, 400, 6000)]
ASSUMPTIONS = ["the PLY writer and the Poisson-disk library are stand-ins", "worlds that leave the finite domain are stopped at the frame where they do"]
