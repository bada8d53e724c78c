"""Independence of threads and schedules."""
import os
import shutil
import tempfile
from ..core import *
from .. import build as BB
from .. import remote
from . import c14, c17

ID = "C11"
VARIANTS = VARS
NOLIMIT = True
RULE = ("'race': a world with every feature chosen at random, run by 2-8 threads on an OpenMP runtime that hands out the iterations, picks team sizes and switches threads at random, under "
        "ThreadSanitizer: no report, no deadlock, and the particles of the single-threaded run; 'real': the same comparison on the stock runtime, for more particles. Non-trivial when at least two "
        "threads have particles and (race) at least one switch between threads was forced")
TS = [v + "+tsan" for v in VARS]


def build():
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(BB.build, TS, ("core", "geom", "io"), server=True)
        r = dict(BB.build(VARS))
        r.update(a.result())
    return r


SERVERS = {}


def server(env, v):
    if v not in SERVERS:
        SERVERS[v] = remote.Server(env.paths[v + "+tsan"], tempfile.mkdtemp(prefix="srv", dir=env.scratch))
    return SERVERS[v]


@st.composite
def worlds(draw, max_n, max_frames):
    c = draw(c17.worlds())
    c["variant"] = draw(st.sampled_from(VARS))
    c.update(n=draw(st.integers(2, max_n)), threads=draw(st.integers(2, 8)), frames=draw(st.integers(1, max_frames)), save=False, name="x",
             sched=draw(st.integers(1, 2**31)), dyn=draw(st.sampled_from([0, 0, 1])))
    if c["spot"] != 0 and draw(st.booleans()):
        c["spot"] = 0
    if c["spot"] == 0:
        c.update(drift=[t * 0.9173 for t in c["drift"]], famp=min(c["famp"], 0.05), ct=min(c["ct"], 0.1))
    return c


def single(c, lib):
    """(frames, state) of the single-threaded run, up to the last frame within the domain."""
    best = None
    for k in range(1, c["frames"] + 1):
        s, par = c17.make(dict(c, threads=1), lib, k, False, "")
        with s:
            if s.simulate(60) == 1:
                raise Skip("time")
            o = s.state()
            if s.getp("exit") != 0:
                break
        dx = par["dx"]
        if not finite(o) or np.ptp(o["x"], axis=0).max() > 300 * dx or np.abs(o["x"]).max() > (1e4 + 2 * abs(c["shift"])) * dx:
            break
        if c["pbc"] and ((o["x"][:, 1:] < 0.5 * dx) | (o["x"][:, 1:] > 11.5 * dx)).any():
            break
        if c["elastic"] == L.NEOHOOKEAN and not det_ok(o["F"]):
            break
        best = (k, o, par)
    if best is None:
        raise Skip("leaves the domain in the first frame")
    return best


def compare(c, o, q, par, what):
    dx, dt = par["dx"], c["dt"]
    need(len(q["x"]) == c["n"], "%s: %d particles instead of %d", what, len(q["x"]), c["n"])
    if c["spot"] != 0:
        return      # special places: a different rounding may decide on which side of a cell or surface a point lies
    sv = max(np.abs(o["v"]).max(), np.abs(o["pic"]).max(), 1e-3 * dx / dt * max(c["ct"], c["cv"], c["cg"], 1e-6), np.abs(c["drift"]).max() * dx / (dt * max(1, c["sub"])))
    close(what + ": position", q["x"], o["x"], 1e-9, scale=np.abs(o["x"]).max() + dx)
    close(what + ": velocity", q["v"], o["v"], 1e-6, scale=sv)
    close(what + ": deformation", q["F"], o["F"], 1e-6, scale=np.abs(o["F"]).max())
    for k in ("eps_pl_dev", "eps_pl_vol", "muI"):
        close(what + ": " + k, q[k], o[k], 1e-6, scale=np.abs(o[k]).max() + 1e-3)


def gave_up(c, ex):
    """The Newton iterations of the implicit hardening laws converge or not depending on the last digit."""
    if ex == 0:
        return
    if c["model"] in (L.MCC, L.MCCVISC, L.MCCMUI) and c["hard"] in (L.EXPOIMPL, L.SINHIMPL):
        raise Skip("the implicit solver gives up")
    raise Fail("%d threads: the run fails, the single-threaded one does not" % c["threads"])


def classes(c, k):
    return ["variant=" + c["variant"], "threads=%d" % c["threads"], "model=" + L.MODEL_NAMES[c["model"]], "pbc=%d" % c["pbc"], "mibf=%d" % c["mibf"], "musl=%d" % c["musl"], "obstacles=%d" % bool(c["ob"]),
            "compared=%d" % (c["spot"] == 0), "frames=%d" % k]


def run_race(c, env):
    k, o, par = single(c, env.lib(c["variant"]))
    srv = server(env, c["variant"])
    s, _ = c17.make(c, srv, k, False, "")
    s.seed, s.dyn = c["sched"], c["dyn"]
    try:
        s.simulate()
        if s.races and not s.exit:
            t = srv.report()
            srv.stop()
            del SERVERS[c["variant"]]
            lines = [x.strip() for x in t.split("\n")]
            where = [x for x in lines if "/src/" in x][:4]
            raise Fail("%d unsynchronised accesses with %d threads, first: %s" % (s.races, c["threads"], " | ".join(where) or " ".join(lines[:12])))
        q = s.state()
    except remote.ServerDied as e:
        raise Fail("%d threads: %s" % (c["threads"], e))
    gave_up(c, s.exit)
    compare(c, o, q, par, "%d threads" % c["threads"])
    return dict(nontrivial=s.switches > 0, classes=classes(c, k) + ["team sizes vary=%d" % c["dyn"]], obs=dict(switches=s.switches, frames=k))


def run_real(c, env):
    lib = env.lib(c["variant"])
    k, o, par = single(c, lib)
    s, _ = c17.make(c, lib, k, False, "")
    with s:
        if s.simulate(60) == 1:
            raise Skip("time")
        q = s.state()
        gave_up(c, s.getp("exit"))
    compare(c, o, q, par, "%d threads" % c["threads"])
    return dict(nontrivial=True, classes=classes(c, k), obs=dict(frames=k))


SUBS = [Sub("race", worlds(12, 2), run_race, 3000, 60000), Sub("real", worlds(40, 4), run_real, 4000, 60000)]
ASSUMPTIONS = ["the schedule-exploring runtime implements the OpenMP entry points GCC emits for the simulator; a construct it lacks is taken from libgomp",
               "runs in which the plasticity solver gives up (it sets one shared stop flag) are outside the comparison"]
