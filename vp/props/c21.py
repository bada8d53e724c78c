"""Results depend on the inputs alone."""
import _ctypes
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
from ..core import *
from . import c14, c17

ID = "C21"
BASE = VARS
VARIANTS = [v + f for v in VARS for f in ("+zero", "+pat")]
RULE = ("'replay': a world A and another world B, single-threaded: A alone, A after B, A next to B (two host threads, objects alive together), A in a heap filled with other bytes, A in the build whose "
        "uninitialised variables start as a pattern, A with other output and verbosity options, all bitwise equal; 'process': A again in a fresh process with another environment and working "
        "directory; 'renumber': A with its particles permuted; 'invalid': requests the simulator refuses leave every particle array untouched. Non-trivial when A moves at least two particles "
        "through at least one step (invalid: always)")

_libc = L.C.CDLL(None)


def heap(byte):
    """Fill bytes of newly allocated heap memory (glibc's M_PERTURB)."""
    _libc.mallopt(-6, int(byte))


def narrow(c, variants):
    c = dict(c, threads=1)
    c["variant"] = variants[c17.VARIANTS.index(c["variant"])]
    return c


@st.composite
def pairs(draw):
    a, b = draw(c17.worlds()), draw(c17.worlds())
    v = draw(st.sampled_from(BASE))
    for c in (a, b):
        c.update(variant=v, threads=1, n=min(c["n"], 16), frames=min(c["frames"], 3), save=False)
    if draw(st.booleans()):
        b.update(model=a["model"], hard=a["hard"], dl=a["dl"])
        if a["model"] != L.NOPL:
            b["elastic"] = a["elastic"]
    a["bytes"] = draw(st.sampled_from([0xff, 0x55, 0x01, 0x7f]))
    return dict(a=a, b=b)


def state_of(c, lib, k, save=False, directory="/nonexistent/", verbose=False):
    s, par = c17.make(c, lib, k, save, directory)
    with s:
        if verbose:
            s.set(reduce_verbose=0)
        rc = s.simulate(60)
        return s.state(), rc, s.getp("exit"), par


def baseline(c, lib):
    """State after the last frame that is reached within the domain."""
    best, k = None, 0
    for k in range(1, c["frames"] + 1):
        o, rc, ex, par = state_of(c, lib, k)
        if rc == 1:
            raise Skip("time")
        if ex != 0 or not finite(o) or np.ptp(o["x"], axis=0).max() > 300 * par["dx"] or np.abs(o["x"]).max() > (1e4 + 2 * abs(c["shift"])) * par["dx"]:
            break
        if c["pbc"] and ((o["x"][:, 1:] < 0.5 * par["dx"]) | (o["x"][:, 1:] > 11.5 * par["dx"])).any():
            break
        if c["elastic"] == L.NEOHOOKEAN and not det_ok(o["F"]):
            break
        best = (k, o)
    if best is None:
        raise Skip("leaves the domain in the first frame")
    return best


def identical(a, b, what):
    for k in a:
        need(a[k].shape == b[k].shape, "%s: %s has another size", what, k)
        e = (a[k] == b[k]) | (np.isnan(a[k]) & np.isnan(b[k]))
        if not e.all():
            i = tuple(int(t) for t in np.argwhere(~e)[0])
            raise Fail("%s: %s%s is %.17g instead of %.17g" % (what, k, list(i), b[k][i], a[k][i]))


class Image:
    """A library image of its own: whatever the code keeps outside of its objects starts afresh."""

    def __init__(self, env, variant):
        env.lib(variant)       # stays loaded, and with it the libraries it needs: their threads may still be ending
        self.file = tempfile.mkstemp(dir=env.scratch, suffix=".so")[1]
        shutil.copyfile(env.paths[variant], self.file)
        self.lib = L.Lib(self.file, variant)

    def __enter__(self):
        return self.lib

    def __exit__(self, *a):
        _ctypes.dlclose(self.lib.c._handle)
        os.unlink(self.file)


def run_replay(c, env):
    a = c["a"]
    with Image(env, a["variant"] + "+zero") as lib, Image(env, a["variant"] + "+zero") as lib2, Image(env, a["variant"] + "+pat") as pat:
        return replay(c, env, lib, lib2, pat)


def replay(c, env, lib, lib2, pat):
    a, b = c["a"], c["b"]
    heap(0)
    k, o = baseline(a, lib)
    kb, ob = None, None
    try:
        kb, ob = baseline(b, lib2)
    except Skip:
        pass
    cls = ["variant=" + a["variant"], "model=" + L.MODEL_NAMES[a["model"]], "pbc=%d" % a["pbc"], "mibf=%d" % a["mibf"], "musl=%d" % a["musl"]]
    try:
        heap(a["bytes"])
        identical(o, state_of(a, lib, k)[0], "run again in a heap with other contents")
        identical(o, state_of(a, pat, k)[0], "uninitialised variables with other contents")
        heap(0)
        identical(o, state_of(a, pat, k)[0], "uninitialised variables and heap with other contents")
        identical(o, state_of(a, lib, k, verbose=True)[0], "verbose run")
        tmp = tempfile.mkdtemp(dir=env.scratch)
        try:
            identical(o, state_of(dict(a, grid=not a["grid"]), lib, k, True, tmp + "/o/")[0], "run with output")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if ob is not None:
            cls.append("after another")
            identical(o, state_of(a, lib2, k)[0], "run after another simulation")
            identical(ob, state_of(b, lib, kb)[0], "the other simulation, run second")
            identical(o, state_of(a, lib, k)[0], "run after both")
            # both alive and running at the same time
            sa, sb = c17.make(a, lib, k, False, "")[0], c17.make(b, lib, kb, False, "")[0]
            with sa, sb:
                t = [threading.Thread(target=s.simulate, args=(60,)) for s in (sa, sb)]
                for x in t:
                    x.start()
                for x in t:
                    x.join()
                identical(o, sa.state(), "run next to another simulation")
                identical(ob, sb.state(), "the simulation next to it")
    finally:
        heap(0)
    return dict(nontrivial=a["n"] > 1, classes=cls, obs=dict(frames=k, x=o["x"][0].tolist()))


@st.composite
def ones(draw):
    c = draw(c17.worlds())
    c.update(variant=draw(st.sampled_from(BASE)), threads=1, n=min(c["n"], 16), frames=min(c["frames"], 3), save=False)
    return c


def digest(o):
    import hashlib
    h = hashlib.sha256()
    for k in sorted(o):
        h.update(np.ascontiguousarray(o[k]).tobytes())
    return h.hexdigest()


def run_process(c, env):
    lib = env.lib(c["variant"] + "+zero")
    k, o = baseline(c, lib)
    tmp = tempfile.mkdtemp(dir=env.scratch)
    try:
        f = os.path.join(tmp, "case.json")
        with open(f, "w") as fh:
            json.dump(dict(case=c, k=k, lib=lib.path), fh)
        e = dict(os.environ, LANG="C", TZ="Asia/Tokyo", MALLOC_PERTURB_="170", HOME=tmp, X="y" * (int(c["seed"]) % 3000), PYTHONPATH=BUILD_ROOT)
        p = subprocess.run([sys.executable, "-c", "import vp.props.c21 as m; m.child(%r)" % f], cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        need(p.returncode == 0 and p.stdout.strip(), "the run in another process failed: %s", p.stderr[-500:])
        need(p.stdout.strip() == digest(o), "another process gives another result")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dict(nontrivial=c["n"] > 1, classes=["variant=" + c["variant"]], obs=dict(frames=k))


BUILD_ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def child(f):
    j = json.load(open(f))
    lib = L.Lib(j["lib"], j["case"]["variant"])
    print(digest(state_of(j["case"], lib, j["k"])[0]))
    sys.stdout.flush()
    os._exit(0)


@st.composite
def renums(draw):
    c = draw(world(max_n=20, models=list(range(10)), modes=(0, 1, 2, 4)))
    c = draw(c14.common(c))
    c.update(frames=draw(st.integers(1, 3)), sub=1, grid=False, pbc=False, ob=None, name="x", famp=min(c["famp"], 0.05), ct=min(c["ct"], 0.1), hard=draw(st.integers(0, 4)),
             rest=draw(st.sampled_from([0, 0, 1, 2])), cfl=draw(st.sampled_from([None, None, 0.3, 0.45, 1.5])))
    if c["cfl"]:     # several steps per frame, as long as the fastest particle allows
        c.update(elastic=L.HENCKY, ct=min(c["ct"], 0.01), cv=min(max(c["cv"], 1e-3), 0.3), cb=min(c["cb"], 0.1))
    return c


def rest(c, arr):
    if c["rest"]:
        arr["v"] = arr["v"].copy()
        arr["v"][rng(c, 8).permutation(c["n"])[:c["rest"]]] = 0


def run_renumber(c, env):
    lib = env.lib(c["variant"] + "+zero")
    n, d = c["n"], lib.dim
    perm = rng(c, 9).permutation(n)
    best = speed = None
    if c["cfl"]:       # largest speed before and after one undivided frame
        s, arr, par, g, objs, plates = c14.make(c, lib, 1)
        with s:
            rest(c, arr)
            s.put("v", arr["v"])
            s.set(hardening_law=c["hard"])
            s.simulate(60)
            speed = max(np.abs(arr["v"]).max(), np.abs(s.state()["v"]).max())
            if not np.isfinite(speed) or s.getp("exit"):
                raise Skip("leaves the domain in the first frame")
            speed = max(speed, 1e-6 * par["dx"] / c["dt"])
    for k in range(1, c["frames"] + 1):
        r = []
        for p in (np.arange(n), perm):
            s, arr, par, g, objs, plates = c14.make(c, lib, k)
            with s:
                rest(c, arr)
                for name, a in arr.items():
                    s.put(name, a[p])
                s.set(hardening_law=c["hard"])
                if c["cfl"]:
                    s.set(cfl=c["cfl"] * speed * c["dt"] / par["dx"])
                if s.simulate(5 if c["cfl"] else 60) == 1:
                    raise Skip("time")
                r.append((s.state(), s.getp("exit")))
        (o, e1), (q, e2) = r
        if e1 or e2 or not finite(o) or (c["elastic"] == L.NEOHOOKEAN and not det_ok(o["F"])):
            break
        dx, dt = par["dx"], c["dt"]
        sv = max(np.abs(o["v"]).max(), np.abs(o["pic"]).max(), 1e-3 * dx / dt * max(c["ct"], c["cv"], c["cg"], 1e-6))
        sx = np.abs(o["x"]).max() + dx
        close("position after renumbering", q["x"], o["x"][perm], 1e-9, scale=sx)
        close("velocity after renumbering", q["v"], o["v"][perm], 1e-6, scale=sv)
        close("deformation after renumbering", q["F"], o["F"][perm], 1e-6, scale=np.abs(o["F"]).max())
        need(len(q["x"]) == n, "%d particles instead of %d", len(q["x"]), n)
        best = k
    if best is None:
        raise Skip("leaves the domain in the first frame")
    return dict(nontrivial=n > 1 and bool((perm != np.arange(n)).any()), classes=["variant=" + c["variant"], "model=" + L.MODEL_NAMES[c["model"]], "frames=%d" % best, "step limit=%s" % c["cfl"], "at rest=%d" % c["rest"]], obs=dict(frames=best))


@st.composite
def invalids(draw):
    c = draw(c17.worlds())
    c.update(variant=draw(st.sampled_from(BASE)), threads=draw(st.sampled_from([1, 2])), n=min(c["n"], 10), save=False, frames=min(c["frames"], 2), kind=draw(st.sampled_from(["uninitialised", "elasticity", "hardening"])))
    if c["kind"] == "elasticity" and c["model"] == L.NOPL:
        c["model"] = draw(st.integers(1, 9))
    if c["kind"] == "hardening" and c["model"] not in (L.MCC, L.MCCVISC, L.MCCMUI):
        c["model"] = draw(st.sampled_from([L.MCC, L.MCCVISC, L.MCCMUI]))
    return c


def run_invalid(c, env):
    lib = env.lib(c["variant"] + "+pat")
    orig = L.Sim.__init__
    tmp = tempfile.mkdtemp(dir=env.scratch)
    try:
        if c["kind"] == "uninitialised":
            def bare(self, *a, **k):
                k["init"] = False
                orig(self, *a, **k)
            L.Sim.__init__ = bare
        try:
            s, par = c17.make(c, lib, c["frames"], False, tmp + "/")
        finally:
            L.Sim.__init__ = orig
        with s:
            if c["kind"] == "elasticity":
                s.set(elastic_model=L.NEOHOOKEAN)
            if c["kind"] == "hardening":
                s.set(hardening_law=17, elastic_model=L.HENCKY)
            before = s.state()
            need(s.simulate(60) != 1, "a refused request does not return")
            after = s.state()
            if c["kind"] == "hardening":      # noticed in the first step: the particles may have moved, but are still there
                need(s.getp("exit") == 1, "an invalid hardening law goes unnoticed")
                c17.lengths(s, c["n"], "invalid hardening law")
                for k in ("eps_pl_dev", "eps_pl_vol", "eps_pl_vol_pradhana"):
                    need(bool((after[k] == before[k]).all()), "invalid hardening law changes %s", k)
            else:
                identical(before, after, "refused request (%s)" % c["kind"])
        need(os.listdir(tmp) == [], "a refused request wrote files")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dict(nontrivial=True, classes=["kind=" + c["kind"], "variant=" + c["variant"]], obs={})


SUBS = [Sub("replay", pairs(), run_replay, 2400, 40000), Sub("process", ones(), run_process, 48, 600), Sub("renumber", renums(), run_renumber, 3000, 50000), Sub("invalid", invalids(), run_invalid, 800, 8000)]
ASSUMPTIONS = ["bitwise comparisons are single-threaded; renumbering is compared up to the re-association of sums", "the PLY writer is a stand-in"]
