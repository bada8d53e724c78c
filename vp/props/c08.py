"""Contact with rigid objects and plates."""
from ..core import *
from .. import ref
from . import c03

ID = "C08"
VARIANTS = VARS
RULE = ("node: a random particle cloud with 0-3 objects (half-spaces, balls, the built-in terrains) and 0-3 plates (static or moving, limited or not), any "
        "boundary condition and friction; the grid velocities of one step with and without obstacles are compared at every grid node; step: the particles "
        "after a step of a run with obstacles against the reference scheme; non-trivial when at least one node is in contact and its velocity is changed by it")


@st.composite
def cases(draw, steps):
    c = draw(world(max_n=25, elastic=False, musl=steps, threads=(1, 1, 2)))
    c["ob"] = draw(obstacles())
    c["dir"] = draw(st.sampled_from([None, None, None, 0, 1, 2]))
    c["gap"] = draw(st.sampled_from([0, 0, 0, 1]))
    if steps:
        c["k"] = draw(st.integers(0, 2))
    return scene_dx(c)


def arrays(c, lib):
    arr, par, g = world_arrays(c, lib.dim, lib.degree)
    par["n_threads"] = c["threads"]
    if c["dir"] is not None:      # motion along one axis only: exact zeros in the other components
        m = np.zeros(lib.dim)
        m[c["dir"] % lib.dim] = 1
        arr["v"] *= m
        g = g * m
        arr["tau"][:] = 0
        arr["Bmat"] *= m[None, :, None]
    x, objects, plates = place(c["ob"], arr["x"], lib.dim, c["dx"], c["dt"])
    arr["x"] = x
    return arr, par, g, objects, plates


def sim(c, lib, a, steps, with_contact=True):
    arr, par, g, objects, plates = a
    s = lib.sim()
    s.particles(**arr)
    s.set(gravity=g, fps=1.0 / c["dt"], end_frame=steps, **par)
    s.set(**ONE_STEP)
    if with_contact:
        add_obstacles(s, objects, plates)
    return s


def nodes(s, d):
    g = s.grid()
    X = np.stack([g[k] for k in "xyz"[:d]], 1)
    V = np.stack([g[k] for k in ("vx", "vy", "vz")[:d]], 1)
    return X, V, g["m"] if "m" in g else g["mass"]


def run_node(c, env):
    lib = env.lib(c["variant"])
    d, dx, dt = lib.dim, c["dx"], c["dt"]
    a = arrays(c, lib)
    arr, par, g, objects, plates = a
    res = []
    for w in (False, True):
        with sim(c, lib, a, 1, w) as s:
            if s.simulate(60) == 1:
                raise Skip("time")
            res.append(nodes(s, d))
    (X0, V0, m0), (X1, V1, m1) = res
    need(X0.shape == X1.shape and np.array_equal(X0, X1) and np.allclose(m0, m1, rtol=1e-12, atol=0), "obstacles change the grid or the masses on it")
    i = m0 > 0
    X, V0, V1 = X0[i], V0[i], V1[i]
    if not np.isfinite(V0).all():
        raise Skip("not finite")
    A = X + dt * V0
    ex, touched, count = V0.copy(), np.zeros(len(X), bool), np.zeros(len(X), int)
    near = np.zeros(len(X), bool)
    for o in objects:
        di = ref.obj_inside(o["kind"], o["par"], A)
        near |= np.abs(di) < 1e-9 * (dx + np.abs(A).max())
        count += di <= 0
    for p in plates:
        di = ref.plate_inside(p, A)
        near |= np.abs(di) < 1e-9 * (dx + np.abs(A).max())
        count += di <= 0
    ex = ref.contact(A, V0, objects, plates)
    sv = max(np.abs(V0).max(), max([np.abs(np.asarray(p["v"])).max() for p in plates], default=0), 1e-12 * dx / dt)
    ok = ~near
    # the free run and the contact run re-associate sums with several threads
    tol = 1e-9 * sv
    # switching between cases (approaching or not, sticking or not) is decided by rounding at the edge
    ok &= (np.abs(edge(A, V0, objects, plates)) > 1e-9 * sv)
    err = np.abs(V1 - ex).max(1)
    bad = ok & ~(err <= tol)
    if bad.any():
        k = int(np.argmax(np.where(bad, np.where(np.isnan(err), np.inf, err), -1)))
        raise Fail("node at %s (advanced to %s, inside %d obstacles): velocity %s without obstacles, %s with them, expected %s"
                   % (X[k].tolist(), A[k].tolist(), count[k], V0[k].tolist(), V1[k].tolist(), ex[k].tolist()))
    changed = (np.abs(ex - V0).max(1) > 1e-6 * sv) & ok
    return dict(nontrivial=bool(changed.any()),
                classes=["variant=" + c["variant"], "dir=%s" % c["dir"], "multi=%d" % min(2, int(count[ok].max(initial=0)))]
                + ["object=%d bc=%d" % (o["kind"], o["bc"]) for o in objects] + ["plate=%d bc=%d" % (p["type"], p["bc"]) for p in plates],
                obs=dict(nodes=int(ok.sum()), in_contact=int((count[ok] > 0).sum()), changed=int(changed.sum())))


def edge(A, V, objects, plates):
    """Distance to the nearest switch of the contact law met at each node (normal velocity zero)."""
    v = V.copy()
    e = np.full(len(A), np.inf)
    D = A.shape[1]
    for o in objects:
        i = ref.obj_inside(o["kind"], o["par"], A) <= 0
        if i.any() and o["bc"] != L.NOSLIP and (o["bc"] == L.SLIPFREE):
            vn = (v[i] * ref.obj_normal(o["kind"], o["par"], A[i])).sum(1)
            e[i] = np.minimum(e[i], np.where(vn == 0, np.inf, np.abs(vn)))
        v = ref.contact(A, v, [o], [])
    return e


def run_step(c, env):
    lib = env.lib(c["variant"])
    a = arrays(c, lib)
    arr, par, g, objects, plates = a
    st_k = None
    pl = [dict(p) for p in plates]
    for k in (c["k"], c["k"] + 1):
        with sim(c, lib, a, k) as s:
            if k == 0:
                st_k = dict(s.state())
                continue
            if s.simulate(60) == 1:
                raise Skip("time")
            out = s.state()
            if k == c["k"]:
                st_k = out
                for i, p in enumerate(pl):
                    q = s.get_plate(i)
                    p.update(pos=q["pos"], lower=q["lower"], upper=q["upper"])
    margin = []
    r = c03.compare(c, st_k, out, par, g, lib, arr["x"], objects, pl, margin=margin)
    fr = ref.step(st_k, ref_par(par, lib.degree), c["dt"], ref.grid_origin(arr["x"], c["dx"]), (), (), g)
    r["nontrivial"] = bool(np.abs(fr["pic"] - out["pic"]).max() > 1e-6 * max(np.abs(fr["pic"]).max(), 1e-300))
    return r


SUBS = [Sub("node", cases(False), run_node, 16000, 300000), Sub("step", cases(True), run_step, 8000, 150000)]
