"""Affine reproduction and APIC angular momentum."""
from ..core import *
from .. import ref

ID = "C02"
VARIANTS = VARS
RULE = ("cases are random particle clouds with (a) a uniform velocity and rotated, stress-free particles for 1-5 steps of any scheme, (b) an affine velocity field "
        "with the matching affine state for one step of an affine scheme, (c) arbitrary velocities, affine states, stresses and gravity under pure APIC for 1-3 "
        "steps; non-trivial when at least two particles share a grid node and the field is not zero")


def D_of(dx, degree):
    return ref.d_matrix_scale(dx, degree)


@st.composite
def uniform_cases(draw):
    c = draw(world(models=[L.NOPL]))
    c["steps"] = draw(st.integers(1, 5))
    c["rot"] = draw(st.booleans())
    return c


def shared_nodes(x, dx, degree):
    return len(x) > 1 and bool(np.bincount(ref.Stencil(x, dx, degree, ref.grid_origin(x, dx)).inv.ravel()).max() > 1)


def run_uniform(c, env):
    lib = env.lib(c["variant"])
    arr, par, g = world_arrays(dict(c, cg=0.0), lib.dim, lib.degree)
    d, n, dx, dt = lib.dim, c["n"], c["dx"], c["dt"]
    v = arr["v"][0].copy()
    F = rand_rot(rng(c, 3), n, d) if c["rot"] else np.repeat(np.eye(d)[None], n, 0)
    with lib.sim() as s:
        s.particles(x=arr["x"], v=np.repeat(v[None], n, 0), F=F)
        s.set(fps=1.0 / dt, end_frame=c["steps"], **par, **ONE_STEP)
        s.simulate(60)
        o = s.state()
    V = np.abs(v).max()
    close("velocity", o["v"], np.repeat(v[None], n, 0), 1e-10, atol=1e-13 * dx / dt, scale=V)
    close("position", o["x"], arr["x"] + c["steps"] * dt * v, 1e-10, atol=1e-13 * (np.abs(arr["x"]).max() + dx), scale=V * dt)
    close("deformation gradient", o["F"], F, 1e-9 * (1 + abs(c["shift"])))
    close("affine state", o["Bmat"], np.zeros_like(F), 0, atol=1e-10 * V * dx + 1e-12 * dx * dx / dt)
    return dict(nontrivial=bool(V > 0 and shared_nodes(arr["x"], dx, lib.degree)), classes=["variant=" + c["variant"], "musl=%d" % c["musl"]])


@st.composite
def affine_cases(draw):
    c = draw(world(models=[L.NOPL], flips=st.one_of(st.sampled_from([-2.0, -1.0, -0.95, -1e-9, -0.5]), fl(-3, -1e-3))))
    c["grad"] = draw(st.sampled_from([1e-3, 0.05, 0.3]))
    c["kind"] = draw(st.sampled_from(["general", "rotation", "shear", "stretch"]))
    return c


def run_affine(c, env):
    lib = env.lib(c["variant"])
    arr, par, g = world_arrays(dict(c, cg=0.0), lib.dim, lib.degree)
    d, n, dx, dt = lib.dim, c["n"], c["dx"], c["dt"]
    r = rng(c, 5)
    C = r.uniform(-1, 1, (d, d)) * c["grad"] / dt
    if c["kind"] == "rotation":
        C = C - C.T
    elif c["kind"] == "stretch":
        C = np.diag(np.diag(C))
    elif c["kind"] == "shear":
        C = np.zeros((d, d)) + np.eye(d, k=1) * C[0, 0]
    x0 = arr["x"].mean(0)
    a = arr["v"][0]
    v = a + (arr["x"] - x0) @ C.T
    B = np.repeat((C * D_of(dx, lib.degree))[None], n, 0)
    F = arr["F"]
    with lib.sim() as s:
        s.particles(x=arr["x"], v=v, Bmat=B, F=F)
        s.set(fps=1.0 / dt, end_frame=1, **par, **ONE_STEP)
        s.simulate(60)
        o = s.state()
    sc = np.abs(v).max() + np.abs(C).max() * 2 * dx
    rt = 1e-9 * (1 + abs(c["shift"]) * 1e-2)
    close("velocity", o["v"], v, rt, scale=sc)
    close("affine state", o["Bmat"], B, rt, scale=sc * dx)
    close("position", o["x"] - arr["x"], dt * v, rt, atol=1e-14 * np.abs(arr["x"]).max(), scale=sc * dt)
    want = np.einsum("ij,njk->nik", np.eye(d) + dt * C, F)
    close("deformation gradient", o["F"], want, rt * (1 + sc * dt / dx), scale=max(1.0, np.abs(F).max()))
    return dict(nontrivial=bool(sc > 0 and shared_nodes(arr["x"], dx, lib.degree)), classes=["variant=" + c["variant"], "kind=" + c["kind"], "musl=%d" % c["musl"]])


def angular(x, v, B, m, x0):
    """Antisymmetric part of sum m ((x-x0) v^T)^T plus that of the affine states, as components (i<j)."""
    d = x.shape[1]
    M = m * (np.einsum("ni,nj->ij", x - x0, v) + B.sum(0).T)
    return np.array([M[i, j] - M[j, i] for i in range(d) for j in range(i + 1, d)])


@st.composite
def ang_cases(draw):
    c = draw(world(models=[L.NOPL, L.NOPL, L.VM, L.DP], flips=st.sampled_from([-2.0, -1.5, -1.0000001, -10.0])))
    c["k"] = draw(st.integers(0, 2))
    return c


def run_angular(c, env):
    lib = env.lib(c["variant"])
    arr, par, g = world_arrays(c, lib.dim, lib.degree)
    dx, dt, mp = c["dx"], c["dt"], par["particle_mass"]

    def make(k):
        s = lib.sim()
        s.particles(**arr)
        s.set(gravity=g, fps=1.0 / dt, end_frame=k, **par, **ONE_STEP)
        s.set(q_max=1e-2 * par["E"], M=0.6, q_cohesion=1e-2 * par["E"])
        return s
    if c["elastic"] == L.NEOHOOKEAN:
        prefixes_ok(make, c["k"] + 1, True)
    st_k = dict(arr)
    for k in (c["k"], c["k"] + 1):
        if k == 0:
            continue
        with make(k) as s:
            s.simulate(60)
            out = s.state()
        if k == c["k"]:
            st_k = out
    x0 = st_k["x"].mean(0)
    L0 = angular(st_k["x"], st_k["v"], st_k["Bmat"], mp, x0)
    L1 = angular(out["x"], out["v"], out["Bmat"], mp, x0)
    G = np.repeat(g[None], c["n"], 0)
    T = angular(st_k["x"], G, np.zeros_like(st_k["Bmat"]), mp, x0) * dt
    ext = np.abs(out["x"] - x0).max() + np.abs(st_k["x"] - x0).max() + 2 * dx
    vs = np.abs(st_k["v"]).max() + np.abs(out["v"]).max() + np.abs(g).max() * dt + dt * np.abs(st_k["tau"]).max() * par["particle_volume"] / (mp * dx) \
        + (np.abs(st_k["Bmat"]).max() + np.abs(out["Bmat"]).max()) / dx
    close("angular momentum after step %d" % (c["k"] + 1), L1, L0 + T, 1e-10 * (1 + abs(c["shift"]) * 1e-2), scale=c["n"] * mp * ext * vs)
    return dict(nontrivial=bool(vs > 0 and shared_nodes(arr["x"], dx, lib.degree)), classes=["variant=" + c["variant"], "musl=%d" % c["musl"], "step=%d" % (c["k"] + 1)],
                obs=dict(L0=L0.tolist(), L1=L1.tolist()))


SUBS = [Sub("uniform", uniform_cases(), run_uniform, 3000, 60000), Sub("affine", affine_cases(), run_affine, 4000, 100000),
        Sub("angular_momentum", ang_cases(), run_angular, 4000, 100000)]
