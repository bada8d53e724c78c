"""Hyperelastic stress."""
from ..core import *
from .. import ref

ID = "C04"
VARIANTS = VARS
RULE = ("a case is a set of 1-12 particles with deformation gradients R1 diag(exp e) R2 (|e| up to 5; isotropic, repeated, isochoric, diagonal and rotation classes), "
        "moduli, one of the two laws, at rest or in a random flow; the stress after a step is compared with the closed form at the deformation the particle then has, "
        "and re-run with rotated space and rotated reference configuration; non-trivial when some principal log strain exceeds 1e-3")


@st.composite
def cases(draw):
    return dict(variant=draw(st.sampled_from(VARS)), seed=draw(seeds), n=draw(st.integers(1, 12)), amp=draw(st.sampled_from([0.0, 1e-9, 1e-4, 0.05, 0.5, 2.0, 5.0])),
                kind=draw(st.integers(0, 4)), E=draw(logfl(1.0, 1e10)), nu=draw(st.one_of(fl(-0.9, 0.49), st.sampled_from([0.0, 0.3, 0.49, 0.25, 0.499]))),
                law=draw(st.sampled_from([L.HENCKY, L.NEOHOOKEAN])), musl=draw(st.booleans()), flow=draw(st.sampled_from([0.0, 0.05, 0.3])),
                flip=draw(flip_ratios), rho=draw(logfl(1, 1e4)), dx=draw(logfl(1e-3, 10)), steps=draw(st.integers(1, 3)), sp=draw(st.booleans()))


def tol(F, E, nu, law):
    mu, lam = ref.lame(E, nu)
    sv = np.linalg.svd(F, compute_uv=False)
    cond = sv.max(1) / sv.min(1)
    e = np.abs(np.log(sv)).max(1)
    sc = (mu + abs(lam)) * (1 + e + (sv.max(1) ** 2 if law else 0))
    return 1e-12 * cond * sc


def law_tau(F, E, nu, law):
    return ref.neo_tau(F, E, nu) if law else ref.hencky_tau(F, E, nu)


def go(c, lib, x, v, F, steps):
    dx = c["dx"]
    dt = 1e-3
    vol = dx ** lib.dim / 4
    with lib.sim() as s:
        s.particles(x=x, v=v, F=F)
        # a very dense material: the stress is computed but moves nothing, so that any modulus can be used
        s.set(dx=dx, particle_volume=vol, particle_mass=1e30 * vol, rho=c["rho"], E=c["E"], nu=c["nu"], elastic_model=c["law"], flip_ratio=c["flip"],
              use_musl=int(c["musl"]), fps=1 / dt, end_frame=steps, **ONE_STEP)
        s.simulate(60)
        return s.state()


def run(c, env):
    lib = env.lib(c["variant"])
    d, n, dx = lib.dim, c["n"], c["dx"]
    r = rng(c)
    x = r.uniform(0, 3, (n, d)) * dx
    v = r.uniform(-1, 1, (n, d)) * dx * c["flow"] / 1e-3
    F = rand_F(r, n, d, c["amp"], c["kind"])
    if c["law"] == L.NEOHOOKEAN:
        for k in range(1, c["steps"]):
            if not det_ok(go(c, lib, x, v, F, k)["F"]):
                raise Skip("inverted element")
    o = go(c, lib, x, v, F, c["steps"])
    Fo = o["F"]
    sv = np.linalg.svd(Fo, compute_uv=False)
    if sv.min() < 2e-4 or not det_ok(Fo):
        raise Skip("outside the law's range")
    want = law_tau(Fo, c["E"], c["nu"], c["law"])
    err = np.abs(o["tau"] - want).max((1, 2))
    t = tol(Fo, c["E"], c["nu"], c["law"])
    i = int(np.argmax(err / t))
    need((err <= t).all(), "stress of particle %d: got %s, law gives %s (F = %s)", i, o["tau"][i].tolist(), want[i].tolist(), Fo[i].tolist())
    asym = np.abs(o["tau"] - o["tau"].transpose(0, 2, 1)).max((1, 2))
    need((asym <= t).all(), "stress not symmetric")
    return dict(nontrivial=bool(np.abs(np.log(sv)).max() > 1e-3), classes=["law=%d" % c["law"], "variant=" + c["variant"], "amp=%g" % c["amp"], "kind=%d" % c["kind"]],
                obs=dict(F=Fo[0].tolist(), tau=o["tau"][0].tolist()))


def run_rot(c, env):
    """Frame indifference, isotropy, and no stress in a rotation; particles at rest, so the deformation does not change."""
    lib = env.lib(c["variant"])
    d, n, dx = lib.dim, c["n"], c["dx"]
    r = rng(c, 1)
    x = r.uniform(0, 3, (n, d)) * dx
    v = np.zeros((n, d))
    F = rand_F(r, n, d, c["amp"], c["kind"])
    Qm, R = rand_rot(r, n, d), rand_rot(r, n, d)
    base = go(c, lib, x, v, F, 1)
    close("deformation of particles at rest", base["F"], F, 1e-13)
    t = tol(F, c["E"], c["nu"], c["law"])[:, None, None]
    a = go(c, lib, x, v, np.einsum("nij,njk->nik", Qm, F), 1)["tau"]
    want = np.einsum("nij,njk,nlk->nil", Qm, base["tau"], Qm)
    need((np.abs(a - want) <= 4 * t).all(), "stress does not rotate with the frame: %s", np.abs(a - want).max())
    b = go(c, lib, x, v, np.einsum("nij,njk->nik", F, R), 1)["tau"]
    need((np.abs(b - base["tau"]) <= 4 * t).all(), "stress depends on the orientation of the reference configuration: %s", np.abs(b - base["tau"]).max())
    z = go(c, lib, x, v, R, 1)["tau"]
    need((np.abs(z) <= tol(R, c["E"], c["nu"], c["law"])[:, None, None]).all(), "a pure rotation is stressed: %s", np.abs(z).max())
    return dict(nontrivial=bool(c["amp"] > 1e-3), classes=["law=%d" % c["law"], "variant=" + c["variant"]])


SUBS = [Sub("law", cases(), run, 16000, 400000), Sub("rotations", cases(), run_rot, 6000, 100000)]
