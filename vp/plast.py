"""Material tests: single particles, far apart and too heavy to be moved by their stress, deformed by a steady
velocity gradient through real time steps. The trial deformation of a step is (1 + dt C) F."""
from .core import *
from . import ref


@st.composite
def element(draw, models, hards=(L.EXPOEXPL, L.EXPOIMPL, L.SINHEXPL, L.SINHIMPL, L.NOHARD), qprefs=(1 / math.sqrt(2), 1 / math.sqrt(2), math.sqrt(1.5), 1.0), max_n=4, mibf=False, kmax=3, **fix):
    c = dict(variant=draw(st.sampled_from(VARS)), seed=draw(seeds), model=draw(st.sampled_from(list(models))), n=draw(st.integers(1, max_n)),
             E=draw(logfl(1e4, 1e9)), nu=draw(fl(0.0, 0.45)), qp=draw(st.sampled_from(list(qprefs))), yrel=draw(logfl(1e-5, 3e-2)), crel=draw(st.sampled_from([0.0, 1e-4, 1e-2, 1.0])),
             M=draw(fl(0.1, 2.0)), amp=draw(logfl(1e-5, 0.4)), kind=draw(st.integers(0, 4)), volsign=draw(st.sampled_from([0, 0, 1, -1])), rate=draw(st.sampled_from([0.0, 1e-4, 1e-2, 0.1])),
             ratekind=draw(st.sampled_from(["general", "shear", "stretch", "reverse"])), dt=draw(logfl(1e-6, 1e-1)), k=draw(st.integers(0, kmax)), musl=draw(st.booleans()),
             hard=draw(st.sampled_from(list(hards))), xi=draw(st.sampled_from([0.0, 0.5, 5.0, 50.0])), beta=draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])),
             hist=draw(st.booleans()), pradhana=draw(st.booleans()), eta=draw(st.sampled_from([0.0, 1e-3, 1.0, 1e3])), expo=draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 1.3])),
             dl=draw(st.booleans()), minrel=draw(st.sampled_from([0.2, 1.0, 3.0])), cap=draw(st.booleans()), mu2=draw(fl(0.0, 1.5)), grain=draw(logfl(1e-5, 1e-1)), mibf=draw(st.booleans()) if mibf else False)
    if c["model"] in (L.MCC, L.MCCVISC, L.MCCMUI) or draw(st.booleans()):    # strains within a few times the strain at yield
        c["amp"] = c["yrel"] * draw(logfl(0.1, 5.0))
        c["rate"] = draw(st.sampled_from([0.0, 0.1, 1.0])) * c["amp"]
    # trial states placed around the landmarks of the yield surface in the (p, q) plane: 1 anywhere between the tip and zero, 2 next to the tip, 3 with a large volume memory
    c["aim"] = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3])) if c["model"] in (L.VM, L.DP, L.DPSOFT, L.VMVISC, L.DPVISC, L.DPMUI) else 0
    if c["model"] == L.MCCMUI and c["hard"] == L.NOHARD:     # not offered by this model
        c["hard"] = draw(st.sampled_from([h for h in hards if h != L.NOHARD]))
    if c["model"] == L.MCCVISC and c["dl"]:
        c["expo"] = 1.0
    c.update(fix)
    return c


def setup(c, lib):
    """Initial arrays, parameters, velocity gradients."""
    d, n = lib.dim, c["n"]
    r = rng(c)
    dx = 0.1
    x = np.zeros((n, d))
    x[:, 0] = 6 * dx * np.arange(n)
    x += r.uniform(0.1, 0.4, (n, d)) * dx
    e = r.uniform(-1, 1, (n, d)) * c["amp"]
    if c["volsign"]:
        e += c["volsign"] * c["amp"] * r.uniform(0, 2, (n, 1))
    if c["kind"] == 1:
        e = e[:, :1] + 1e-9 * e
    elif c["kind"] == 2:
        e[:, -1] = e[:, 0]
    elif c["kind"] == 3:
        e -= e.mean(1, keepdims=True)
    F = np.einsum("nij,nj,njk->nik", rand_rot(r, n, d), np.exp(e), rand_rot(r, n, d))
    if c["kind"] == 4:
        F = np.einsum("ni,ij->nij", np.exp(e), np.eye(d))
    C = r.uniform(-1, 1, (n, d, d)) * c["rate"] / c["dt"]
    if c["ratekind"] == "shear":
        C = C * np.eye(d, k=1)
    elif c["ratekind"] == "stretch":
        C = C * np.eye(d)
    elif c["ratekind"] == "reverse":    # unload
        C = -np.abs(c["rate"]) / c["dt"] * np.sign(np.log(np.abs(np.linalg.det(F))))[:, None, None] * np.eye(d)
    y = c["yrel"] * c["E"]
    vol = dx ** d / 4
    par = dict(dx=dx, particle_volume=vol, particle_mass=1e40 * vol, rho=1000.0, E=c["E"], nu=c["nu"], plastic_model=c["model"], elastic_model=L.HENCKY, flip_ratio=-2.0,
               use_musl=int(c["musl"]), q_prefac=c["qp"], q_max=y, q_min=c["minrel"] * y, p_min=-y if c["cap"] else -1e20, M=c["M"], q_cohesion=c["crel"] * y, xi=c["xi"],
               hardening_law=c["hard"], beta=c["beta"], p0=y, use_pradhana=int(c["pradhana"]), visc_time=c["eta"] * c["dt"] * 10, visc_exponent=c["expo"],
               use_duvaut_lions_formulation=int(c["dl"]), mu_1=c["M"], mu_2=c["M"] + c["mu2"], rho_s=2500.0, grain_diameter=c["grain"], I_ref=0.279,
               use_mibf=int(c["mibf"]))
    arr = dict(x=x, F=F, Bmat=C * ref.d_matrix_scale(dx, lib.degree))
    if c["hist"]:
        xi = max(c["xi"], 1.0)
        arr["eps_pl_dev"] = r.uniform(0, 2, n) / xi
        arr["eps_pl_vol"] = r.uniform(-1.5, 1.5, n) / xi
        arr["eps_pl_vol_pradhana"] = r.uniform(-1, 1, n) * c["amp"]
        arr["delta_gamma"] = r.uniform(0, 1, n)
        arr["viscosity"] = r.uniform(0, 1, n)
    if c.get("aim"):
        aim(c, lib, arr, par)
    return arr, par, C


def aim(c, lib, arr, par):
    d, n, r, y = lib.dim, c["n"], rng(c, 9), par["q_max"]
    mu, lam = ref.lame(par["E"], par["nu"])
    K, m = lam + 2 * mu / d, c["model"]
    mem = np.zeros(n)
    if m in (L.DPSOFT, L.DPVISC, L.DPMUI) and par["use_pradhana"]:
        if c["aim"] == 3:
            arr["eps_pl_vol_pradhana"] = r.uniform(-0.3, 0.3, n)
        mem = arr.get("eps_pl_vol_pradhana", mem)
    tip = -par["q_cohesion"] / par["M"] * (np.exp(-par["xi"] * arr.get("eps_pl_dev", np.zeros(n))) if m == L.DPSOFT else np.ones(n))
    if m == L.VMVISC and c["cap"]:
        tip = np.full(n, par["p_min"])
    if m == L.VM:
        tip = np.full(n, -y)
    s = r.uniform(0, 1, n)
    off = {1: np.where(tip < 0, -tip * s, y * s), 2: (s - 0.5) * 0.1 * (y - tip), 3: (s - 0.5) * (y - tip) * 10.0 ** r.uniform(-2, 1, n)}[c["aim"]]
    off = np.where(r.random(n) < 0.2, K * mem * r.uniform(-1, 0.5, n), off)
    p = tip + K * mem + off
    q = np.maximum(par["M"] * np.maximum(off, 0) * (m not in (L.VM, L.VMVISC)), 0) * r.uniform(0, 2, n) + y * 10.0 ** r.uniform(-3, 1, n) * (r.random(n) < 0.8)
    w = r.normal(size=(n, d))
    w -= w.mean(1, keepdims=True)
    w /= np.linalg.norm(w, axis=1, keepdims=True)
    e = -p[:, None] / (K * d) + w * (q / (2 * par["q_prefac"] * mu))[:, None]
    e = np.clip(e, -1.5, 1.5)
    arr["F"] = np.einsum("nij,nj,njk->nik", rand_rot(r, n, d), np.exp(e), rand_rot(r, n, d))


class GaveUp(Skip):
    """The run was stopped by a return mapping that did not converge."""


def newton_ok(c, par, a, T, i):
    """Whether the textbook iteration for the flow rule of a viscous model (first guess one hundredth of the elastic estimate) settles well within the simulator's 60 iterations."""
    m, dt, qp, eta, n, xi = c["model"], c["dt"], par["q_prefac"], par["visc_time"], par["visc_exponent"], par["xi"]
    fmu, dpre = 2 * qp * qp * T.mu, 1 / qp
    tm = 1e-10 * (1 + par["M"]) * (T.K + T.mu) * (1 + np.abs(T.e[i]).max())
    if m == L.VMVISC:
        cap = T.p[i] - par["p_min"] * math.exp(-xi * a["eps_pl_vol"][i])
        if cap < tm:
            return cap < -tm
        qmin, dq = par["q_min"], par["q_max"] - par["q_min"]

        def ys(g):
            e = dq * math.exp(-xi * (a["eps_pl_dev"][i] + g / dpre))
            return qmin + e, -xi / dpre * e
    else:
        sh = -T.K * a["eps_pl_vol_pradhana"][i] if par["use_pradhana"] else 0.0
        y = par["M"] * (T.p[i] + sh) + par["q_cohesion"]
        if y < tm:
            return y < -tm

        def ys(g):
            return y, 0.0
    g, qt = 0.01 * (T.q[i] - ys(0.0)[0]) / fmu, T.q[i]
    if qt < ys(0.0)[0] + tm:
        return qt < ys(0.0)[0] - tm
    dl = bool(par["use_duvaut_lions_formulation"])
    try:
        for _ in range(30):
            y, dy = ys(g)
            if dl:
                r = qt - y - fmu * ((eta / dt * g) ** n + g)
                d = -dy - fmu * ((eta / dt) ** n * n * g ** (n - 1) + 1)
            else:
                t = eta * g + dt
                r = (qt - fmu * g) * (dt / t) ** n - y
                d = -fmu * (dt / t) ** n - (qt - fmu * g) * n * (dt / t) ** (n - 1) * eta * dt / (t * t) - dy
            if abs(r) < 5e-3:
                return True
            g -= r / d
            if g < 0:
                g = 1e-10
    except (OverflowError, ZeroDivisionError, ValueError, TypeError):
        pass
    return False


def run_steps(c, lib, k, **over):
    arr, par, C = setup(c, lib)
    s = lib.sim()
    s.particles(**arr)
    s.set(fps=1.0 / c["dt"], end_frame=k, **par, **ONE_STEP)
    s.set(**over)
    with s:
        if k:
            if s.simulate(60) == 1:
                raise Skip("time")
            if s.getp("exit") != 0:
                need(may_give_up(c, over), "%s: the run was aborted", L.MODEL_NAMES[c["model"]])
                raise GaveUp("solver gave up")
        o = s.state()
    need(finite(o), "%s: the state after %d steps is not finite", L.MODEL_NAMES[c["model"]], k)
    return o, par, C


def may_give_up(c, over):
    """Models whose return mapping is iterative and may stop the run (a documented, reported outcome)."""
    m, newton = int(over.get("plastic_model", c["model"])), c["expo"] != 1.0
    if m == L.VMVISC:
        return newton or c["xi"] != 0
    if m == L.DPVISC:
        return newton
    if m == L.MCCVISC:
        return newton or not c["dl"] or c["hard"] in (L.EXPOIMPL, L.SINHIMPL)
    return m in (L.MCC, L.MCCMUI) and c["hard"] in (L.EXPOIMPL, L.SINHIMPL)


class Inv:
    """Log strains and stress invariants of trial and corrected states."""

    def __init__(self, F, E, nu, qp, d):
        mu, lam = ref.lame(E, nu)
        self.mu, self.K = mu, lam + 2 * mu / d
        self.U, self.s, self.Vt = np.linalg.svd(F)
        self.e = np.log(self.s)
        self.tr = self.e.sum(1)
        self.dev = self.e - self.tr[:, None] / d
        self.norm = np.linalg.norm(self.dev, axis=1)
        self.p = -self.K * self.tr
        self.q = 2 * qp * mu * self.norm


def last_step(c, env, **over):
    """State before the last step, trial deformation, state after."""
    lib = env.lib(c["variant"])
    d, b = lib.dim, None
    for k in range(c["k"] + 2):        # every prefix, so that the domain is checked step by step
        a = b
        try:
            b, par, C = run_steps(c, lib, k, **over)
        except GaveUp:
            if c["model"] in (L.VMVISC, L.DPVISC):
                par.update(over)
                Ftr = np.einsum("nij,njk->nik", np.eye(d) + c["dt"] * C, a["F"])
                if not det_ok(Ftr):
                    raise
                T = Inv(Ftr, par["E"], par["nu"], par["q_prefac"], d)
                mild = np.abs(T.e).max() < 6
                need(not mild or not all(newton_ok(c, par, a, T, i) for i in range(c["n"])), "%s: the run was aborted in step %d although the flow rule has a solution that Newton's method finds", L.MODEL_NAMES[c["model"]], k)
            raise
    par.update(over)
    Ftr = np.einsum("nij,njk->nik", np.eye(d) + c["dt"] * C, a["F"])
    for F in (Ftr, b["F"]):
        sv = np.linalg.svd(F, compute_uv=False)
        if not det_ok(F) or sv.min() < 1e-3 or sv.max() > 1e3:
            raise Skip("extreme deformation")
    T, N = Inv(Ftr, par["E"], par["nu"], par["q_prefac"], d), Inv(b["F"], par["E"], par["nu"], par["q_prefac"], d)
    return lib, a, b, Ftr, T, N, par


def p_c(par, eps, K):
    h = int(par["hardening_law"])
    if h == L.NOHARD:
        return np.full_like(eps, par["p0"])
    if h in (L.EXPOEXPL, L.EXPOIMPL):
        return par["p0"] * np.exp(-par["xi"] * eps)
    return K * np.sinh(-par["xi"] * eps + np.arcsinh(par["p0"] / K))


def implicit(par):
    return int(par["hardening_law"]) in (L.EXPOIMPL, L.SINHIMPL)


def mcc_y(p, q, pc, M, beta):
    return M * M * (p - pc) * (p + beta * pc) + q * q
