"""Rate laws of the viscoplastic models."""
from ..core import *
from ..plast import *

ID = "C07"
VARIANTS = VARS
RULE = ("a case is a set of 1-4 isolated material points of a viscous or mu(I) model with generated deformation, history, viscosity, exponent, parameters and velocity gradient, and a step index; "
        "the stress after the step is inserted into the rate law with the recorded shear rate (law), compared with the rate-independent model (limit), or with a larger viscosity (monotone); "
        "non-trivial when at least one point flows")
RES = 1e-2      # Pa, residual at which the solvers stop


def ellipse(p, pc, M, be):
    return M * math.sqrt(max(0.0, (pc - p) * (p + be * pc)))


def law(c, env):
    lib, a, b, Ftr, T, N, par = last_step(c, env)
    m, dt, qp = c["model"], c["dt"], par["q_prefac"]
    p, q = ref.pq(b["tau"], qp)
    eta, n = par["visc_time"], par["visc_exponent"]
    fmu = 2 * qp * qp * T.mu
    dl = bool(par["use_duvaut_lions_formulation"])
    name = "%s, step %d" % (L.MODEL_NAMES[m], c["k"] + 1)
    cls = ["model=%s" % L.MODEL_NAMES[m], "variant=" + c["variant"]]
    flows = 0

    def elastic(i):
        need(np.abs(b["F"][i] - Ftr[i]).max() <= 1e-12 * np.abs(Ftr[i]).max(), "%s: a state inside the yield surface was corrected (point %d)", name, i)

    def rate_law(i, qy, tq, tip=False):
        """q after the step against yield stress qy and the recorded rate."""
        g = b["delta_gamma"][i]
        need(g >= -1e-12 / dt - tq / (fmu * dt), "%s: negative shear rate %.17g", name, g)
        g = max(g, 0.0)
        tg = 4e-13 * (1 + np.abs(T.e[i]).max()) / (qp * dt)      # error of the recorded rate
        need(q[i] <= T.q[i] + tq, "%s: q = %.17g above the trial value %.17g", name, q[i], T.q[i])
        need(q[i] >= qy - tq - RES, "%s: q = %.17g below the yield stress %.17g", name, q[i], qy)
        if dl:
            r = q[i] - qy - fmu * (eta * g) ** n
            t = RES + tq + fmu * ((eta * (g + tg)) ** n - (eta * max(g - tg, 0)) ** n)
            cls.append("duvaut-lions")
        else:
            u = (1 + eta * g) ** -n
            r = q[i] * u - qy
            t = RES + tq + q[i] * ((1 + eta * max(g - tg, 0)) ** -n - (1 + eta * (g + tg)) ** -n)
            cls.append("perzyna")
        closed = n == 1 and (m != L.VMVISC or par["xi"] == 0)
        t = t * 1.01 - (RES * 0.99 if closed else 0) + 1e-10 * abs(qy)
        need(abs(r) <= t, "%s (%s, viscous time %g, exponent %g, dt %g): q = %.17g, yield stress %.17g, shear rate %.17g: residual of the flow rule %.3g exceeds %.3g",
             name, "Duvaut-Lions" if dl else "Perzyna", eta, n, dt, q[i], qy, g, r, t)

    for i in range(c["n"]):
        ts = 1e-11 * (T.K + T.mu) * (1 + np.abs(T.e[i]).max())
        if m == L.VMVISC:
            qmin, qmax, xi = par["q_min"], par["q_max"], par["xi"]
            pt = par["p_min"] * math.exp(-xi * a["eps_pl_vol"][i])
            if abs(T.p[i] - pt) <= ts:
                continue
            if T.p[i] < pt:
                cls.append("cap")
                need(abs(p[i]) <= ts and q[i] <= ts, "%s: beyond the tension cap but (p, q) = (%.17g, %.17g)", name, p[i], q[i])
                continue
            y0 = qmin + (qmax - qmin) * math.exp(-xi * a["eps_pl_dev"][i])
            need(abs(p[i] - T.p[i]) <= ts, "%s: pressure changed", name)
            if T.q[i] < y0 - ts:
                elastic(i)
            elif T.q[i] > y0 + ts:
                flows += 1
                qy = qmin + (qmax - qmin) * math.exp(-xi * b["eps_pl_dev"][i])
                if qmax < qmin and xi:
                    continue     # hardening towards q_min > q_max: the trial state may be inside the final surface
                rate_law(i, qy, ts * (1 + xi * abs(qmax - qmin) / (2 * qp * T.mu)))
        elif m == L.DPVISC:
            M, co = par["M"], par["q_cohesion"]
            sh = -T.K * a["eps_pl_vol_pradhana"][i] if par["use_pradhana"] else 0.0
            tip, qy, tm = -co / M, M * (T.p[i] + sh) + co, (1 + M) * ts
            if T.p[i] + sh < tip - ts:
                cls.append("tip")
                need(abs(p[i] - tip) <= ts and q[i] <= ts, "%s: beyond the tip (p = %.17g) but (p, q) = (%.17g, %.17g)", name, tip, p[i], q[i])
            elif T.p[i] + sh > tip + ts:
                need(abs(p[i] - T.p[i]) <= ts, "%s: pressure changed", name)
                if T.q[i] < qy - tm:
                    elastic(i)
                elif T.q[i] > qy + tm:
                    flows += 1
                    rate_law(i, qy, tm)
        elif m == L.MCCVISC:
            M, be = par["M"], par["beta"]
            pc0 = p_c(par, a["eps_pl_vol"], T.K)[i]
            if pc0 <= 1e-3 * par["p0"] or pc0 < 0.1:
                continue
            y0 = mcc_y(T.p[i], T.q[i], pc0, M, be)
            yt = 1e-9 * (M * M * (abs(T.p[i]) + pc0) ** 2 + T.q[i] ** 2) + ts * (M * M * (abs(T.p[i]) + pc0) + T.q[i])
            if y0 < -yt:
                elastic(i)
            elif y0 > yt:
                flows += 1
                w = 1.0 / (1 + eta / dt) if dl else 1.0
                py = (p[i] - (1 - w) * T.p[i]) / w
                pc1 = p_c(par, a["eps_pl_vol"] + (py - T.p) / T.K, T.K)[i] if implicit(par) else pc0
                if (c["hard"] == L.SINHIMPL and pc1 < 0.02) or pc1 < 1e-2 * pc0:
                    cls.append("collapse")
                    continue
                tw = 4 * ts / w
                need(-be * pc1 - tw - 0.1 * pc0 <= py <= pc1 + tw + 0.1 * pc0, "%s: equilibrium pressure %.17g outside the surface (p_c %.17g)", name, py, pc1)
                qy = ellipse(py, pc1, M, be)
                # an error of tw in pressure (more at the clamped ends of an implicit solve)
                tq = max(abs(ellipse(py + s, pc1, M, be) - qy) for s in (tw, -tw)) + tw
                if implicit(par) and qy < 0.5 * M * pc1:
                    s = 0.05 * pc1 * (1 + be) + 5e-2 * pc0
                    end = min(abs(py - pc1), abs(py + be * pc1)) <= s
                    if end and (q[i] if not dl else (q[i] - (1 - w) * T.q[i]) / w) <= 4 * ts / w:
                        cls.append("end")
                        continue
                if dl:
                    cls.append("duvaut-lions")
                    qe = (q[i] - (1 - w) * T.q[i]) / w
                    need(abs(qe - qy) <= tq + 1e-7 * M * pc1, "%s (Duvaut-Lions, viscous time %g, dt %g): (p, q) = (%.17g, %.17g) is not between the trial state (%.17g, %.17g) and the surface: equilibrium q %.17g, surface %.17g",
                         name, eta, dt, p[i], q[i], T.p[i], T.q[i], qe, qy)
                else:
                    if qy > T.q[i]:
                        cls.append("q raised")
                        need(abs(q[i] - qy) <= tq + 1e-7 * M * pc1, "%s: q = %.17g, surface %.17g", name, q[i], qy)
                        continue
                    rate_law(i, qy, tq + 1e-7 * M * pc1)
        elif m == L.DPMUI:
            mu1, mu2, co = par["mu_1"], par["mu_2"], par["q_cohesion"]
            fq = par["I_ref"] / (par["grain_diameter"] * math.sqrt(par["rho_s"]))
            sh = -T.K * a["eps_pl_vol_pradhana"][i] if par["use_pradhana"] else 0.0
            tip, qy, tm = -co / mu1, mu1 * (T.p[i] + sh) + co, (1 + mu2) * ts
            if T.p[i] + sh < tip - ts:
                cls.append("tip")
                need(abs(p[i] - tip) <= ts and q[i] <= ts, "%s: beyond the tip (p = %.17g) but (p, q) = (%.17g, %.17g)", name, tip, p[i], q[i])
                need(b["muI"][i] == mu1 and b["viscosity"][i] == 0, "%s: friction %.17g, viscosity %.17g at the tip", name, b["muI"][i], b["viscosity"][i])
            elif T.p[i] + sh > tip + ts:
                need(abs(p[i] - T.p[i]) <= ts, "%s: pressure changed", name)
                if T.q[i] < qy - tm:
                    elastic(i)
                    need(b["muI"][i] == mu1 and b["viscosity"][i] == 0, "%s: friction %.17g, viscosity %.17g for an elastic point", name, b["muI"][i], b["viscosity"][i])
                elif T.q[i] > qy + tm + 2e-5:
                    flows += 1
                    ps = T.p[i] + sh - tip + 1e-5
                    mu_i(i, name, a, b, T, q, qy, ps, ps, mu1, mu2, fq, tm, ts, dt, qp, fmu, cls)
        elif m == L.MCCMUI:
            mu1, mu2, be = par["mu_1"], par["mu_2"], par["beta"]
            fq = par["I_ref"] / (par["grain_diameter"] * math.sqrt(par["rho_s"]))
            pc0 = p_c(par, a["eps_pl_vol"], T.K)[i]
            if pc0 <= 1e-3 * par["p0"] or pc0 < 0.1:
                continue
            y0 = mcc_y(T.p[i], T.q[i], pc0, mu1, be)
            yt = 1e-9 * (mu1 * mu1 * (abs(T.p[i]) + pc0) ** 2 + T.q[i] ** 2) + ts * (mu1 * mu1 * (abs(T.p[i]) + pc0) + T.q[i])
            if y0 < -yt:
                elastic(i)
                need(b["muI"][i] == mu1 and b["viscosity"][i] == 0, "%s: friction %.17g, viscosity %.17g for an elastic point", name, b["muI"][i], b["viscosity"][i])
            elif y0 > yt:
                flows += 1
                pc1 = p_c(par, b["eps_pl_vol"], T.K)[i] if implicit(par) else pc0
                if pc1 < 1e-2 * pc0 or pc1 < 0.1:
                    cls.append("collapse")
                    continue
                s = (0.05 * pc1 * (1 + be) + 5e-2 * pc0) if implicit(par) else 0.0
                need(-be * pc1 - 4 * ts - s <= p[i] <= pc1 + 4 * ts + s, "%s: pressure %.17g outside the surface (p_c %.17g)", name, p[i], pc1)
                pcx = max(pc1, p[i] + 1e-5) if implicit(par) else pc1
                qy = ellipse(p[i], pc1, mu1, be)
                tq = max(abs(ellipse(p[i] + e, pc1, mu1, be) - qy) for e in (4 * ts, -4 * ts)) + 4 * ts + 1e-7 * mu1 * pc1
                if min(abs(p[i] - pc1), abs(p[i] + be * pc1)) <= s + 4 * ts:
                    cls.append("end")
                    continue
                if T.q[i] > qy + tq + 2e-5:
                    ps = p[i] + be * pcx + 1e-5
                    mu_i(i, name, a, b, T, q, qy, ps, math.sqrt(max(0.0, (pcx - p[i]) * ps)), mu1, mu2, fq, tq, ts, dt, qp, fmu, cls)
    return dict(nontrivial=flows > 0, classes=cls + ["flow=%d" % (flows > 0)], obs=dict(q=q.tolist(), q_trial=T.q.tolist(), rate=b["delta_gamma"].tolist()))


def mu_i(i, name, a, b, T, q, qy, ps, lever, mu1, mu2, fq, tq, ts, dt, qp, fmu, cls):
    g = b["delta_gamma"][i]
    need(g >= 0, "%s: negative shear rate %.17g", name, g)
    need(q[i] <= T.q[i] + tq, "%s: q = %.17g above the trial value %.17g", name, q[i], T.q[i])
    need(q[i] >= qy - tq, "%s: q = %.17g below the static yield stress %.17g", name, q[i], qy)
    tg = 4e-13 * (1 + np.abs(T.e[i]).max()) / (qp * dt) + 4 * tq / (fmu * dt)

    def mu(g, e=0.0):
        return mu1 + (mu2 - mu1) * g / (fq * math.sqrt(max(ps + e, 0.0)) + g)
    cls.append("mu(I)")
    # the rate and the effective pressure are known up to rounding only
    band = abs(mu(g + tg) - mu(max(0.0, g - tg))) + 1e-9 * mu2
    if g > 0:
        band += abs(mu(g, 2 * ts) - mu(g, -2 * ts))
    want = qy + (mu(g) - mu1) * lever
    need(abs(q[i] - want) <= 2 * tq + band * lever + 2e-5 + 1e-9 * (abs(want) + fmu * g * dt) + 2 * (mu(g) - mu1) * ts, "%s: q = %.17g, but the mu(I) relation gives %.17g at shear rate %.17g (static %.17g)", name, q[i], want, g, qy)
    need(abs(b["muI"][i] - mu(g)) <= band * 2 + 1e-6 * (mu2 - mu1), "%s: reported friction %.17g, mu(I) gives %.17g", name, b["muI"][i], mu(g))
    if g > 10 * tg:
        v = (mu(g) - mu1) * lever / g
        tv = (2 * band * lever + 1e-6 * (mu2 - mu1) * lever) / g + 1e-6 * v + v * 2 * tg / g + 4 * (mu(g) - mu1) * tq / g
        need(abs(b["viscosity"][i] - v) <= tv, "%s: reported viscosity %.17g, expected %.17g", name, b["viscosity"][i], v)


def limit(c, env):
    """Vanishing viscosity reproduces the rate-independent model."""
    m = c["model"]
    over = dict(visc_time=0.0, use_pradhana=0)
    if m == L.VMVISC:
        other = dict(plastic_model=L.VM, visc_time=0.0, xi=0.0, p_min=-1e20)
        over.update(xi=0.0, p_min=-1e20)
    elif m == L.DPVISC:
        other = dict(plastic_model=L.DP, visc_time=0.0)
    elif m == L.MCCVISC:
        other = dict(plastic_model=L.MCC, visc_time=0.0)
    elif m == L.DPMUI:
        over.update(mu_2=c["M"])
        other = dict(plastic_model=L.DP)
    else:
        over.update(mu_2=c["M"])
        other = dict(plastic_model=L.MCC)
    lib = env.lib(c["variant"])
    b, par, C = run_steps(c, lib, c["k"] + 1, **over)
    o, _, _ = run_steps(c, lib, c["k"] + 1, **other)
    mu, lam = ref.lame(par["E"], par["nu"])
    for F in (b["F"], o["F"]):
        sv = np.linalg.svd(F, compute_uv=False)
        if not det_ok(F) or sv.min() < 1e-3 or sv.max() > 1e3:
            raise Skip("extreme deformation")
    amp = np.abs(np.log(np.linalg.svd(b["F"], compute_uv=False))).max() + c["amp"] * 3 + 4 * c["rate"]
    newton = m in (L.VMVISC, L.DPVISC, L.MCCVISC) and c["expo"] != 1
    tol = (c["k"] + 1) * ((2 * RES if newton else 0) + (4e-5 if m in (L.DPMUI, L.MCCMUI) else 0)) + 1e-10 * (lam + 2 * mu) * (1 + amp)
    if m == L.MCCMUI or (m == L.MCCVISC and newton):
        tol += 1e-6 * par["p0"] * (1 + par["M"])
        if c["xi"] and c["k"]:
            raise Skip("hardening amplifies the stress tolerance")
    name = "%s with vanishing viscosity" % L.MODEL_NAMES[m]
    # away from the branch points of the surface tolerance-sized differences stay that size
    close(name + ": stress", b["tau"], o["tau"], 0, tol * (1 + par["M"]) * 4)
    close(name + ": volumetric plastic strain", b["eps_pl_vol"], o["eps_pl_vol"], 0, tol * (1 + par["M"]) * 4 / (lam + 2 * mu / lib.dim) + 1e-12)
    moved = float(np.abs(b["eps_pl_dev"]).max()) if not c["hist"] else 1.0
    return dict(nontrivial=moved > 0, classes=["model=%s" % L.MODEL_NAMES[m]], obs=dict(eps_pl_dev=b["eps_pl_dev"].tolist()))


def monotone(c, env):
    """More viscous time keeps q at or above that of less viscous time, from the same state in the same step."""
    lib = env.lib(c["variant"])
    m = c["model"]
    arr, par, C = setup(c, lib)
    par["use_pradhana"] = int(c["pradhana"])
    e0, e1 = par["visc_time"], par["visc_time"] * c["more"] + c["dt"] * 1e-3
    out = []
    for e in (e0, e1):
        b, _, _ = run_steps(c, lib, 1, visc_time=e)
        out.append((b, ref.pq(b["tau"], par["q_prefac"])))
    (b0, (p0, q0)), (b1, (p1, q1)) = out
    d = lib.dim
    Ftr = np.einsum("nij,njk->nik", np.eye(d) + c["dt"] * C, arr["F"])
    T = Inv(Ftr, par["E"], par["nu"], par["q_prefac"], d)
    n = par["visc_exponent"]
    flow = 0
    for i in range(c["n"]):
        ts = 1e-11 * (T.K + T.mu) * (1 + np.abs(T.e[i]).max())
        tol = 2 * RES * (1 + e1 * max(b1["delta_gamma"][i], b0["delta_gamma"][i], 0.0)) ** n + ts
        if m == L.MCCVISC and par["use_duvaut_lions_formulation"]:
            # on the segment from the trial state, further from the surface
            d0, d1 = math.hypot(T.p[i] - p0[i], T.q[i] - q0[i]), math.hypot(T.p[i] - p1[i], T.q[i] - q1[i])
            need(d1 <= d0 + 4 * ts, "MCCVisc: viscous time %g -> %g moves the stress away from the trial state: distance %.17g -> %.17g", e0, e1, d0, d1)
            flow += d0 > 10 * ts
        else:
            need(q1[i] >= q0[i] - tol, "%s: viscous time %g -> %g lowers q from %.17g to %.17g (trial %.17g)", L.MODEL_NAMES[m], e0, e1, q0[i], q1[i], T.q[i])
            flow += T.q[i] - q1[i] > 10 * ts
    return dict(nontrivial=flow > 0, classes=["model=%s" % L.MODEL_NAMES[m]], obs=dict(q=[q0.tolist(), q1.tolist()]))


VISC = [L.VMVISC, L.DPVISC, L.MCCVISC]


@st.composite
def more(draw):
    c = draw(element(VISC, kmax=0))
    c["more"] = draw(fl(1.1, 100.0))
    return c


def laws(kmax=3):
    return element(VISC + [L.DPMUI, L.DPMUI, L.MCCMUI], kmax=kmax)


SUBS = [Sub("law", laws(), law, 16000, 240000), Sub("limit", laws(1), limit, 4000, 40000), Sub("monotone", more(), monotone, 4000, 40000)]
