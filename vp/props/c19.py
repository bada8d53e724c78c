"""Material-induced boundary friction."""
from ..core import *
from ..plast import element, last_step, Inv, p_c, implicit, mcc_y
from .. import ref
from . import c03, c08, c14

ID = "C19"
VARIANTS = VARS
RULE = ("'law': isolated material points of every plastic model with generated deformation, history and rate, and a step index; the internal friction after the step against the stress state; "
        "'step': a cloud of any model against obstacles in steps 1-3 of a run, particles and grid friction after the step against the reference scheme with the mass-weighted friction of the "
        "particles (or with the boundary's own when switched off). Non-trivial when a point yields (law) or a node is in frictional contact (step)")


def static(par):
    return par["mu_1"] if int(par["plastic_model"]) in (L.DPMUI, L.MCCMUI) else par["M"]


def law(c, env):
    lib, a, b, Ftr, T, N, par = last_step(c, env, mu_1=c["M"] * c["m1"], mu_2=c["M"] * c["m1"] + c["mu2"])
    m, dt, qp = c["model"], c["dt"], par["q_prefac"]
    p, q = ref.pq(b["tau"], qp)
    name = "%s, step %d" % (L.MODEL_NAMES[m], c["k"] + 1)
    st0 = static(par)
    mu = b["muI"]
    need(bool(np.isfinite(mu).all()), "%s: friction not finite", name)
    dl = bool(par["use_duvaut_lions_formulation"]) and m == L.MCCVISC
    cls, flows = ["model=%s" % L.MODEL_NAMES[m], "variant=" + c["variant"]], 0
    for i in range(c["n"]):
        ts = 1e-11 * (T.K + T.mu) * (1 + np.abs(T.e[i]).max())
        elastic = np.abs(b["F"][i] - Ftr[i]).max() <= 1e-14 * np.abs(Ftr[i]).max()
        if m in (L.NOPL, L.VM, L.DP, L.DPSOFT, L.VMVISC) or (elastic and N.q[i] > 0):
            rate = m in (L.DPVISC, L.MCC, L.MCCVISC, L.DPMUI, L.MCCMUI)
            if rate and abs(mu[i] - st0) > 1e-12 * st0 and b["delta_gamma"][i] != 0:
                continue      # corrected by less than the rounding of the deformation
            need(abs(mu[i] - st0) <= (1e-9 if rate else 1e-15) * st0, "%s: friction %.17g, the model's static friction is %.17g", name, mu[i], st0)
            cls.append("static")
            continue
        if m == L.DPVISC:
            sh = -T.K * a["eps_pl_vol_pradhana"][i] if par["use_pradhana"] else 0.0
            P, tip = T.p[i] + sh, -par["q_cohesion"] / par["M"]
            if P < tip - ts:
                flows += 1
                need(mu[i] == st0, "%s: friction %.17g at the tip", name, mu[i])
            elif P > tip + ts and abs(P) > 1e3 * ts and abs(P) > 1e-6 and T.q[i] > par["M"] * P + par["q_cohesion"] + (1 + par["M"]) * ts:
                flows += 1
                w = (q[i] - par["q_cohesion"]) / P
                need(abs(mu[i] - w) <= 4 * ts * (2 + abs(w)) / abs(P) + 1e-9 * abs(w), "%s: friction %.17g, the stress (p, q) = (%.17g, %.17g) mobilises %.17g", name, mu[i], p[i], q[i], w)
        elif m in (L.MCC, L.MCCVISC):
            pc0 = p_c(par, a["eps_pl_vol"], T.K)[i]
            if pc0 <= 1e-3 * par["p0"] or pc0 < 0.1:
                continue
            y0 = mcc_y(T.p[i], T.q[i], pc0, par["M"], par["beta"])
            yt = 1e-9 * (par["M"] ** 2 * (abs(T.p[i]) + pc0) ** 2 + T.q[i] ** 2) + ts * (par["M"] ** 2 * (abs(T.p[i]) + pc0) + T.q[i])
            if y0 <= yt:
                continue
            flows += 1
            if implicit(par) and dl:
                continue
            w = 1.0 / (1 + par["visc_time"] / dt) if dl else 1.0
            py, qe = (p[i] - (1 - w) * T.p[i]) / w, (q[i] - (1 - w) * T.q[i]) / w
            pc = p_c(par, b["eps_pl_vol"], T.K)[i] if implicit(par) else pc0
            lo, hi = py + par["beta"] * pc, pc - py
            if pc < 1e-2 * pc0 or pc < 0.1 or min(lo, hi) < 1e-2 * pc0:
                cls.append("end")
                continue
            lever = math.sqrt(lo * hi)
            tol = 20 * ts / w * (1 / lever + qe / lever * (1 / lo + 1 / hi)) + 1e-9
            need(abs(mu[i] - qe / lever) <= tol * (1 + par["xi"] * pc / T.K * 10), "%s: friction %.17g, the stress (p, q) = (%.17g, %.17g) mobilises %.17g (p_c %.17g)", name, mu[i], p[i], q[i], qe / lever, pc)
            cls.append("mobilised")
        elif m in (L.DPMUI, L.MCCMUI):
            need(st0 <= mu[i] <= par["mu_2"] * (1 + 1e-12), "%s: friction %.17g outside [%.17g, %.17g]", name, mu[i], st0, par["mu_2"])
            g = b["delta_gamma"][i]
            if m == L.DPMUI:
                sh = -T.K * a["eps_pl_vol_pradhana"][i] if par["use_pradhana"] else 0.0
                P = T.p[i] + sh + par["q_cohesion"] / par["mu_1"]
                if P <= ts:
                    need(P > -ts or mu[i] == st0, "%s: friction %.17g at the tip", name, mu[i])
                    continue
            else:
                pc = p_c(par, b["eps_pl_vol"] if implicit(par) else a["eps_pl_vol"], T.K)[i]
                P = p[i] + par["beta"] * pc
                if pc < 0.1 or P < 1e-2 * pc or pc - p[i] < 1e-2 * pc:
                    continue
            if g > 0 and mu[i] > st0:
                flows += 1
                I = g / math.sqrt(P + 1e-5) * par["grain_diameter"] * math.sqrt(par["rho_s"])      # inertial number
                want = st0 + (par["mu_2"] - st0) / (1 + par["I_ref"] / I)
                tg = 4e-13 * (1 + np.abs(T.e[i]).max()) / (qp * dt) + 1e-7 * g + 20 * ts / (2 * qp * qp * T.mu * dt)
                rel = tg / g + ts * 10 / P + (1e-3 if m == L.MCCMUI else 0)
                need(abs(mu[i] - want) <= (want - st0) * min(1, rel) + 1e-9 * want, "%s: friction %.17g, mu(I) gives %.17g at inertial number %.6g", name, mu[i], want, I)
    return dict(nontrivial=flows > 0, classes=cls, obs=dict(friction=mu.tolist(), q=q.tolist()))


@st.composite
def laws(draw):
    c = draw(element([L.NOPL, L.VM, L.DP, L.DPSOFT, L.VMVISC, L.MCC, L.MCC, L.MCCVISC, L.MCCVISC, L.MCCVISC, L.DPVISC, L.DPVISC, L.DPVISC, L.DPMUI, L.MCCMUI]))
    c["mibf"] = True
    c["m1"] = draw(st.sampled_from([0.5, 1.0, 0.9]))
    return c


@st.composite
def steps(draw):
    c = draw(world(max_n=20, models=list(range(10)) + [L.DPVISC, L.DPMUI, L.MCCMUI, L.MCCVISC], elastic=False, threads=(1, 1, 2)))
    c = draw(c14.common(c))
    c["ob"] = draw(obstacles(bcs=[L.SLIPSTICK, L.SLIPFREE, L.SLIPFREE, L.NOSLIP]))
    c.update(k=draw(st.integers(0, 2)), dir=None, gap=0, mibf=draw(st.integers(0, 4)) > 0, m1=draw(fl(0.1, 0.6)), M=draw(fl(0.1, 1.0)), famp=draw(st.sampled_from([0.0, 0.01, 0.1])), ct=min(c["ct"], 0.1), cv=max(c["cv"], 0.01), elastic=0)
    return scene_dx(c)


def run_step(c, env):
    lib = env.lib(c["variant"])
    arr, par, g, objects, plates = c08.arrays(c, lib)
    par.update(c14.model_par(c, par["E"]))
    par.update(M=c["M"], mu_1=c["m1"], mu_2=c["m1"] + 0.7, elastic_model=0, plastic_model=c["model"])
    a = (arr, par, g, objects, plates)
    pl = [dict(p) for p in plates]
    grid = None
    for k in (c["k"], c["k"] + 1):
        with c08.sim(c, lib, a, k) as s:
            if k == 0:
                st_k = dict(s.state())
                if c["mibf"]:
                    st_k["muI"] = np.full(c["n"], static(par))
                continue
            if s.simulate(60) == 1:
                raise Skip("time")
            if s.getp("exit") != 0:
                raise Skip("solver gave up")
            out = s.state()
            if k == c["k"]:
                st_k = out
                if not finite(out):
                    raise Skip("not finite")
                for i, p in enumerate(pl):
                    q = s.get_plate(i)
                    p.update(pos=q["pos"], lower=q["lower"], upper=q["upper"])
            else:
                grid = s.grid()
    margin = []
    cc = dict(c, elastic=0)
    r = c03.compare(cc, st_k, out, par, g, lib, arr["x"], objects, pl, margin=margin, F=False)
    R = ref.step(st_k, ref_par(par, lib.degree), c["dt"], ref.grid_origin(arr["x"], c["dx"]), objects, pl, g)
    off = ref.step(st_k, ref_par(dict(par, use_mibf=0), lib.degree), c["dt"], ref.grid_origin(arr["x"], c["dx"]), objects, pl, g)
    free = ref.step(st_k, ref_par(par, lib.degree), c["dt"], ref.grid_origin(arr["x"], c["dx"]), (), (), g)
    if c["mibf"]:
        need("friction" in grid, "the saved grid has no friction")
        R["origin"] = ref.grid_origin(arr["x"], c["dx"])
        R["fs"] = c["dt"] * par["particle_volume"] * np.abs(st_k["tau"]).max() / (par["particle_mass"] * par["dx"]) + np.abs(g).max() * c["dt"]
        c14.check_grid(grid, lib.dim, R, par, c, "grid", par["particle_mass"] * c["n"])
    sv = max(np.abs(free["pic"]).max(), 1e-300)
    differs = np.abs(R["pic"] - off["pic"]).max() > 1e-6 * sv
    varied = np.ptp(st_k["muI"]) > 1e-6 * np.abs(st_k["muI"]).max() if c["mibf"] else False
    r["nontrivial"] = bool(differs or (not c["mibf"] and np.abs(free["pic"] - R["pic"]).max() > 1e-6 * sv))
    r["classes"] += ["mibf=%d" % c["mibf"], "varied friction=%d" % varied]
    return r


SUBS = [Sub("law", laws(), law, 12000, 200000), Sub("step", steps(), run_step, 8000, 120000)]
