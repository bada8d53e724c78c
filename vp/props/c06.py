"""Plastic strain bookkeeping of every plastic model."""
from ..core import *
from ..plast import *

ID = "C06"
VARIANTS = VARS
RULE = ("a case is a set of 1-4 isolated material points of one plastic model with generated deformation, history, parameters and steady velocity gradient, and a step index 1-4 of its "
        "history; elastic strain removed in that step is compared with plastic strain recorded; non-trivial when at least one point was corrected in the step")
ALL = [L.VM, L.DP, L.DPSOFT, L.MCC, L.VMVISC, L.DPVISC, L.MCCVISC, L.DPMUI, L.MCCMUI]


def run(c, env):
    lib, a, b, Ftr, T, N, par = last_step(c, env)
    m, d, dt, qp = c["model"], lib.dim, c["dt"], par["q_prefac"]
    name = "%s, step %d" % (L.MODEL_NAMES[m], c["k"] + 1)
    corrected = 0
    cls = ["model=%s" % L.MODEL_NAMES[m], "variant=" + c["variant"], "musl=%d" % c["musl"]]
    for i in range(c["n"]):
        eps = 1e-13 * (1 + np.abs(T.e[i]).max()) * (np.exp(2 * np.abs(T.e[i]).max()))
        rem_v, rem_d = T.tr[i] - N.tr[i], T.norm[i] - N.norm[i]
        add_v, add_d = b["eps_pl_vol"][i] - a["eps_pl_vol"][i], b["eps_pl_dev"][i] - a["eps_pl_dev"][i]
        # a trial state isotropic up to rounding has no reliable deviatoric direction
        eps += min(1.0, eps / max(T.norm[i], 1e-300)) * 2 * (N.norm[i] + T.norm[i] + abs(add_d))
        rv, rd = 4e-16 * abs(a["eps_pl_vol"][i]), 4e-16 * abs(a["eps_pl_dev"][i])
        slack = 0.0
        if m in (L.MCC, L.MCCMUI, L.MCCVISC):       # pressure-driven returns may raise q within the solver's tolerance
            slack = 1e-4 * par["M"] * (np.abs(p_c(par, a["eps_pl_vol"], T.K)[i]) + abs(T.p[i]) + T.q[i]) / (2 * qp * T.mu) + 1e-4 / (2 * qp * T.mu)
        fix = np.abs(b["F"][i] - Ftr[i]).max() > 1e-12 * np.abs(Ftr[i]).max()
        need(abs(rem_v - add_v) <= eps + rv, "%s: volumetric plastic strain grew by %.17g but the elastic volume strain removed is %.17g (point %d)", name, add_v, rem_v, i)
        if m == L.MCCMUI:        # a shear correction below the stress tolerance is not recorded
            need(abs(rem_d - add_d) <= eps + rd or (add_d == 0 and rem_d <= 2e-5 / (2 * qp * T.mu) + eps and rem_d >= -slack - eps), "%s: deviatoric plastic strain grew by %.17g but the elastic deviatoric strain removed is %.17g (point %d)", name, add_d, rem_d, i)
        else:
            lost = slack if T.norm[i] <= 10 * eps else 0.0     # isotropic trial state: no direction to apply it in
            need(abs(rem_d - add_d) <= eps + rd + lost, "%s: deviatoric plastic strain grew by %.17g but the elastic deviatoric strain removed is %.17g (point %d)", name, add_d, rem_d, i)
        need(add_d >= -rd - eps - slack, "%s: deviatoric plastic strain decreased by %.3g (point %d)", name, -add_d, i)
        # the correction is a principal stretch change in the trial axes: F_new F_tr^-1 symmetric, commutes with b_trial, keeps the deviatoric direction
        A = b["F"][i] @ np.linalg.inv(Ftr[i])
        bt = Ftr[i] @ Ftr[i].T
        ts = 1e-11 * np.exp(2 * np.abs(T.e[i]).max() + 2 * np.abs(N.e[i]).max())
        need(np.abs(A - A.T).max() <= ts, "%s: correction F_new F_trial^-1 = %s is not symmetric (point %d)", name, A.tolist(), i)
        need(np.abs(A @ bt - bt @ A).max() <= ts * np.abs(bt).max(), "%s: correction does not act along the principal axes of the trial state (point %d)", name, i)
        if T.norm[i] > 1e-9 and N.norm[i] > 1e-9:
            need(np.abs(N.dev[i] / N.norm[i] - T.dev[i] / T.norm[i]).max() <= 1e-9 + 1e-14 / min(T.norm[i], N.norm[i]) * np.exp(2 * np.abs(T.e[i]).max()), "%s: direction of the deviatoric strain changed (point %d)", name, i)
        # stress of the corrected state
        t = ref.hencky_tau(b["F"][i:i + 1], par["E"], par["nu"])[0]
        need(np.abs(b["tau"][i] - t).max() <= 1e-11 * (T.K + T.mu) * (1 + np.abs(N.e[i]).max()) * np.exp(np.abs(T.e[i]).max()), "%s: stress %s is not the elastic stress %s of the corrected deformation (point %d)", name, b["tau"][i].tolist(), t.tolist(), i)
        # recorded shear rate
        rate, want = b["delta_gamma"][i], add_d / (qp * dt)
        tr = (eps + rd) / (qp * dt) * 4 + 1e-12 * abs(want)
        ok = abs(rate - want) <= tr
        if m == L.DPMUI and N.norm[i] <= 1e-12 * np.exp(T.norm[i]):
            ok = ok or abs(rate - add_d / qp) <= (eps + rd) / qp * 4     # the increment itself at the tip
        need(ok, "%s: recorded shear rate %.17g, expected %.17g (deviatoric plastic strain added %.17g in %.17g s, point %d)", name, rate, want, add_d, dt, i)
        if not fix and abs(rem_d) <= eps and abs(rem_v) <= eps and add_d == 0 and add_v == 0:
            need(abs(rate) <= tr, "%s: shear rate %.17g recorded for an elastic point %d", name, rate, i)
        corrected += bool(fix)
        if fix:
            cls.append("dev" if abs(rem_d) > abs(rem_v) else "vol")
    # correction memory of the pressure-shift models
    for i in range(c["n"]):
        m0, m1 = a["eps_pl_vol_pradhana"][i], b["eps_pl_vol_pradhana"][i]
        add_v = b["eps_pl_vol"][i] - a["eps_pl_vol"][i]
        tol = 1e-14 + 4e-16 * (abs(m0) + abs(a["eps_pl_vol"][i]))
        if m not in (L.DPSOFT, L.DPVISC, L.DPMUI) or (not par["use_pradhana"] and m != L.DPMUI):
            need(m1 == m0, "%s: volume-correction memory changed from %.17g to %.17g though it is not in use", name, m0, m1)
        else:
            grown = abs(m1 - m0 - add_v) <= tol
            msg = "%s: volume-correction memory went from %.17g to %.17g while %.17g of plastic volume strain was added", name, m0, m1, add_v
            need(grown or m1 == 0, *msg)
            if N.norm[i] > 1e-9:
                need(m1 == 0, *msg)          # not at the tip
            elif add_v != 0:
                need(grown, *msg)            # tip return
    return dict(nontrivial=corrected > 0, classes=cls, obs=dict(added_dev=(b["eps_pl_dev"] - a["eps_pl_dev"]).tolist(), added_vol=(b["eps_pl_vol"] - a["eps_pl_vol"]).tolist(), rate=b["delta_gamma"].tolist()))


SUBS = [Sub("bookkeeping", element(ALL), run, 20000, 300000)]
