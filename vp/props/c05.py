"""Yield admissibility of the rate-independent models."""
from ..core import *
from ..plast import *

ID = "C05"
VARIANTS = VARS
RULE = ("a case is a set of 1-4 isolated material points with generated elastic deformation, plastic history, material parameters and steady velocity gradient, "
        "and a step index 1-4 of the history; the stress after that step is tested against the yield surface in force and against the trial state; "
        "non-trivial when at least one point yields in that step")


def same(a, b, i, keys, what):
    for k in keys:
        need(np.array_equal(a[k][i], b[k][i]), "%s: %s of point %d changed from %s to %s", what, k, i, a[k][i], b[k][i])


def elastic_ok(a, b, Ftr, i, what, ts):
    need(np.abs(b["F"][i] - Ftr[i]).max() <= 1e-12 * np.abs(Ftr[i]).max(), "%s: a state inside the yield surface was corrected (point %d): F %s -> %s", what, i, Ftr[i].tolist(), b["F"][i].tolist())
    same(a, b, i, ("eps_pl_dev", "eps_pl_vol"), what)


def run(c, env):
    lib, a, b, Ftr, T, N, par = last_step(c, env)
    p, q = ref.pq(b["tau"], par["q_prefac"])
    m, E = c["model"], par["E"]
    cls = ["model=%s" % L.MODEL_NAMES[m], "variant=" + c["variant"]]
    if m == L.MCC:
        cls.append("hardening=%d" % c["hard"])
    yielded = False
    for i in range(c["n"]):
        ts = 1e-11 * (T.K + T.mu) * (1 + np.abs(T.e[i]).max())
        what = "%s, step %d" % (L.MODEL_NAMES[m], c["k"] + 1)
        if m == L.VM:
            y = par["q_max"]
            need(q[i] <= y + ts, "%s: q = %.17g exceeds the yield stress %.17g", what, q[i], y)
            if T.q[i] < y - ts:
                elastic_ok(a, b, Ftr, i, what, ts)
            elif T.q[i] > y + ts:
                yielded = True
                need(abs(q[i] - y) <= ts, "%s: yielding but q = %.17g is not the yield stress %.17g", what, q[i], y)
                need(abs(p[i] - T.p[i]) <= ts, "%s: pressure changed by a deviatoric return: %.17g -> %.17g", what, T.p[i], p[i])
        elif m == L.DP:
            M, co = par["M"], par["q_cohesion"]
            need(q[i] <= M * p[i] + co + (1 + M) * ts + 1e-9, "%s: q = %.17g outside the cone M p + c = %.17g", what, q[i], M * p[i] + co)
            y = M * T.p[i] + co
            if y < -(1 + M) * ts:
                yielded = True
                need(abs(p[i] + co / M) <= ts and q[i] <= ts, "%s: beyond the tip but (p, q) = (%.17g, %.17g), tip at %.17g", what, p[i], q[i], -co / M)
                cls.append("tip")
            elif y > (1 + M) * ts + 1e-9:
                if T.q[i] < y - (1 + M) * ts:
                    elastic_ok(a, b, Ftr, i, what, ts)
                elif T.q[i] > y + (1 + M) * ts:
                    yielded = True
                    need(abs(q[i] - y) <= (1 + M) * ts and abs(p[i] - T.p[i]) <= ts, "%s: (p, q) = (%.17g, %.17g) not on the cone at the trial pressure %.17g (yield %.17g)", what, p[i], q[i], T.p[i], y)
                    cls.append("cone")
        elif m == L.DPSOFT:
            M, co, xi = par["M"], par["q_cohesion"], par["xi"]
            sh = -T.K * a["eps_pl_vol_pradhana"][i] if par["use_pradhana"] else 0.0
            tm = (1 + M) * ts
            tip0, tip1 = -co / M * np.exp(-xi * a["eps_pl_dev"][i]), -co / M * np.exp(-xi * b["eps_pl_dev"][i])   # tip0 <= tip1 <= 0
            need(b["eps_pl_dev"][i] >= a["eps_pl_dev"][i] - 1e-13, "%s: deviatoric plastic strain decreased", what)
            y = M * (T.p[i] + sh - tip0)
            at_tip = abs(q[i]) <= ts and tip0 - ts <= p[i] <= tip1 + ts
            if T.p[i] + sh < tip0 - ts:
                yielded = True
                need(at_tip and abs(p[i] - tip0) <= ts, "%s: beyond the tip but (p, q) = (%.17g, %.17g), tip at %.17g", what, p[i], q[i], tip0)
                cls.append("tip")
            elif T.p[i] + sh > tip0 + ts:
                if T.q[i] < y - tm:
                    elastic_ok(a, b, Ftr, i, what, ts)
                elif T.q[i] > y + tm:
                    yielded = True
                    # the surface softened by the strain that the return to the unsoftened surface would add
                    tipn = -co / M * np.exp(-xi * (a["eps_pl_dev"][i] + (T.q[i] - y) / (2 * par["q_prefac"] * T.mu)))
                    tn = tm + ts * (1 + xi * co / (2 * par["q_prefac"] * T.mu))
                    on = abs(p[i] - T.p[i]) <= ts and abs(q[i] - M * (p[i] + sh - tipn)) <= tn and T.p[i] + sh >= tipn - tn
                    tip = abs(q[i]) <= ts and abs(p[i] - tipn) <= tn and T.p[i] + sh <= tipn + tn
                    need(on or tip, "%s: (p, q) = (%.17g, %.17g) neither on the softened cone at the trial pressure %.17g (%.17g) nor at its tip (%.17g)",
                         what, p[i], q[i], T.p[i], M * (T.p[i] + sh - tipn), tipn)
                    cls.append("cone" if on else "tip")
        elif m == L.MCC:
            M, be = par["M"], par["beta"]
            pc0 = p_c(par, a["eps_pl_vol"], T.K)[i]
            if pc0 <= 1e-3 * par["p0"] or pc0 < 0.1:
                continue     # (nearly) no strength left
            pc1 = p_c(par, b["eps_pl_vol"], T.K)[i] if implicit(par) else pc0
            y0 = mcc_y(T.p[i], T.q[i], pc0, M, be)
            yt = 1e-9 * (M * M * (abs(T.p[i]) + pc0) ** 2 + T.q[i] ** 2) + ts * (M * M * (abs(T.p[i]) + pc0) + T.q[i])
            if y0 < -yt:
                elastic_ok(a, b, Ftr, i, what, ts)
            elif y0 > yt:
                yielded = True
                if c["hard"] == L.SINHIMPL and pc1 < 0.02:    # strength lost within the step: the surface shrinks to a point
                    cls.append("collapse")
                    tc = 0.03 * (1 + M) + 5e-2 * pc0 + 4 * ts
                    need(abs(p[i]) <= tc and q[i] <= tc, "%s: strength lost in tension but (p, q) = (%.17g, %.17g)", what, p[i], q[i])
                    continue
                y1 = mcc_y(p[i], q[i], pc1, M, be)
                tol = 1e-8 * M * M * (pc1 * (1 + be)) ** 2 + 4 * ts * (M * M * pc1 + q[i] + ts)
                te = (0.05 * pc1 * (1 + be) + 5e-2 * pc0 if implicit(par) else 0.0) + 4 * ts
                end = q[i] <= 4 * ts + (1e-3 if implicit(par) else 1e-6) * M * pc1 and (abs(p[i] - pc1) <= te or abs(p[i] + be * pc1) <= te)     # solver clamps p to the two ends
                need(abs(y1) <= tol or end, "%s (hardening %d): (p, q) = (%.17g, %.17g) not on the ellipse with p_c = %.17g: y = %.3g, tolerance %.3g (trial state (%.17g, %.17g), p_c = %.17g)", what, c["hard"], p[i], q[i], pc1, y1, tol, T.p[i], T.q[i], pc0)
                qp = par["q_prefac"]
                if not end and q[i] > 0.1 * M * pc1 and pc0 > 10 and pc1 > 0.2 * pc0 and y0 < 20 * (M * pc0) ** 2 and implicit(par) and abs(qp - 1 / math.sqrt(2)) < 1e-12 and abs(p[i] - 0.5 * (1 - be) * pc1) > 2e-3 * pc1:
                    # associated flow, solved to 1e-4 of p_c squared (next to the apex the solvers stop early)
                    dg = (T.p[i] - p[i]) / (T.K * M * M * (2 * p[i] + (be - 1) * pc1))
                    qr = T.q[i] / (1 + 2 * T.mu * dg)
                    r = mcc_y(p[i], qr, pc1, M, be) / pc0 ** 2
                    need(dg >= -1e-9 and abs(r) <= 2e-4, "%s (hardening %d): return from (%.17g, %.17g) to (%.17g, %.17g) is not along the normal of the surface (p_c = %.17g): residual %.3g",
                         what, c["hard"], T.p[i], T.q[i], p[i], q[i], pc1, r)
                    cls.append("implicit flow")
                if not end and q[i] > 0.1 * M * pc1 and pc0 > 10 and pc1 > 0.2 * pc0 and y0 < 20 * (M * pc0) ** 2 and not implicit(par):
                    # associated flow: the correction is along the normal, measured by the elastic moduli
                    k = M * M * (2 * p[i] + (be - 1) * pc1)
                    u, v = (T.p[i] - p[i]) * 4 * qp * qp * T.mu * q[i], (T.q[i] - q[i]) * T.K * k
                    sc = (abs(T.p[i] - p[i]) + 1e-2 * pc1) * 4 * qp * qp * T.mu * q[i] + (abs(T.q[i] - q[i]) + 1e-2 * M * pc1) * T.K * abs(k)
                    need(abs(u - v) <= FLOW_TOL * sc, "%s (hardening %d): return from (%.17g, %.17g) to (%.17g, %.17g) is not along the normal of the surface (p_c = %.17g): misfit %.3g of the correction",
                         what, c["hard"], T.p[i], T.q[i], p[i], q[i], pc1, abs(u - v) / sc)
                    cls.append("flow")
                side = "right" if T.p[i] > 0.5 * (1 - be) * pc0 else "left"
                cls.append(side)
    return dict(nontrivial=yielded, classes=cls + ["yielded=%d" % yielded], obs=dict(p_trial=T.p.tolist(), q_trial=T.q.tolist(), p=p.tolist(), q=q.tolist()))


FLOW_TOL = 0.05
SUBS = [Sub("surface", element([L.VM, L.DP, L.DPSOFT]), run, 12000, 200000), Sub("cam_clay", element([L.MCC]), run, 8000, 200000)]
