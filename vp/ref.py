"""Independent reference for one MPM step, written from the published scheme
(B-spline transfers, PIC/FLIP, APIC, AFLIP, USL and MUSL, symplectic Euler,
rigid contact) on an unbounded lattice, or on a lattice periodic in x."""
import numpy as np
from . import lib as L


# ------------------------------------------------------------------ kernels
def kernel(u, degree):
    """B-spline of the given degree centred at 0 and its derivative."""
    a, s = np.abs(u), np.sign(u)
    if degree == 2:
        w = np.where(a < 0.5, 0.75 - a * a, np.where(a < 1.5, 0.5 * (1.5 - a) ** 2, 0.0))
        g = np.where(a < 0.5, -2 * u, np.where(a < 1.5, -(1.5 - a) * s, 0.0))
    else:
        w = np.where(a < 1, 2 / 3 - a * a + a ** 3 / 2, np.where(a < 2, (2 - a) ** 3 / 6, 0.0))
        g = np.where(a < 1, -2 * u + 1.5 * a * u, np.where(a < 2, -0.5 * (2 - a) ** 2 * s, 0.0))
    return w, g


def d_matrix_scale(dx, degree):
    """sum_i w_ip (x_i - x_p)(x_i - x_p)^T = scale * I"""
    return dx * dx / (4.0 if degree == 2 else 3.0)


class Stencil:
    """Nodes and weights of all particles; nodes are the touched ones only."""

    def __init__(self, x, dx, degree, origin, period_cells=None):
        n, d = x.shape
        self.n, self.d, self.dx = n, d, dx
        base = np.floor((x - origin) / dx).astype(np.int64) - 1
        offs = np.stack(np.meshgrid(*[np.arange(4)] * d, indexing="ij"), -1).reshape(-1, d)
        idx = base[:, None, :] + offs[None]                       # n, m, d
        pos = origin + idx * dx
        u = (x[:, None, :] - pos) / dx
        w1, g1 = kernel(u, degree)
        w = w1.prod(-1)
        g = np.empty(u.shape)
        for k in range(d):
            t = g1[..., k] / dx
            for j in range(d):
                if j != k:
                    t = t * w1[..., j]
            g[..., k] = t
        self.w, self.g = w, g
        self.dpos = pos - x[:, None, :]
        if period_cells:
            idx = idx.copy()
            idx[..., 0] %= period_cells
        flat = idx.reshape(-1, d)
        nodes, inv = np.unique(flat, axis=0, return_inverse=True)
        self.nodes = nodes
        self.inv = inv.reshape(n, -1)
        self.npos = origin + nodes * dx
        self.N = len(nodes)

    def scatter(self, vals):
        """sum over particles of vals[n, m, ...] into nodes"""
        sh = vals.shape[2:]
        out = np.zeros((self.N, int(np.prod(sh)) if sh else 1))
        v = vals.reshape(self.n * vals.shape[1], -1)
        for k in range(out.shape[1]):
            out[:, k] = np.bincount(self.inv.ravel(), weights=v[:, k], minlength=self.N)
        return out.reshape((self.N,) + sh)

    def gather(self, a):
        return a[self.inv]


# ------------------------------------------------------------------ contact
def obj_inside(kind, par, X):
    D = X.shape[1]
    x, y = X[:, 0], X[:, 1]
    if kind == L.HALFSPACE:
        n = np.asarray(par[:D], float)
        return (X - np.asarray(par[D:2 * D])) @ (n / np.linalg.norm(n))
    if kind == L.BALL:
        return np.linalg.norm(X - np.asarray(par[:D]), axis=1) - par[D]
    if kind == L.GROUND:
        return y - par[0]
    if kind == L.CURVE:
        return y - x * x
    if kind == L.BUMP:
        return y - 0.0475 / np.cosh(25 * (x - 0.43))
    if kind == L.GATE:
        return (par[0] + 100 * x * x) - y
    if kind == L.RAMP:
        return y + 0.1 * np.tanh(100 * x)
    if kind == L.SILO:
        r = np.hypot(x, X[:, 2])
        f = np.tanh(y) + 1 - r
        return np.where(y < par[0], np.maximum(par[0] - y, f), f)
    raise ValueError(kind)


def obj_normal(kind, par, X):
    """Unit normal pointing out of the solid."""
    D = X.shape[1]
    n = np.zeros_like(X)
    x, y = X[:, 0], X[:, 1]
    n[:, 1] = 1
    if kind == L.HALFSPACE:
        n[:] = par[:D]
    elif kind == L.BALL:
        n = X - np.asarray(par[:D])
    elif kind == L.CURVE:
        n[:, 0] = -2 * x
    elif kind == L.BUMP:
        a = 25 * (x - 0.43)
        n[:, 0] = 25 * 0.0475 * np.tanh(a) / np.cosh(a)
    elif kind == L.GATE:
        n[:, 0] = 200 * x
        n[:, 1] = -1
    elif kind == L.RAMP:
        n[:, 0] = 10 / np.cosh(100 * x) ** 2
    elif kind == L.SILO:
        r = np.hypot(x, X[:, 2])
        n[:, 0] = -x / r
        n[:, 2] = -X[:, 2] / r
        n[:, 1] = 1 / np.cosh(y) ** 2
    return n / np.linalg.norm(n, axis=1, keepdims=True)


PLATE_AXIS = {L.TOP: (1, -1), L.BOTTOM: (1, 1), L.LEFT: (0, 1), L.RIGHT: (0, -1), L.FRONT: (2, -1), L.BACK: (2, 1)}


def plate_inside(pl, X):
    """Positive outside; the smaller in absolute value, the closer to the deciding surface."""
    ax, s = PLATE_AXIS[pl["type"]]
    d = s * (X[:, ax] - pl["pos"])
    if ax == 2:
        return d
    other = 1 - ax
    lat = np.maximum(pl["lower"] - X[:, other], X[:, other] - pl["upper"])
    return np.maximum(d, lat)


def slip(v, n, bc, mu, friction_when_separating):
    """Contact response for the relative velocities v with outward normals n."""
    vn = (v * n).sum(1)
    vt = v - vn[:, None] * n
    s = np.linalg.norm(vt, axis=1)
    cut = np.maximum(mu, 0) * np.abs(vn)      # the averaged friction of a material in tension may be negative: no friction
    fac = np.where(s > cut, (s - cut) / np.where(s > 0, s, 1), 0.0)
    fr = vt * fac[:, None]
    if bc == L.SLIPFREE:
        return np.where((vn < 0)[:, None], fr, v)
    if friction_when_separating:
        return fr
    return np.where((vn < 0)[:, None], fr, vt)


def contact(X, v, objects, plates, mu_override=None, margin=None):
    """Grid velocities after contact. X: advanced node positions.
    margin (list) collects the distance of each node to each deciding surface."""
    v = v.copy()
    for o in objects:
        d = obj_inside(o["kind"], o["par"], X)
        if margin is not None:
            margin.append(np.abs(d).min() if len(d) else np.inf)
        i = d <= 0
        if not i.any():
            continue
        if o["bc"] == L.NOSLIP:
            v[i] = 0
            continue
        mu = o["friction"] if mu_override is None else mu_override[i]
        v[i] = slip(v[i], obj_normal(o["kind"], o["par"], X[i]), o["bc"], mu, False)
    for pl in plates:
        d = plate_inside(pl, X)
        if margin is not None:
            margin.append(np.abs(d).min() if len(d) else np.inf)
        i = d <= 0
        if not i.any():
            continue
        pv = np.asarray(pl["v"], float)[: X.shape[1]]
        if pl["bc"] == L.NOSLIP:
            v[i] = pv
            continue
        ax, s = PLATE_AXIS[pl["type"]]
        n = np.zeros_like(v[i])
        n[:, ax] = s
        mu = pl["friction"] if mu_override is None else mu_override[i]
        v[i] = slip(v[i] - pv, n, pl["bc"], mu, True) + pv
    return v


# ------------------------------------------------------------------ one step
def step(st, par, dt, origin, objects=(), plates=(), gravity=None, period=None, margin=None):
    """st: x, v, Bmat, F, tau (and muI when use_mibf). Returns the state after one
    step, F being the trial deformation gradient (before any plastic correction)."""
    x, v, B, tau = st["x"], st["v"], st["Bmat"], st["tau"]
    dx, fr, deg = par["dx"], par["flip_ratio"], par["degree"]
    mp, V0 = par["particle_mass"], par["particle_volume"]
    n, d = x.shape
    g = np.zeros(d) if gravity is None else np.asarray(gravity, float)[:d]
    S = Stencil(x, dx, deg, origin, None if period is None else int(round(period / dx)))
    w, gw = S.w, S.g
    live = w > 1e-25
    wl = np.where(live, w, 0.0)
    Di = 1.0 / d_matrix_scale(dx, deg)

    def momentum(vel):
        q = np.repeat(vel[:, None, :], w.shape[1], 1)
        if fr < 0:
            q = q + np.einsum("nij,nmj->nmi", B if vel is v else st2B, S.dpos) * Di
        return S.scatter(q * wl[..., None])

    W = S.scatter(wl)
    has = W > 0
    Wn = np.where(has, W, 1.0)
    st2B = B
    vi = np.where(has[:, None], momentum(v) / Wn[:, None], 0.0)
    f = S.scatter(np.where(live[..., None], np.einsum("nij,nmj->nmi", tau, gw), 0.0))
    mass = W * mp
    new = vi + np.where(has[:, None], -dt * V0 * f / (Wn * mp)[:, None] + dt * g, 0.0)
    fric = None
    if par.get("use_mibf"):
        fric = np.where(has, S.scatter(wl * st["muI"][:, None]) / Wn, 0.0)
    X = S.npos + dt * new
    m = [] if margin is None else margin
    new = np.where(has[:, None], contact(X, new, objects, plates, fric, m), 0.0)
    dv = np.where(has[:, None], new - vi, 0.0)
    gn = S.gather(new)
    pic = (gn * w[..., None]).sum(1)
    flip = (S.gather(dv) * w[..., None]).sum(1) if fr >= -1 else np.zeros_like(v)
    Bn = np.einsum("nmi,nmj,nm->nij", gn, S.dpos, w) if fr < 0 else np.zeros_like(B)
    if fr < -1:
        vn = pic
    else:
        a = abs(fr)
        vn = a * (v + flip) + (1 - a) * pic
    gridv = new
    if par.get("use_musl"):
        st2B = Bn
        gridv = np.where(has[:, None], momentum(vn) / Wn[:, None], 0.0)
    L_ = np.einsum("nmi,nmj->nij", S.gather(gridv), gw)
    F = st["F"] + dt * np.einsum("nij,njk->nik", L_, st["F"])
    xn = x + dt * pic
    if period is not None:
        xn[:, 0] = np.where(xn[:, 0] > period, xn[:, 0] - period, np.where(xn[:, 0] < 0, xn[:, 0] + period, xn[:, 0]))
    live_min = w[w > 0].min() if (w > 0).any() else 1.0
    return dict(x=xn, v=vn, Bmat=Bn, F=F, pic=pic, flip=flip, L=L_, mass=mass, gridv=gridv, fric=fric, npos=S.npos,
                nodes=S.nodes, wmin=live_min, vgrid_old=vi, has=has, f=f, W=W)


# ------------------------------------------------------------------ elasticity
def lame(E, nu):
    return E / (2 * (1 + nu)), nu * E / ((1 + nu) * (1 - 2 * nu))


def hencky_tau(F, E, nu):
    mu, lam = lame(E, nu)
    V, w, _ = np.linalg.svd(F)
    e = np.log(w)
    p = 2 * mu * e + lam * e.sum(1, keepdims=True)
    return np.einsum("nij,nj,nkj->nik", V, p, V)


def neo_tau(F, E, nu):
    mu, lam = lame(E, nu)
    I = np.eye(F.shape[1])
    b = np.einsum("nij,nkj->nik", F, F)
    return mu * (b - I) + lam * np.log(np.linalg.det(F))[:, None, None] * I


def pq(tau, q_prefac):
    d = tau.shape[1]
    p = -np.trace(tau, axis1=1, axis2=2) / d
    s = tau + p[:, None, None] * np.eye(d)
    return p, q_prefac * np.sqrt((s * s).sum((1, 2)))


def grid_origin(x, dx, ref=None):
    lo = x.min(0)
    if ref is not None:
        lo = np.minimum(lo, np.asarray(ref, float)[: x.shape[1]])
    return lo - 2 * dx
