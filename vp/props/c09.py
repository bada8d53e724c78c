"""Analytic terrains and plates: inside tests and normals."""
import ctypes as C
from ..core import *
from .. import ref

ID = "C09"
VARIANTS = ["2q", "3q", "2q+pat", "3q+pat"]
RULE = ("shape: batches of 64 random points of mixed distance (1e-8 to 1e3) from a terrain's surface, inside test against the shape's formula; surface: points on "
        "the surface found by bisection on the code's own inside test, the normal there against the surface itself (unit, out of the solid, perpendicular to "
        "surface points found nearby) and the formula's gradient; plate: batches of 64 points around a plate of any type, position and extent. Non-trivial when points of "
        "both sides occur (shape, plate) or the surface point was found (surface)")
KINDS = [L.GROUND, L.CURVE, L.BUMP, L.GATE, L.RAMP, L.SILO]


def query(lib, kind, par, X):
    X = np.ascontiguousarray(X, float)
    n = len(X)
    a = np.zeros(8)
    a[: len(par)] = par
    i, N = np.zeros(n, np.int32), np.zeros(X.shape)
    need(lib.c.ms_obj_query(int(kind), L._ptr(a), n, L._ptr(X), i.ctypes.data_as(C.POINTER(C.c_int)), L._ptr(N)) == 0, "object cannot be made")
    return i.astype(bool), N


@st.composite
def obj(draw):
    c = dict(variant=draw(st.sampled_from(VARIANTS)), kind=draw(st.sampled_from(KINDS)), seed=draw(seeds),
             h=draw(st.one_of(st.sampled_from([0.016, -1.0, 0.0]), fl(-3, 3))), xs=draw(st.sampled_from([0.01, 0.1, 1.0, 5.0])))
    return c


def par_of(c):
    return {L.GROUND: [c["h"]], L.GATE: [abs(c["h"])], L.SILO: [-abs(c["h"]) - 1e-3]}.get(c["kind"], [])


def surface_y(c, x):
    k = c["kind"]
    if k == L.GROUND:
        return np.full_like(x, c["h"])
    if k == L.CURVE:
        return x * x
    if k == L.BUMP:
        return 0.0475 / np.cosh(25 * (x - 0.43))
    if k == L.GATE:
        return abs(c["h"]) + 100 * x * x
    return -0.1 * np.tanh(100 * x)


def lib_of(c, env):
    v = c["variant"]
    if c["kind"] == L.SILO and v[0] == "2":
        v = "3" + v[1:]
    return env.lib(v)


def points(c, r, d, n):
    x = np.zeros((n, d))
    if c["kind"] == L.SILO:
        y = r.uniform(-1.5, 1.5, n) * (1 + c["xs"])
        rad = np.maximum(np.tanh(y) + 1 + r.choice([-1, 1], n) * 10 ** r.uniform(-8, 1, n), 1e-3)
        th = r.uniform(-np.pi, np.pi, n)
        x[:, 0], x[:, 1], x[:, 2] = rad * np.cos(th), y, rad * np.sin(th)
        return x
    c0 = 0.43 if c["kind"] == L.BUMP else 0.0
    x[:, 0] = c0 + r.uniform(-1, 1, n) * c["xs"]
    if d == 3:
        x[:, 2] = r.uniform(-5, 5, n)
    x[:, 1] = surface_y(c, x[:, 0]) + r.choice([-1, 1], n) * 10 ** r.uniform(-8, 3, n)
    return x


def run_shape(c, env):
    lib = lib_of(c, env)
    r = rng(c)
    X = points(c, r, lib.dim, 64)
    par = par_of(c)
    got, N = query(lib, c["kind"], par, X)
    s = ref.obj_inside(c["kind"], par, X)
    ok = np.abs(s) > 1e-11 * (1 + np.abs(X).max(1) ** 2 * (100 if c["kind"] == L.GATE else 1))
    bad = ok & (got != (s <= 0))
    if bad.any():
        k = int(np.argmax(bad))
        raise Fail("point %s is %s the object, the shape says otherwise (by %.3g)" % (X[k].tolist(), "inside" if got[k] else "outside", s[k]))
    nn = np.linalg.norm(N, axis=1)
    need(bool((np.abs(nn - 1) < 1e-12).all()), "normal of length %r", nn[np.argmax(np.abs(nn - 1))])
    ex = ref.obj_normal(c["kind"], par, X)
    close("normal", N, ex, 1e-9, scale=1.0)
    return dict(nontrivial=bool((got & ok).any() and (~got & ok).any()), classes=["kind=%d" % c["kind"], "variant=" + c["variant"]],
                obs=dict(x=X[0].tolist(), inside=bool(got[0]), normal=N[0].tolist()))


def run_surface(c, env):
    lib = lib_of(c, env)
    d, k = lib.dim, c["kind"]
    r = rng(c)
    par = par_of(c)
    # a point known to be outside and a direction crossing the surface
    scale = {L.GROUND: 1.0, L.CURVE: 0.3, L.BUMP: 0.02, L.GATE: 0.004, L.RAMP: 0.004, L.SILO: 0.2}[k]

    def root(o, u, lo, hi):
        """bisection on the code's inside test along o + t u; None when there is no change of side"""
        a = query(lib, k, par, np.array([o + lo * u, o + hi * u]))[0]
        if a[0] == a[1]:
            return None
        for _ in range(70):
            m = 0.5 * (lo + hi)
            if query(lib, k, par, [o + m * u])[0][0] == a[0]:
                lo = m
            else:
                hi = m
        return o + 0.5 * (lo + hi) * u

    p = points(c, r, d, 1)[0]
    if k == L.SILO:
        p[1] = r.uniform(max(par[0], -1.5) + 0.2 if par[0] < -0.3 else 0.05, 1.5)
        u = np.array([p[0], 0, p[2]]) / np.hypot(p[0], p[2])
        p = np.array([0, p[1], 0])
        s = root(p, u, 0.0, 5.0)
    else:
        u = np.eye(d)[1]
        p[1] = 0
        p[0] = (0.43 if k == L.BUMP else 0) + (p[0] - (0.43 if k == L.BUMP else 0)) * min(1.0, scale * 10 / c["xs"])
        s = root(p, u, -200.0, 200.0)
    if s is None:
        raise Fail("no surface along %s from %s" % (u.tolist(), p.tolist()))
    n = query(lib, k, par, [s])[1][0]
    need(abs(np.linalg.norm(n) - 1) < 1e-12, "normal of length %r", np.linalg.norm(n))
    e = scale * 1e-4
    a = query(lib, k, par, np.array([s + e * n, s - e * n]))[0]
    need(not a[0] and a[1], "from the surface point %s, along the normal %s lies %s, against it %s", s.tolist(), n.tolist(),
         "the solid" if a[0] else "free space", "the solid" if a[1] else "free space")
    # surface points nearby, in tangential directions, deviate only to second order
    for j in range(d):
        t = np.eye(d)[j] - n[j] * n
        l = np.linalg.norm(t)
        if l < 0.1:
            continue
        t /= l
        q = root(s + e * t, n, -0.5 * e, 0.5 * e)
        need(q is not None, "no surface near %s + %g %s within half that distance along the normal %s", s.tolist(), e, t.tolist(), n.tolist())
        dev = abs((q - s) @ n)
        need(dev <= 0.02 * e, "the normal %s at %s is not perpendicular to the surface: off by %g at distance %g in direction %s", n.tolist(), s.tolist(), dev, e, t.tolist())
    return dict(nontrivial=True, classes=["kind=%d" % k, "variant=" + c["variant"]], obs=dict(point=s.tolist(), normal=n.tolist()))


@st.composite
def plates(draw):
    lim = draw(st.integers(0, 3))
    return dict(variant=draw(st.sampled_from(VARIANTS)), type=draw(st.integers(0, 5)), seed=draw(seeds), pos=draw(st.one_of(st.just(0.0), fl(-50, 50))),
                lower=draw(fl(-20, 0)) if lim & 1 else -1e15, upper=draw(fl(0, 20)) if lim & 2 else 1e15)


def run_plate(c, env):
    v = c["variant"]
    if c["type"] >= 4 and v[0] == "2":
        v = "3" + v[1:]
    lib = env.lib(v)
    d, n = lib.dim, 64
    r = rng(c)
    X = r.uniform(-30, 30, (n, d))
    ax, s = ref.PLATE_AXIS[c["type"]]
    X[:, ax] = c["pos"] + r.choice([-1, 1], n) * 10 ** r.uniform(-9, 2, n)
    if ax != 2 and r.random() < 0.7:
        o = 1 - ax
        h = r.random(n) < 0.5
        lim = np.where(r.random(n) < 0.5, c["lower"], c["upper"])
        lim = np.where(np.abs(lim) > 1e14, X[:, o], lim)
        X[:, o] = np.where(h, lim + r.choice([-1, 1], n) * 10 ** r.uniform(-9, 1, n), X[:, o])
    i = np.zeros(n, np.int32)
    X = np.ascontiguousarray(X)
    lib.c.ms_plate_inside(C.c_double(c["pos"]), int(c["type"]), C.c_double(c["lower"]), C.c_double(c["upper"]), n, L._ptr(X), i.ctypes.data_as(C.POINTER(C.c_int)))
    got = i.astype(bool)
    f = ref.plate_inside(c, X)
    ok = np.abs(f) > 1e-12
    bad = ok & (got != (f <= 0))
    if bad.any():
        k = int(np.argmax(bad))
        raise Fail("point %s is %s the plate, its half-space and extent say otherwise (by %.3g)" % (X[k].tolist(), "inside" if got[k] else "outside", f[k]))
    return dict(nontrivial=bool(got.any() and (~got).any()), classes=["type=%d" % c["type"], "variant=" + c["variant"], "limited=%d" % (c["lower"] > -1e14 or c["upper"] < 1e14)],
                obs=dict(x=X[0].tolist(), inside=bool(got[0])))


SUBS = [Sub("shape", obj(), run_shape, 12000, 200000), Sub("surface", obj(), run_surface, 6000, 100000), Sub("plate", plates(), run_plate, 8000, 150000)]
