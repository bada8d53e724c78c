"""Level sets from VDB files."""
import ctypes as C
import shutil
import tempfile
from ..core import *
from .. import ref, build as BB

ID = "C16"
VARIANTS = ["2q", "3q"]
RULE = ("a generated level set (distance to a tilted plane, ball, box, or union of balls; voxel size, position and index range independent, values stored in single precision) written to a file and loaded; "
        "'query': 40 points against an independent trilinear interpolation of the stored values, and normals against the analytic gradient; 'sample': regular and random sampling of it; "
        "'contact': one step against a tilted plane given as a level set and as an analytic object. Non-trivial when points lie on both sides (query), two or more particles result (sample), "
        "or a grid node is in contact (contact)")


def build():
    return BB.build(VARIANTS, ("core", "geom", "io", "vdb"), libs=("-lopenvdb", "-ltbb"))


@st.composite
def levelsets(draw, d, kinds=("plane", "ball", "box", "balls"), nmax=22):
    h = draw(logfl(1e-2, 3.0))
    return dict(kind=draw(st.sampled_from(list(kinds))), h=h, n=[draw(st.integers(8, nmax)) for _ in range(3)], i0=[draw(st.integers(-30, 10)) for _ in range(3)],
                t=[draw(st.one_of(st.just(0.0), fl(-5, 5))) for _ in range(3)], u=[draw(fl(-1, 1)) for _ in range(3)], off=draw(fl(-0.5, 0.5)), rad=draw(fl(0.2, 0.45)), bg=draw(st.sampled_from([3.0, 50.0])))


class LS:
    def __init__(self, c, d):
        self.c, self.d, self.h = c, d, c["h"]
        self.n, self.i0 = np.array(c["n"]), np.array(c["i0"])
        self.t = np.array(c["t"]) * self.h
        if d == 2:      # the plane z = 0 lies inside
            self.i0[2] = -int(self.n[2] // 2)
            self.t[2] = 0.3 * self.h
        self.lo = self.i0 * self.h + self.t
        self.hi = (self.i0 + self.n - 1) * self.h + self.t
        self.mid = 0.5 * (self.lo + self.hi)
        if d == 2:
            self.mid[2] = 0.0
        ext = (self.hi - self.lo)[:d].min()
        self.R = c["rad"] * ext
        u = np.array(c["u"])
        if d == 2:
            u[2] = 0
        self.u = u / np.linalg.norm(u) if np.linalg.norm(u) > 1e-3 else np.eye(3)[0]
        self.a = self.mid + self.u * c["off"] * 0.6 * ext
        g = np.stack(np.meshgrid(*[np.arange(k) for k in self.n], indexing="ij"), -1)
        self.val = self.phi((g + self.i0) * self.h + self.t).astype(np.float32)
        self.bg = np.float32(c["bg"] * self.h)

    def phi(self, X):
        k = self.c["kind"]
        if k == "plane":
            return (X - self.a) @ self.u
        if k == "ball":
            return np.linalg.norm(X - self.mid, axis=-1) - self.R
        if k == "balls":
            return np.minimum(np.linalg.norm(X - self.mid - 0.3 * self.R * self.u, axis=-1), np.linalg.norm(X - self.mid + 0.6 * self.R * self.u, axis=-1)) - 0.6 * self.R
        q = np.abs(X - self.mid) - self.R * np.array([1, 0.8, 0.9])
        return np.linalg.norm(np.maximum(q, 0), axis=-1) + np.minimum(q.max(-1), 0)

    def sample(self, X):
        """Trilinear interpolation of the stored values; background outside the stored range."""
        I = (X - self.t) / self.h - self.i0
        b = np.floor(I).astype(int)
        f = I - b
        out = np.zeros(len(X))
        for o in np.ndindex(2, 2, 2):
            j = b + o
            ok = ((j >= 0) & (j < self.n)).all(1)
            jj = np.clip(j, 0, self.n - 1)
            v = np.where(ok, self.val[jj[:, 0], jj[:, 1], jj[:, 2]], self.bg).astype(float)
            out += v * np.where(np.array(o) == 1, f, 1 - f).prod(1)
        return out

    def gradient(self, X):
        """Central differences of the stored values, interpolated (only meaningful two or more voxels inside the stored range)."""
        g = np.stack(np.gradient(self.val.astype(float), self.h), -1)
        I = np.clip((X - self.t) / self.h - self.i0, 0, self.n - 1.001)
        b = np.floor(I).astype(int)
        f = I - b
        return sum(g[tuple((b + o).T)] * np.where(np.array(o) == 1, f, 1 - f).prod(1)[:, None] for o in np.ndindex(2, 2, 2))

    def write(self, lib, path):
        a = np.ascontiguousarray(self.val)
        I = lambda v: np.ascontiguousarray(v, dtype=np.int32).ctypes.data_as(C.POINTER(C.c_int))
        n, i0, t = np.array(self.n, np.int32), np.array(self.i0, np.int32), np.array(self.t, float)
        rc = lib.c.ms_vdb_write(path.encode(), n.ctypes.data_as(C.POINTER(C.c_int)), i0.ctypes.data_as(C.POINTER(C.c_int)), C.c_double(self.h),
                                t.ctypes.data_as(C.POINTER(C.c_double)), a.ctypes.data_as(C.POINTER(C.c_float)), C.c_float(float(self.bg)))
        assert rc == 0


class Obj:
    def __init__(self, lib, path):
        self.lib = lib
        lib.c.ms_vdb_open.restype = C.c_void_p
        self.p = C.c_void_p(lib.c.ms_vdb_open(path.encode()))
        need(bool(self.p), "the level set could not be loaded")

    def query(self, X):
        d = self.lib.dim
        X = np.ascontiguousarray(X[:, :d])
        i, nn = np.zeros(len(X), np.int32), np.zeros((len(X), d))
        self.lib.c.ms_vdb_query(self.p, L._ptr(X), len(X), i.ctypes.data_as(C.POINTER(C.c_int)), L._ptr(nn))
        return i.astype(bool), nn

    def bounds(self):
        d = self.lib.dim
        a, b = np.zeros(d), np.zeros(d)
        self.lib.c.ms_vdb_bounds(self.p, L._ptr(a), L._ptr(b))
        return a, b

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.lib.c.ms_vdb_close(self.p)


def with_file(f):
    def g(c, env):
        tmp = tempfile.mkdtemp(dir=env.scratch)
        try:
            lib = env.lib(c["variant"])
            ls = LS(c["ls"], lib.dim)
            path = tmp + "/a.vdb"
            ls.write(lib, path)
            return f(c, env, lib, ls, path)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return g


def eps_of(ls):
    """Single-precision values and coordinates."""
    return 4e-6 * (ls.h + np.abs(ls.val).max()) + 1e-12 * (np.abs(ls.lo).max() + np.abs(ls.hi).max())


@st.composite
def queries(draw):
    v = draw(st.sampled_from(VARIANTS))
    return dict(variant=v, seed=draw(seeds), ls=draw(levelsets(int(v[0]))))


@with_file
def run_query(c, env, lib, ls, path):
    d = lib.dim
    r = rng(c)
    X = np.zeros((40, 3))
    X[:, :] = ls.lo + r.uniform(-0.15, 1.15, (40, 3)) * (ls.hi - ls.lo)
    if d == 2:
        X[:, 2] = 0
    # some at nodes, some close to the surface
    X[:6, :d] = (ls.lo + np.round((X[:6] - ls.lo) / ls.h) * ls.h)[:, :d]
    X[6:16, :d] += ((ls.mid - X[6:16]) * r.uniform(0, 1, (10, 1)))[:, :d]
    # some near the middle, where distances to different parts of the surface compete and the gradient is short
    X[28:34, :d] = (ls.mid + r.uniform(-1.2, 1.2, (6, 3)) * ls.h)[:, :d]
    eps = eps_of(ls)
    # some within a few times the resolution of single precision from the surface, on either side
    s = ls.sample(X)
    neg, pos = np.flatnonzero(s < -eps), np.flatnonzero(s > eps)
    if len(neg) and len(pos):
        A, B = X[r.choice(neg, 12)], X[r.choice(pos, 12)]
        u = eps * 10.0 ** r.uniform(0.3, 3, 12) * r.choice([-1, 1], 12)
        for _ in range(60):
            mid = 0.5 * (A + B)
            low = (ls.sample(mid) <= u)[:, None]
            A, B = np.where(low, mid, A), np.where(low, B, mid)
        X[16:28] = A
    with Obj(lib, path) as o:
        ins, nn = o.query(X)
        lo, hi = o.bounds()
    s = ls.sample(X)
    sure = np.abs(s) > eps
    bad = sure & (ins != (s <= 0))
    if bad.any():
        i = int(np.argmax(bad))
        raise Fail("inside(%s) is %s where the interpolated distance is %.9g" % (X[i, :d].tolist(), bool(ins[i]), s[i]))
    close("lower bound", lo, ls.lo[:d], 1e-9, atol=1e-9 * ls.h, scale=np.abs(ls.lo).max())
    close("upper bound", hi, ls.hi[:d], 1e-9, atol=1e-9 * ls.h, scale=np.abs(ls.hi).max())
    # normals: unit (or zero where the gradient vanishes)
    nm = np.linalg.norm(nn, axis=1)
    need(bool(((np.abs(nm - 1) < 1e-6) | (nm == 0)).all()), "a normal of length %r", float(nm[np.argmax(np.abs(nm - 1))]))
    inner = ((X > ls.lo + 2.01 * ls.h) & (X < ls.hi - 2.01 * ls.h))[:, :d].all(1)
    if d == 2 and not (ls.lo[2] + 2.01 * ls.h < 0 < ls.hi[2] - 2.01 * ls.h):
        inner[:] = False
    short = np.linalg.norm(ls.gradient(X)[:, :d], axis=1)
    lost = inner & (short > 0.05 + 10 * eps / ls.h) & (nm == 0)
    if lost.any():
        i = int(np.argmax(lost))
        raise Fail("the normal at %s is zero although the gradient of the level set there has length %.3g" % (X[i, :d].tolist(), short[i]))
    # analytic gradient, where the level set is smooth over the stencil
    e = 1e-6 * ls.h
    G = np.stack([(ls.phi(X + e * np.eye(3)[k]) - ls.phi(X - e * np.eye(3)[k])) / (2 * e) for k in range(3)], 1)[:, :d]
    k = c["ls"]["kind"]
    tol = np.full(len(X), np.inf)
    if k == "plane":
        tol[:] = 1e-3 if np.abs(ls.val).max() > 1e3 * ls.h else 2e-5 * (1 + np.abs(ls.val).max() / ls.h)
    else:
        cen = [ls.mid] if k == "ball" else [ls.mid + 0.3 * ls.R * ls.u, ls.mid - 0.6 * ls.R * ls.u]
        dist = np.stack([np.linalg.norm(X - q, axis=1) for q in cen], 1)
        if k == "box":
            q = np.abs(X - ls.mid) - ls.R * np.array([1, 0.8, 0.9])
            so = np.sort(q[:, :d], axis=1)
            face = (so[:, -1] - so[:, -2] > 3.5 * ls.h) & (so[:, -2] < -3.5 * ls.h) if d > 1 else None
            qz = q[:, 2] < -3.5 * ls.h if d == 2 else np.ones(len(X), bool)
            far = (np.abs(X - ls.mid)[:, :d] > 3.5 * ls.h)[np.arange(len(X)), np.argmax(q[:, :d], 1)]
            zok = (q[:, 2] < so[:, -1] - 3.5 * ls.h) if d == 2 else np.ones(len(X), bool)
            tol = np.where(face & qz & far & zok, 1e-4 * (1 + np.abs(ls.val).max() / ls.h), np.inf)
        else:
            near = dist.min(1)
            sep = np.abs(dist[:, 0] - dist[:, 1]) if len(cen) == 2 else np.full(len(X), np.inf)
            hr = ls.h / np.maximum(near, 1e-12)
            tol = np.where((hr < 0.25) & (sep > 4 * ls.h), 6 * hr ** 2 + 1e-4 * (1 + np.abs(ls.val).max() / ls.h), np.inf)
    use = inner & np.isfinite(tol) & (np.linalg.norm(G, axis=1) > 0.3)
    Gn = G / np.maximum(np.linalg.norm(G, axis=1, keepdims=True), 1e-12)
    err = np.linalg.norm(nn - Gn, axis=1)
    bad = use & ~(err <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        raise Fail("normal at %s is %s, the level set's gradient points along %s (tolerance %.2g)" % (X[i, :d].tolist(), nn[i].tolist(), Gn[i].tolist(), tol[i]))
    return dict(nontrivial=bool(sure.any() and (s[sure] <= 0).any() and (s[sure] > 0).any()), classes=["dim=%d" % d, "kind=" + k, "normals checked=%d" % min(int(use.sum()), 1)],
                obs=dict(inside=int(ins.sum()), normals=int(use.sum())))


@st.composite
def samples(draw):
    v = draw(st.sampled_from(VARIANTS))
    return dict(variant=v, seed=draw(seeds), ls=draw(levelsets(int(v[0]), nmax=14)), regular=draw(st.booleans()), ppc=draw(st.one_of(st.sampled_from([1.0, 4.0, 8.0]), fl(1, 12))),
                rho=draw(logfl(1, 1e4)), fine=draw(fl(0.6, 3.0)), again=draw(st.booleans()))


@with_file
def run_sample(c, env, lib, ls, path):
    d = lib.dim
    eps = eps_of(ls)
    sp = ls.h * c["fine"]
    X0 = None
    with Obj(lib, path) as o:
        for rep in range(2):
            with lib.sim() as s:
                s.set(rho=c["rho"], dx=sp * c["ppc"] ** (1 / d), Lx=0.123, Ly=0.234, Lz=0.345)
                if c["again"] and rep == 0:
                    lib.c.ms_vdb_sample(s.h, o.p, 1 - int(c["regular"]), C.c_double(1.5 * sp), C.c_double(2.0))
                    s.set(dx=sp * c["ppc"] ** (1 / d))
                lib.c.ms_vdb_sample(s.h, o.p, int(c["regular"]), C.c_double(sp), C.c_double(c["ppc"]))
                n = s.n = int(s.getp("Np"))
                for k in L.VEC + L.MAT + L.SCA:
                    need(s.count(k) == n, "array %s has %d entries for %d particles", k, s.count(k), n)
                st_ = s.state()
                pv, pm, dx = s.getp("particle_volume"), s.getp("particle_mass"), s.getp("dx")
                Lb = np.array([s.getp(k) for k in ("Lx", "Ly", "Lz")[:d]])
            if rep == 0:
                X0 = st_["x"]
            else:
                need(X0.shape == st_["x"].shape and bool((X0 == st_["x"]).all()), "the same request gave other particles")
    need(bool((st_["F"] == np.eye(d)).all()), "a particle starts deformed")
    for k in ("v", "Bmat", "tau") + L.SCA:
        need(bool((st_[k] == 0).all()), "%s of a new particle is not zero", k)
    X = np.zeros((n, 3))
    X[:, :d] = X0
    ext = (ls.hi - ls.lo)[:d]
    close("Lx, Ly, Lz", Lb, ext, 1e-9)
    if n:
        need(bool((ls.sample(X) <= eps).all()), "a sampled particle lies outside the level set, at distance %.9g", ls.sample(X).max())
        need(bool((X0 >= ls.lo[:d] - 1e-9 * ls.h).all() and (X0 <= ls.hi[:d] + 1e-9 * ls.h).all()), "a particle outside the bounds")
    close("particle mass", pm, c["rho"] * pv, 1e-12)
    close("cell volume", dx ** d, c["ppc"] * pv, 1e-9)
    if c["regular"]:
        close("particle volume", pv, sp ** d, 1e-9)
        near = np.abs(ext / sp - np.round(ext / sp))
        if (near < 1e-6).any():
            raise Skip("a whole number of spacings")
        m = np.floor(ext / sp).astype(int)
        P = np.zeros((int(np.prod(m)), 3))
        P[:, :d] = ls.lo[:d] + (np.stack(np.meshgrid(*[np.arange(k) for k in m], indexing="ij"), -1).reshape(-1, d) + 0.5) * sp
        v = ls.sample(P)
        lo_, hi_ = int((v <= -eps).sum()), int((v <= eps).sum())
        need(lo_ <= n <= hi_, "%d particles, the level set has %d lattice points inside", n, lo_)
        from scipy.spatial import cKDTree
        if n and lo_:
            need(cKDTree(X0).query(P[v <= -eps][:, :d])[0].max() <= 1e-6 * sp, "a lattice point inside the level set has no particle")
    else:
        nbox = np.prod(ext) / pv
        need(abs(nbox - round(nbox)) < 1e-6 * max(nbox, 1) and round(nbox) >= n, "particle volume %.9g is not the volume of the bounding box over a number of samples", pv)
        from scipy.spatial import cKDTree
        if n > 1:
            need(cKDTree(X0).query(X0, k=2)[0][:, 1].min() >= sp * (1 - 1e-9), "two particles closer than the radius")
        P = np.zeros((6 ** d, 3))
        P[:, :d] = (np.stack(np.meshgrid(*[np.linspace(a, b, 6) for a, b in zip(ls.lo[:d], ls.hi[:d])], indexing="ij"), -1).reshape(-1, d))
        deep = P[ls.sample(P) < -3.2 * sp][:, :d]
        if len(deep):
            need(n > 0 and cKDTree(X0).query(deep)[0].max() <= 3 * sp, "part of the level set holds no particles")
    return dict(nontrivial=n > 1, classes=["dim=%d" % d, "regular=%d" % c["regular"], "kind=" + c["ls"]["kind"]], obs=dict(n=n, volume=pv))


@st.composite
def contacts(draw):
    v = draw(st.sampled_from(VARIANTS))
    c = draw(world(variants=[v], max_n=12, musl=True, elastic=False, modes=(0, 2, 3)))
    c.update(ls=draw(levelsets(int(v[0]), kinds=("plane",))), bc=draw(st.sampled_from(BCS)), friction=draw(frictions), famp=0.0, ct=min(c["ct"], 0.01), cells=draw(fl(0.5, 1.5)), model=L.NOPL, elastic=0, shift=0.0)
    return c


@with_file
def run_contact(c, env, lib, ls, path):
    d = lib.dim
    c = dict(c)
    ext = (ls.hi - ls.lo)[:d].min()
    c["dx"] = ext / 16 * c["cells"]
    arr, par, g = world_arrays(c, d, lib.degree)
    # the cloud around the surface, well inside the level set
    x = arr["x"]
    span = max((x.max(0) - x.min(0)).max(), 1e-300)
    f = min(1.0, 0.2 * ext / span)
    arr["x"] = (x - x.mean(0)) * f + (0.4 * ls.a + 0.6 * ls.mid)[:d]
    res = []
    for vdb in (0, 1):
        with lib.sim() as s:
            s.particles(**arr)
            if vdb:
                assert lib.c.ms_vdb_add(s.h, path.encode(), c["bc"], C.c_double(c["friction"])) == 0
            else:
                s.object(L.HALFSPACE, c["bc"], c["friction"], list(ls.u[:d]) + list(ls.a[:d]))
            s.set(gravity=g, fps=1.0 / c["dt"], end_frame=1, **par)
            s.set(**ONE_STEP)
            s.simulate(60)
            res.append(s.state())
    a, b = res
    marg = []
    o = ref.grid_origin(arr["x"], par["dx"])
    r = ref.step(dict(arr), ref_par(par, lib.degree), c["dt"], o, [dict(kind=L.HALFSPACE, bc=c["bc"], friction=c["friction"], par=list(ls.u[:d]) + list(ls.a[:d]))], [], g, margin=marg)
    P = np.zeros((len(r["npos"]), 3))
    Wn = np.where(r["has"], r["W"], 1.0)
    P[:, :d] = r["npos"] + np.where(r["has"][:, None], c["dt"] * (r["vgrid_old"] - c["dt"] * par["particle_volume"] * r["f"] / (Wn * par["particle_mass"])[:, None] + c["dt"] * g), 0.0)
    if not (((P > ls.lo + 3 * ls.h) & (P < ls.hi - 3 * ls.h))[:, :d].all()) or (d == 2 and not (ls.lo[2] + 2.01 * ls.h < 0 < ls.hi[2] - 2.01 * ls.h)):
        raise Skip("grid leaves the level set")
    if min(marg, default=1) < 10 * eps_of(ls):
        raise Skip("node on the surface")
    sv = max(np.abs(r["gridv"]).max(), np.abs(r["vgrid_old"]).max(), np.abs(a["v"]).max(), np.abs(g).max() * c["dt"], 1e-9 * par["dx"] / c["dt"],
             c["dt"] * par["particle_volume"] * np.abs(arr["tau"]).max() / (par["particle_mass"] * par["dx"]))
    tol = 1e-4 * (1 + np.abs(ls.val).max() / ls.h)
    close("velocity after contact with the level set", b["v"], a["v"], tol, scale=sv)
    hit = (P @ np.append(ls.u, [])[:3] - ls.a @ ls.u) <= 0
    return dict(nontrivial=bool((hit & r["has"]).any()), classes=["dim=%d" % d, "bc=%d" % c["bc"]], obs=dict(v=b["v"][0].tolist()))


SUBS = [Sub("query", queries(), run_query, 2500, 40000), Sub("sample", samples(), run_sample, 2500, 40000), Sub("contact", contacts(), run_contact, 2000, 30000)]
