"""Interpolation kernels."""
import ctypes as C
from fractions import Fraction as Q
from ..core import *

ID = "C20"
VARIANTS = ["2q", "2c", "3q", "3c"]
PARTS = ("core", "geom", "io", "kernel")
RULE = ("a case is a real argument u (uniform, near and exactly at knots, huge, tiny, denormal) with a degree; values are compared with exact rational "
        "evaluation of the B-spline and the lattice identities are evaluated at u; non-trivial when u lies in the support")


def kern(lib, u):
    o, i = np.zeros(3), np.array([u])
    P = lambda a, k=0: C.cast(a.ctypes.data + 8 * k, C.POINTER(C.c_double))
    lib.c.ms_kernel(1, P(i), P(o), P(o, 1), P(o, 2))
    return o


@st.composite
def cases(draw):
    knot = draw(st.sampled_from([0.0, 0.5, 1.0, 1.5, 2.0]))
    u = draw(st.one_of(fl(-2.5, 2.5), st.sampled_from([-16, -12, -9, -6, -4, -3, -2]).flatmap(lambda e: fl(-1, 1).map(lambda t: knot + t * 10.0 ** e)),
                       st.just(knot), st.sampled_from([float(np.nextafter(knot, 9)), float(np.nextafter(knot, -9))]), fl(-1e6, 1e6), fl(-1e-300, 1e-300)))
    return dict(variant=draw(st.sampled_from(VARIANTS)), u=u * draw(st.sampled_from([1, -1])))


def exact(u, deg):
    """B-spline of degree deg at the exact rational u: value, one-sided derivatives (left, right), second derivatives (left, right)."""
    a = abs(Q(u))
    if deg == 2:
        pieces = [(Q(0), Q(1, 2), (Q(3, 4), 0, -1, 0)), (Q(1, 2), Q(3, 2), (Q(9, 8), Q(-3, 2), Q(1, 2), 0)), (Q(3, 2), None, (0, 0, 0, 0))]
    else:
        pieces = [(Q(0), Q(1), (Q(2, 3), 0, -1, Q(1, 2))), (Q(1), Q(2), (Q(4, 3), -2, 1, Q(-1, 6))), (Q(2), None, (0, 0, 0, 0))]
    out = []
    for lo, hi, c in pieces:
        if a >= lo and (hi is None or a <= hi):
            c = [Q(t) for t in c]
            sg = 1 if u >= 0 else -1
            out.append((c[0] + c[1] * a + c[2] * a * a + c[3] * a ** 3, sg * (c[1] + 2 * c[2] * a + 3 * c[3] * a * a), 2 * c[2] + 6 * c[3] * a))
    return out


def run(c, env):
    lib = env.lib(c["variant"])
    deg, u = lib.degree, c["u"]
    o = kern(lib, u)
    sup = 1.5 if deg == 2 else 2.0
    ex = exact(u, deg)
    need(o[0] >= 0, "kernel negative at %r: %r", u, o[0])
    need(min(abs(o[0] - float(e[0])) for e in ex) <= 4e-15, "kernel value at %r is %r, exact %r", u, o[0], float(ex[0][0]))
    need(min(abs(o[1] - float(e[1])) for e in ex) <= 1e-14, "kernel derivative at %r is %r, exact %r", u, o[1], float(ex[0][1]))
    need(min(abs(o[2] - float(e[2])) for e in ex) <= 1e-14, "second derivative at %r is %r, exact %r", u, o[2], float(ex[0][2]))
    m = kern(lib, -u)
    need(o[0] == m[0] and o[1] == -m[1] and o[2] == m[2], "kernel not even at %r: %r / %r", u, o.tolist(), m.tolist())
    if abs(u) >= sup:
        need(o[0] == 0 and o[1] == 0, "kernel not zero outside its support at %r", u)
    # lattice identities at offset u
    f = u - math.floor(u) if abs(u) < 1e6 else 0.25
    pts = np.array([f + k for k in range(-4, 5)])
    K = np.array([kern(lib, p) for p in pts])
    need(abs(K[:, 0].sum() - 1) < 1e-14, "weights sum to %r at offset %r", K[:, 0].sum(), f)
    need(abs((K[:, 0] * pts).sum()) < 1e-14, "first moment %r at offset %r", (K[:, 0] * pts).sum(), f)
    need(abs((K[:, 0] * pts * pts).sum() - (0.25 if deg == 2 else 1 / 3)) < 1e-14, "second moment %r at offset %r", (K[:, 0] * pts * pts).sum(), f)
    need(abs(K[:, 1].sum()) < 1e-14, "derivatives sum to %r at offset %r", K[:, 1].sum(), f)
    need(abs((K[:, 1] * pts).sum() + 1) < 1e-14, "derivatives do not reproduce a linear function at offset %r", f)
    return dict(nontrivial=abs(u) < sup, classes=["variant=" + c["variant"], "inside=%d" % (abs(u) < sup)], obs=o.tolist())


SUBS = [Sub("kernel", cases(), run, 40000, 800000)]
