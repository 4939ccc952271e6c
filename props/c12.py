"""Simulation cell, periodic images and the small-matrix helpers they rest on."""

from symx.base import harness
from props.common import *

PRELOAD = ["ipi.engine.cell", "ipi.engine.atoms", "ipi.utils.mathtools", "ipi.utils.units"]
BOUNDS = "any cell matrix with positive diagonal and bounded shears, any positions; 1-3 particles."


def anyh(cx, kind):
    np = cx.np
    h = np.zeros((3, 3), float)
    for i in range(3):
        for j in range(3):
            if i == j:
                h[i, j] = cx.real("h%d%d" % (i, j), 1, 4)
            elif i < j or kind == "generic":
                h[i, j] = cx.real("h%d%d" % (i, j), -0.375, 0.375)
    return h


def cell(cx, kind, h):
    m = cx.mod("ipi.engine.cell")
    return m.Cell(h=h) if kind == "ut" else m.GenericCell(h=h)


@harness(params=[dict(kind=k, history=hh) for k in ("ut", "generic") for hh in (False, True)], bounds="any cell, before and after a change", witnesses=1)
def inverse_volume(cx, kind, history):
    """ih is the inverse and V the determinant of the current cell"""
    np = cx.np
    c = cell(cx, kind, np.identity(3) * 2.0)
    if history:
        c.V, c.ih
    h = anyh(cx, kind)
    c.h = h
    D = cx.mod("ipi.utils.depend").dstrip
    if history:
        c.ih
        c.h[0, 1] = 0.25
        c.h[2, 2] = h[2, 2] * 2
        h[0, 1] = 0.25
        h[2, 2] = h[2, 2] * 2
    cx.eq(np.dot(D(c.ih), h), np.identity(3), "inverse cell")
    cx.eq(np.dot(h, D(c.ih)), np.identity(3), "inverse cell (right)")
    det = h[0, 0] * (h[1, 1] * h[2, 2] - h[1, 2] * h[2, 1]) - h[0, 1] * (h[1, 0] * h[2, 2] - h[1, 2] * h[2, 0]) + h[0, 2] * (h[1, 0] * h[2, 1] - h[1, 1] * h[2, 0])
    cx.eq(c.V, det, "volume")


HS = [[[2.0, 0, 0], [0, 3.0, 0], [0, 0, 4.0]], [[2.0, 0.5, -0.75], [0, 3.0, 1.25], [0, 0, 1.5]]]


@harness(params=[dict(kind=k, n=n, ih=i) for k in ("ut", "generic") for n, i in [(1, 0), (2, 1), (3, 1)]], bounds="1-3 particles anywhere, orthorhombic and triclinic cells", witnesses=1)
def wrapping(cx, kind, n, ih):
    """wrapping moves each particle by a lattice vector into the central cell"""
    np = cx.np
    h = np.array(HS[ih])
    if kind == "generic":
        h[2, 0] = 0.25
        h[1, 0] = -0.5
    c = cell(cx, kind, h)
    D = cx.mod("ipi.utils.depend").dstrip
    x = cx.reals("x", 3 * n, -9, 9)
    y = x.copy()
    c.array_pbc(y)
    inv = D(c.ih)
    for k in range(n):
        shift = np.dot(inv, x[3 * k : 3 * k + 3] - y[3 * k : 3 * k + 3])
        cx.eq(shift, np.round(shift), "moved by lattice vectors", tol=1e-7)
        s = np.dot(inv, y[3 * k : 3 * k + 3])
        cx.check(cx.all([cx.all([v <= 0.5 + 1e-7, v >= -0.5 - 1e-7]) for v in s]), "inside the central cell")


@harness(params=[dict(kind=k, ih=i, what=w) for k in ("ut", "generic") for i in (0, 1) for w in ("apply_pbc", "minimum_distance")], bounds="particles anywhere", witnesses=1)
def single_images(cx, kind, ih, what):
    """the image of one particle, and the image of the separation of two, are in the
    central cell and differ by a lattice vector from the original"""
    np = cx.np
    h = np.array(HS[ih])
    c = cell(cx, kind, h)
    D = cx.mod("ipi.utils.depend").dstrip
    A = cx.mod("ipi.engine.atoms").Atoms
    a = A(2)
    a.q = cx.reals("x", 6, -5, 5)
    q = D(a.q).copy()
    if what == "apply_pbc":
        x = q[:3]
        y = c.apply_pbc(a[0])
    else:
        x = q[:3] - q[3:]
        y = c.minimum_distance(a[0], a[1])
    cx.eq(D(a.q), q, "positions untouched")
    inv = D(c.ih)
    shift = np.dot(inv, x - y)
    cx.eq(shift, np.round(shift), "differs by a lattice vector", tol=1e-7)
    s = np.dot(inv, y)
    cx.check(cx.all([cx.all([v <= 0.5 + 1e-7, v >= -0.5 - 1e-7]) for v in s]), "nearest image")


@harness(params=[dict(deg=d) for d in (False, True)], bounds="any cell", witnesses=1)
def lengths_angles(cx, deg):
    """lengths and angles describe the lattice vectors, and rebuild the cell"""
    np = cx.np
    M = cx.mod("ipi.utils.mathtools")
    h = anyh(cx, "ut")
    if deg:
        a, b, c, al, be, ga = M.h2abc_deg(h)
        al, be, ga = [x * (np.pi / 180) for x in (al, be, ga)]
    else:
        a, b, c, al, be, ga = M.h2abc(h)
    col = [h[:, i] for i in range(3)]
    cx.eq(a * a, np.dot(col[0], col[0]), "first length")
    cx.eq(b * b, np.dot(col[1], col[1]), "second length")
    cx.eq(c * c, np.dot(col[2], col[2]), "third length")
    if deg:
        a2, b2, c2, al2, be2, ga2 = M.h2abc(h)
        cx.eq([a, b, c, al, be, ga], [a2, b2, c2, al2, be2, ga2], "degrees and radians agree")
        return
    cx.eq(np.cos(ga) * a * b, np.dot(col[0], col[1]), "angle between first and second")
    cx.eq(np.cos(be) * a * c, np.dot(col[0], col[2]), "angle between first and third")
    cx.eq(np.cos(al) * b * c, np.dot(col[1], col[2]), "angle between second and third")


@harness(bounds="any orthorhombic-to-monoclinic cell (two planes of shear)", witnesses=1, params=[dict(w=w) for w in ("xy", "xz", "yz", "all")])
def rebuild(cx, w):
    np = cx.np
    M = cx.mod("ipi.utils.mathtools")
    h = np.identity(3) * 1.0
    for i in range(3):
        h[i, i] = cx.real("h%d" % i, 1, 4)
    for k, (i, j) in {"xy": (0, 1), "xz": (0, 2), "yz": (1, 2)}.items():
        if w in (k, "all"):
            h[i, j] = cx.real("s%d%d" % (i, j), -0.375, 0.375)
    a, b, c, al, be, ga = M.h2abc(h)
    g = M.abc2h(a, b, c, al, be, ga)
    for i in range(3):
        for j in range(3):
            if i == j:
                cx.eq(g[i, j] ** 2, h[i, j] ** 2, "diagonal rebuilt", tol=1e-6)
                cx.check(g[i, j] > 0, "positive diagonal")
            else:
                cx.eq(g[i, j], h[i, j], "off-diagonal rebuilt", tol=1e-6)


@harness(params=[dict()], bounds="any lattice vectors in rows", witnesses=1)
def row_cell(cx):
    np = cx.np
    M = cx.mod("ipi.utils.mathtools")
    h = anyh(cx, "generic")
    a, b, c, al, be, ga = M.genh2abc(h)
    cx.eq(a * a, np.dot(h[0], h[0]), "first length")
    cx.eq(b * b, np.dot(h[1], h[1]), "second length")
    cx.eq(c * c, np.dot(h[2], h[2]), "third length")
    cx.eq(np.cos(ga) * a * b, np.dot(h[0], h[1]), "angle between first and second")
    cx.eq(np.cos(be) * a * c, np.dot(h[0], h[2]), "angle between first and third")
    cx.eq(np.cos(al) * b * c, np.dot(h[1], h[2]), "angle between second and third")


@harness(params=[dict(sa=x, sb=y) for x in (1.0, -1.0) for y in (1.0, -1.0)], bounds="any two signed magnitudes", witnesses=1)
def log_sum(cx, sa, sb):
    """sums of signed numbers kept as logarithms"""
    np = cx.np
    M = cx.mod("ipi.utils.mathtools")
    A, B = cx.real("A", 0.125, 8), cx.real("B", 0.125, 8)
    if sa != sb:
        cx.assume(cx.any([A > B * 1.125, B > A * 1.125]))
    l, s = M.logsumlog((np.log(A), sa), (np.log(B), sb))
    tot = sa * A + sb * B
    cx.eq(np.exp(l) * s, tot, "sum of logarithms")


@harness(params=[dict(n=n) for n in (1, 2, 3)], bounds="any symmetric positive matrix", witnesses=1)
def cholesky(cx, n):
    np = cx.np
    M = cx.mod("ipi.utils.mathtools")
    L = np.zeros((n, n), float)
    for i in range(n):
        for j in range(i):
            L[i, j] = cx.real("l%d%d" % (i, j), -1, 1)
        L[i, i] = cx.real("l%d" % i, 0.5, 2)
    A = np.dot(L, L.T)
    S = M.stab_cholesky(A)
    cx.eq(np.dot(S, S.T), A, "factors multiply back")
    for i in range(n):
        for j in range(i + 1, n):
            cx.eq(S[i, j], 0.0, "lower triangular")


@harness(params=[dict()], bounds="any unit quaternion and angles", witnesses=1)
def rotations(cx):
    np = cx.np
    M = cx.mod("ipi.utils.mathtools")
    q = cx.reals("q", 4, 0.25, 1)
    q = q / np.sqrt((q * q).sum())
    R = M.quat2rot(q)
    cx.eq(np.dot(R, R.T), np.identity(3), "orthogonal")
    det = np.dot(R[0], np.cross(R[1], R[2]))
    cx.eq(det, 1.0, "proper")
    t = cx.reals("t", 3, 0.125, 3)
    E = M.euler_zxz_to_matrix(t[0], t[1], t[2])
    cx.eq(np.dot(E, E.T), np.identity(3), "orthogonal Euler rotation")
    rng = cx.prng()
    for i in range(2):
        g = M.random_rotation(rng, improper=bool(i))
        cx.eq(np.dot(g, g.T), np.identity(3), "random rotation is orthogonal", tol=1e-6)


@harness(params=[dict(L=L) for L in (2, 3)], bounds="rotation quadratures: any vector and any symmetric matrix", witnesses=1)
def quadrature(cx, L):
    """a rotation quadrature averages vectors to zero and symmetric matrices to
    their isotropic part"""
    np = cx.np
    M = cx.mod("ipi.utils.mathtools")
    v = cx.reals("v", 3)
    A = cx.reals("A", (3, 3))
    A = A + A.T
    quads = M.get_rotation_quadrature_legendre(L)
    W = sum(w for _, w, _ in quads)
    av = sum(np.dot(R, v) * w for R, w, _ in quads) / W
    cx.eq(av, np.zeros(3, float), "vectors average to zero", tol=1e-7)
    if L > 2:
        aA = sum(np.dot(np.dot(R, A), R.T) * w for R, w, _ in quads) / W
        cx.eq(aA, np.identity(3) * ((A[0, 0] + A[1, 1] + A[2, 2]) / 3.0), "matrices average to isotropic", tol=1e-7)
