"""Phonons by finite differences."""

from symx.base import harness, Stub
from props.common import *

PRELOAD = PRE + ["ipi.engine.motion.phonons", "ipi.utils.phonontools", "ipi.utils.hesstools"]
BOUNDS = "1-3 atoms; arbitrary forces (finite differences in Cartesian coordinates) or any harmonic force field (along normal modes), any displacement and shift; sum rules for fixed geometries and any dynamical matrix."
M = [1.0, 4.0, 2.25]
GEO = {
    "bent": [0.0, 0.0, 0.0, 1.0, 0.25, 0.0, -0.5, 1.0, 0.75],
    "planar": [0.0, 0.0, 0.0, 1.5, 0.0, 0.0, 0.5, 1.0, 0.0],
    "far": [5.0, -3.0, 2.0, 6.0, -3.25, 2.0, 5.5, -2.0, 3.0],
    "triangle": [1.5, 0.25, -0.5, -0.5, 1.5, 0.25, 0.25, -0.5, 1.5],
}
MASS = {"triangle": [2.0, 2.0, 2.0]}


class Sink:
    def __init__(self):
        self.text = []

    def write(self, x):
        self.text.append(x)

    def flush(self):
        pass

    force_flush = flush
    close = flush
    close_stream = flush


class Maker:
    def __init__(self):
        self.files = {}

    def get_output(self, filename="out", mode=None):
        self.files[filename] = Sink()
        return self.files[filename]

    def rows(self, cx, name):
        """numbers in a file, row by row"""
        t = "".join(self.files[name].text).splitlines()
        return [list(cx.np.fromstring(l, float, sep=" ")) for l in t if l.strip() and not l.startswith("#")]


def vals(cx, x):
    return cx.mod("ipi.utils.depend").dstrip(x)


def mover(cx, na, ff, q=None, nb=1, masses=None, **kw):
    np = cx.np
    P = cx.mod("ipi.engine.motion.phonons")
    kw.setdefault("fixatoms_dof", np.zeros(0, int))
    mot = P.DynMatrixMover(**kw)
    q = q if q is not None else np.asarray([0.5 * i - 0.125 * i * i for i in range(3 * na)], float)
    beads = make_beads(cx, nb, na, masses=np.asarray(masses or M[:na]), q=np.asarray([list(q)] * nb), p=np.zeros((nb, 3 * na)), names=["H"] * na)
    s = build(cx, nb, na, ffs={"ff": ff}, temp=1.0, motion=mot, beads=beads)
    s.q = q
    mot.output_maker = s.out = Maker()
    return s


def run(cx, s, na, shift=0.0):
    """all of the steps; the diagonalization is replaced by one that records its argument"""
    np = cx.np
    n = 3 * na
    seen = []

    def eigh(a, *r, **k):
        a = np.asarray(a)
        seen.append(a)
        m = len(a)
        return np.asarray([0.25 * i - 0.5 for i in range(m)], float), np.eye(m)[::-1].copy()

    for k in range(n):
        s.motion.step(k)
        cx.check(not s.motion.finished, "not finished before all rows are known")
    old = np.linalg.eigh
    np.linalg.eigh = eigh
    try:
        s.motion.step(n)
    finally:
        np.linalg.eigh = old
    cx.check(bool(s.motion.finished), "finished when all rows are known")
    cx.eq(vals(cx, s.beads.q)[0], s.q, "the system has not moved")
    return seen


def matrix(cx, rows, want, label, tol=1e-8):
    cx.check(len(rows) == len(want) and all(len(r) == len(w) for r, w in zip(rows, want)), label + ": size")
    for i, (r, w) in enumerate(zip(rows, want)):
        for j, (x, y) in enumerate(zip(r, w)):
            cx.eq(x, y, label + " %d,%d" % (i, j), tol=tol)


@harness(params=[dict(na=1, fix=None), dict(na=2, fix=None), dict(na=2, fix=[0, 1, 2]), dict(na=2, fix=[4]), dict(na=2, fix=[1, 3, 5])], tokens=True, witnesses=1, limit=120)
def differences(cx, na, fix):
    """the dynamical matrix and the Hessian that are written are the symmetrized central differences of the forces"""
    np = cx.np
    ff = uf_ff(cx, na, "ff", vir=False)
    dx = cx.real("dx", 0.01, 0.25)
    dw = cx.real("shift", -0.5, 0.5) if fix is None else 0.0
    kw = {} if fix is None else dict(fixatoms_dof=np.asarray(fix))
    s = mover(cx, na, ff, pos_shift=dx, output_shift=dw, mode="fd", **kw)
    n = 3 * na
    seen = run(cx, s, na)
    h = vals(cx, s.cell.h)
    act = [i for i in range(n) if i not in (fix or [])]

    def force(i, d):
        q = s.q.copy()
        q[i] = q[i] + d
        return ff.fun(q, h)[1]

    f = {i: (force(i, dx), force(i, -dx)) for i in act}
    hes = [[(0.5 * ((f[i][1][j] - f[i][0][j]) + (f[j][1][i] - f[j][0][i])) / (2.0 * dx)) for j in act] for i in act]
    r = [M[i // 3] ** 0.5 for i in range(n)]
    dyn = [[hes[a][b] / (r[i] * r[j]) + (dw if i == j else 0.0) for b, j in enumerate(act)] for a, i in enumerate(act)]
    matrix(cx, s.out.rows(cx, "phonons.dynmat"), dyn, "dynamical matrix")
    matrix(cx, s.out.rows(cx, "phonons.hess"), [[dyn[a][b] * (r[i] * r[j]) for b, j in enumerate(act)] for a, i in enumerate(act)], "Hessian")
    full = s.out.rows(cx, "phonons_full.hess")
    cx.check(len(full) == n and all(len(x) == n for x in full), "full Hessian: size")
    for a, i in enumerate(act):
        for b, j in enumerate(act):
            cx.eq(full[i][j], dyn[a][b] * (r[i] * r[j]), "full Hessian %d,%d" % (i, j))
    cx.check(len(seen) >= 1, "the dynamical matrix is diagonalized")
    matrix(cx, [list(x) for x in seen[0]], dyn, "diagonalized matrix")
    m = len(act)
    ev = [x[0] for x in s.out.rows(cx, "phonons.eigval")]
    cx.eq(np.asarray(ev), np.asarray([0.25 * i - 0.5 for i in range(m)]), "eigenvalues")
    vec = np.eye(m)[::-1]
    matrix(cx, s.out.rows(cx, "phonons.eigvec"), [list(x) for x in vec], "eigenvectors")


@harness(params=[dict(mode=k, na=na, given=g) for k in ("nmfd", "enmfd") for na, g in ((1, "diag"), (1, "full"), (2, "full"))], tokens=True, witnesses=1, limit=120)
def normal_modes(cx, mode, na, given):
    """differences along the normal modes of an approximate matrix give the true matrix of a harmonic force field, whatever the approximation"""
    np = cx.np
    n = 3 * na
    K = np.zeros((n, n), float)
    for i in range(n):
        K[i, i] = 2.0 + 0.25 * i
    for k, (i, j) in enumerate([(0, 1), (1, 2), (0, n - 1)]):
        x = cx.real("k%d" % k, -0.5, 0.5)
        K[i, j] = x
        K[j, i] = x

    def fun(q, h):
        f = [0.0] * n
        for i in range(n):
            for j in range(n):
                f[i] = f[i] - K[i, j] * q[j]
        return 0.0, np.asarray(f), np.zeros((3, 3), float), {"raw": ""}

    A = np.zeros((n, n), float)
    for i in range(n):
        for j in range(n):
            A[i, j] = (1.0 + 0.5 * i) if i == j else (0.125 / (1 + i + j) if given == "full" else 0.0)
    dx = cx.real("dx", 0.01, 0.25)
    s = mover(cx, na, FF(cx, fun, "ff"), q=np.zeros(n, float), mode=mode, pos_shift=dx, energy_shift=0.25, dynmat=A)
    run(cx, s, na)
    r = [M[i // 3] ** 0.5 for i in range(n)]
    matrix(cx, s.out.rows(cx, "phonons.dynmat"), [[K[i, j] / (r[i] * r[j]) for j in range(n)] for i in range(n)], "refined dynamical matrix", tol=1e-6)


def projector(cx, geo, kind):
    """onto what is neither a translation nor (poly) a rotation, in mass-scaled coordinates"""
    import numpy

    q = numpy.asarray(GEO[geo], float).reshape(-1, 3)
    m = numpy.asarray(MASS.get(geo, M)[: len(q)], float)
    q = q - (m[:, None] * q).sum(0) / m.sum()
    V = []
    for a in range(3):
        V.append((numpy.sqrt(m)[:, None] * numpy.eye(3)[a]).reshape(-1))
    if kind == "poly":
        for a in range(3):
            V.append((numpy.sqrt(m)[:, None] * numpy.cross(numpy.eye(3)[a], q)).reshape(-1))
    Q = numpy.linalg.svd(numpy.asarray(V).T, full_matrices=False)[0]
    return numpy.eye(3 * len(q)) - Q @ Q.T


class Done(Exception):
    pass


def projected(cx, D, s, m, kind):
    """the matrix that clean_hessian diagonalizes"""
    np = cx.np
    n = len(D)
    H = np.zeros((n, n), float)
    for i in range(n):
        for j in range(n):
            H[i, j] = D[i, j] * (m[i // 3] * m[j // 3]) ** 0.5
    seen = []
    old = np.linalg.eigh

    def eigh(a, *r, **k):
        if len(a) < n:
            return old(a, *r, **k)
        seen.append(np.asarray(a))
        raise Done

    np.linalg.eigh = eigh
    try:
        cx.mod("ipi.utils.hesstools").clean_hessian(H, np.asarray(s.q), n // 3, 1, np.asarray(m), np.asarray([x for x in m for k in range(3)]), kind)
    except Done:
        pass
    finally:
        np.linalg.eigh = old
    cx.check(len(seen) == 1, "the projected Hessian is diagonalized")
    return seen[0]


@harness(params=[dict(geo=g, kind=k, where=w) for g in GEO for k in ("crystal", "poly", "none") for w in ("mover", "tools", "hess")], limit=120)
def sum_rules(cx, geo, kind, where):
    """translations, and for molecules rotations, are projected out and nothing else is changed"""
    np = cx.np
    na = 3
    n = 9
    D = np.zeros((n, n), float)
    for i in range(n):
        for j in range(i, n):
            x = cx.real("d%d_%d" % (i, j), -1, 1) if (i + 2 * j) % 3 == 0 else 0.125 * ((i * j) % 5 - 2)
            D[i, j] = x
            D[j, i] = x
    m = MASS.get(geo, M)
    s = mover(cx, na, uf_ff(cx, na, "ff", vir=False), q=np.asarray(GEO[geo]), masses=m, mode="fd", asr=kind)
    if where == "mover":
        got = s.motion.apply_asr(D.copy())
    elif where == "tools":
        got = cx.mod("ipi.utils.phonontools").apply_asr(kind, D.copy(), s.beads)
    else:
        got = projected(cx, D, s, m, kind)
    if kind == "none":
        cx.eq(got, D, "left alone")
        return
    P = projector(cx, geo, kind)
    want = [[0.0] * n for i in range(n)]
    half = [[0.0] * n for i in range(n)]
    for i in range(n):
        for j in range(n):
            for k in range(n):
                half[i][j] = half[i][j] + D[i, k] * float(P[k, j])
    for i in range(n):
        for j in range(n):
            for k in range(n):
                want[i][j] = want[i][j] + float(P[i, k]) * half[k][j]
    cx.eq(np.asarray(got), np.asarray(want), "projected matrix", tol=1e-7)


@harness(params=[dict(what=w) for w in ("beads", "size", "nmfd", "fixed")])
def refused(cx, what):
    """what cannot be computed is refused at the start"""
    np = cx.np
    kw = {"beads": dict(nb=2), "size": dict(dynmat=np.zeros(5)), "nmfd": dict(mode="nmfd"), "fixed": dict(mode="enmfd", dynmat=np.eye(6), fixatoms_dof=np.asarray([0]))}[what]
    try:
        mover(cx, 2, uf_ff(cx, 2, "ff", vir=False), **kw)
        ok = True
    except ValueError:
        ok = False
    cx.check(not ok, "refused")


@harness(params=[dict(known=k) for k in range(0, 7)])
def continued(cx, known):
    """rows that are known already are kept, each step computes its own row"""
    np = cx.np
    na, n = 2, 6
    ff = uf_ff(cx, na, "ff", vir=False)
    a = mover(cx, na, ff, mode="fd", pos_shift=0.125)
    for k in range(n):
        before = a.motion.dynmatrix.copy()
        a.motion.step(k)
        for i in range(n):
            if i != k:
                cx.eq(a.motion.dynmatrix[i], before[i], "other rows are kept")
        if k + 1 == known:
            part = a.motion.dynmatrix.copy().reshape(-1), a.motion.refdynmatrix.copy().reshape(-1)
    b = mover(cx, na, ff, mode="fd", pos_shift=0.125, **({} if known == 0 else dict(dynmat=part[0], refdynmat=part[1])))
    for k in range(known, n):
        b.motion.step(k)
    cx.eq(b.motion.dynmatrix, a.motion.dynmatrix, "continued calculation")
