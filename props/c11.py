"""Suzuki-Chin fourth-order factorisation."""

from symx.base import harness
from props.common import *

PRELOAD = PRE
BOUNDS = "1-2 atoms, 2 or 4 beads, anisotropic coupled quadratic potentials of any strength (for which the finite differences of the code are exact), any path, masses, temperature, asymmetry parameter; contracted components are outside."


def quad_ff(cx, na, name):
    """any quadratic potential in the coordinates: V = g.q + q.K.q/2"""
    np = cx.np
    n = 3 * na
    k = cx.real(name + "k", 0.5, 2)
    g = np.zeros(n, float)
    g[0] = cx.real(name + "g", -1, 1)
    K = np.zeros((n, n), float)
    for i in range(n):
        K[i, i] = k * (1.0 + 0.25 * i) if name == "a" else k * (2.0 - 0.25 * i)
    K[0, n - 1] = K[n - 1, 0] = k * 0.25

    def fun(q, h):
        f = -(g + np.dot(K, q))
        u = (g * q).sum() + (q * np.dot(K, q)).sum() * 0.5
        w = np.zeros((3, 3), float)
        for i in range(na):
            for a in range(3):
                for b in range(a, 3):
                    # force conjugate to the strain q_a += eps_ab q_b
                    w[a, b] += f[3 * i + a] * q[3 * i + b]
        return u, f, w, {"raw": ""}

    ff = FF(cx, fun, name)
    ff.K, ff.g = K, g
    return ff


def path(cx, nb, na, name):
    np = cx.np
    x = [0.5] * (nb - 1) + [cx.real(name, -2, 2)]
    q = np.zeros((nb, 3 * na), float)
    for b in range(nb):
        for i in range(3 * na):
            q[b, i] = x[b] * (1.0 - 0.5 * i) + 0.25 * i
    return q


def sysm(cx, nb, alpha, eps, rpc, two=False, na=1, line=False):
    np = cx.np
    ffs = {"a": quad_ff(cx, na, "a")}
    FC = cx.mod("ipi.engine.forces").ForceComponent
    comps = [FC("a", weight=1.0, name="a", mts_weights=np.asarray([1.0]), epsilon=eps)]
    if two:
        ffs["b"] = quad_ff(cx, na, "b")
        comps.append(FC("b", nbeads=rpc or 0, weight=1.5, name="b", mts_weights=np.asarray([0.5]), epsilon=eps))
    beads = None
    if line:
        # any point on a given line
        beads = make_beads(cx, nb, na, q=path(cx, nb, na, "x"), p=np.zeros((nb, 3 * na), float), masses=np.asarray([1.25]))
    s = build(cx, nb, na, ffs=ffs, comps=comps, temp=cx.real("temp", 0.25, 1.0) if not line else 0.5, beads=beads)
    s.forces.alpha = alpha
    return s


CASES = [dict(nb=2, alpha=a, eps=e, rpc=None) for a in (0, 1, "sym") for e in (-0.001, 0.001)] + [dict(nb=4, alpha=0, eps=-0.001, rpc=None), dict(nb=2, alpha="sym", eps=-0.001, rpc=None, two=True), dict(nb=2, alpha=0, eps=0.001, rpc=None, two=True)]


def expected(cx, s, alpha):
    """V_sc - V_trotter: -1/3, +1/3 of the potential and alpha-weighted square forces"""
    D = cx.mod("ipi.utils.depend").dstrip
    np = cx.np
    C = cx.mod("ipi.utils.units").Constants
    nb = s.beads.nbeads
    q, m3 = D(s.beads.q), D(s.beads.m3)
    w2 = (C.kb * s.ensemble.temp * nb / C.hbar) ** 2
    f = D(s.forces.f)
    pots = D(s.forces.pots)
    v = np.zeros(nb, float)
    for b in range(nb):
        odd = b % 2 == 1
        c = (1.0 - alpha if odd else alpha) / w2 / 9.0
        v[b] = (1 if odd else -1) / 3.0 * pots[b] + c * (f[b] * f[b] / m3[b]).sum()
    return v


@harness(params=CASES, thorough=[dict(nb=4, alpha="sym", eps=-0.001, rpc=None), dict(nb=4, alpha=0, eps=0.001, rpc=None, two=True)], bounds="any quadratic potential", witnesses=1, limit=150)
def gradient(cx, nb, alpha, eps, rpc, two=False):
    """the fourth-order potential is the alternating combination of potential
    and square forces, its force is minus the gradient, its virial the
    corresponding strain derivative"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    al = cx.real("alpha", 0.25, 0.75) if alpha == "sym" else float(alpha)
    s = sysm(cx, nb, al, eps, rpc, two)
    P = D(s.forces.potssc).copy()
    cx.eq(P, expected(cx, s, al), "fourth-order potential of each replica", tol=1e-8)
    cx.eq(s.forces.potsc, P.sum(), "total fourth-order potential", tol=1e-8)
    F = D(s.forces.fsc).copy()
    cx.eq(F, D(s.forces.fsc_part_1) + D(s.forces.fsc_part_2), "parts add up")
    V = D(s.forces.virssc).copy()
    cx.eq(D(s.forces.virsc), V.sum(axis=0), "total fourth-order virial", tol=1e-8)
    q0 = D(s.beads.q).copy()

    def pot(x):
        s.beads.q = x.reshape(q0.shape)
        return s.forces.potsc

    G = cx.grad(pot, q0.reshape(-1))
    s.beads.q = q0
    cx.eq(F.reshape(-1), -G, "fourth-order force is minus the gradient", tol=1e-6)
    # strain derivative, from the gradient: d/d eps_ij of E(q_i + eps_ij q_j)
    W = np.zeros((3, 3), float)
    for b in range(nb):
        for a in range(s.beads.natoms):
            for i in range(3):
                for j in range(i, 3):
                    W[i, j] -= G[b * 3 * s.beads.natoms + 3 * a + i] * q0[b, 3 * a + j]
    # (a forward difference is not exact for the virial)
    if eps < 0:
        cx.eq(V.sum(axis=0), W, "fourth-order virial is minus the strain derivative", tol=1e-6)


@harness(params=[dict(first=a, alpha=x) for a in ("virsc", "potsc", "fsc", "none") for x in (0.0, 0.5)], bounds="2 beads; one change of positions, masses, temperature, asymmetry parameter or weight between reads", witnesses=1, limit=150)
def current(cx, first, alpha):
    """after a change of anything they depend on, all fourth-order quantities
    are those of a freshly set up system"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    s = sysm(cx, 2, alpha, -0.001, None, line=True)
    if first != "none":
        getattr(s.forces, first)
    ch = cx.choice("change", ["q", "m", "temp", "alpha", "w"])
    al = alpha
    if ch == "q":
        s.beads.q = path(cx, 2, 1, "x2")
        if cx.bool("twice"):
            getattr(s.forces, first) if first != "none" else None
            s.beads.q = path(cx, 2, 1, "x3")
    elif ch == "m":
        s.beads.m = cx.reals("m2", 1, 0.5, 2)
    elif ch == "temp":
        s.ensemble.temp = cx.real("t2", 0.25, 1)
    elif ch == "alpha":
        al = cx.real("al2", 0.25, 0.75)
        s.forces.alpha = al
    else:
        s.forces.mforces[0].weight = cx.real("w2", 0.5, 2)
    V1 = D(s.forces.virsc).copy()
    cx.eq(s.forces.potsc, expected(cx, s, al).sum(), "fourth-order potential after a change", tol=1e-8)
    # analytic force: F = c1 f + c2 * (-2 H f / m)
    C = cx.mod("ipi.utils.units").Constants
    f, m3 = D(s.forces.f), D(s.beads.m3)
    w2 = (C.kb * s.ensemble.temp * 2 / C.hbar) ** 2
    H = s.forces.mforces[0].weight * s.fflist["a"].K
    F, V = np.zeros((2, 3), float), np.zeros((3, 3), float)
    q = D(s.beads.q)
    for b in range(2):
        c = (1.0 - al if b else al) / w2 / 9.0
        F[b] = (1 if b else -1) / 3.0 * f[b] + 2 * c * np.dot(H, f[b] / m3[b])
        for i in range(3):
            for j in range(i, 3):
                V[i, j] += F[b, i] * q[b, j]
    cx.eq(D(s.forces.fsc), F, "fourth-order force after a change", tol=1e-6)
    cx.eq(V1, V, "fourth-order virial after a change", tol=1e-6)
