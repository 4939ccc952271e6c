"""Free ring-polymer evolution."""

from symx.base import harness
from props.common import *

PRELOAD = PRE
BOUNDS = "1-2 atoms, 2-5 beads; any phase-space point, masses, temperature, time step (free evolution only)."


def sysm(cx, nb, prop, mode, open_paths, na=1):
    fr = None
    if mode == "pa-cmd":
        fr = [cx.real("w0", 0.5, 2)]
    elif mode == "manual":
        fr = list(cx.reals("w", nb - 1, 0.5, 2))
    elif mode == "wmax-cmd":
        fr = list(cx.reals("w", 2, 0.5, 2))
    dt = cx.real("dt", 0.125, 0.5)
    mot = cx.mod("ipi.engine.motion").Dynamics(timestep=dt, mode="nve", fixatoms_dof=cx.np.zeros(0, int))
    s = build(cx, nb, na, motion=mot, temp=cx.real("temp", 0.25, 1.0), nm_kw=dict(open_paths=open_paths, mode=mode, freqs=fr, propagator=prop))
    s.dt = dt
    s.step = mot.integrator  # full construction, as in a run
    s.qdt = s.nm.dt
    return s


CASES = [(b, p, m, o) for b in (2, 3, 4) for p in ("exact", "cayley") for m in ("rpmd", "pa-cmd") for o in (([], [0]) if b != 3 else ([], [1]))] + [(3, "exact", "manual", []), (3, "exact", "wmax-cmd", [0]), (3, "cayley", "wmax-cmd", [])]


@harness(params=[dict(nb=b, prop=p, mode=m, open_paths=o) for b, p, m, o in CASES], thorough=[dict(nb=5, prop=p, mode="rpmd", open_paths=[]) for p in ("exact", "cayley")], bounds="one free step and its reverse", witnesses=1, limit=100)
def free_step(cx, nb, prop, mode, open_paths):
    s = sysm(cx, nb, prop, mode, open_paths, na=2)
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    q0, p0 = D(s.nm.qnm).copy(), D(s.nm.pnm).copy()
    zq, zp = cx.reals("zq", q0.shape), cx.reals("zp", p0.shape)
    s.nm.qnm, s.nm.pnm = zq, zp
    e0 = s.nm.kin + s.nm.vspring
    s.nm.free_qstep()
    q1, p1 = D(s.nm.qnm).copy(), D(s.nm.pnm).copy()
    cx.eq(q1[0], zq[0], "centroid untouched by the internal evolution")
    cx.eq(p1[0], zp[0], "centroid momentum untouched by the internal evolution")
    cx.eq(s.nm.kin + s.nm.vspring, e0, "free evolution conserves the energy of the path", tol=1e-7)
    # time reversal
    s.nm.pnm = -p1
    s.nm.free_qstep()
    cx.eq(D(s.nm.qnm), zq, "reversing the momenta retraces the positions", tol=1e-7)
    cx.eq(D(s.nm.pnm), -zp, "reversing the momenta retraces the momenta", tol=1e-7)


@harness(params=[dict(nb=b, prop=p, mode=m, open_paths=o) for b, p, m, o in CASES], bounds="one free step as a linear map of each mode", witnesses=1, limit=100)
def free_map(cx, nb, prop, mode, open_paths):
    """each mode is rotated by the flow of its own Hamiltonian (exactly, or by
    the Cayley form of it), and the map is symplectic"""
    s = sysm(cx, nb, prop, mode, open_paths, na=2)
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    T = cx.mod("ipi.utils.nmtransform")
    h = s.nm.dt
    shape = (nb, 6)

    def run(k, c, a, b):
        q, p = np.zeros(shape, float), np.zeros(shape, float)
        q[k, c], p[k, c] = a, b
        s.nm.qnm, s.nm.pnm = q, p
        s.nm.free_qstep()
        q1, p1 = D(s.nm.qnm), D(s.nm.pnm)
        for j in range(nb):
            if j != k:
                cx.eq(q1[j], 0.0, "modes do not mix")
                cx.eq(p1[j], 0.0, "modes do not mix")
        for d in range(6):
            if d != c:
                cx.eq(q1[k, d], 0.0, "directions do not mix")
        return q1[k, c] + 0.0, p1[k, c] + 0.0

    for i, c in ((0, 1), (1, 3), (1, 5)):
        lam = T.o_nm_eva(nb) if i in open_paths else T.nm_eva(nb)
        m = D(s.beads.m)[i]
        M = D(s.nm.dynm3)[:, c]
        modes(cx, np, s, nb, prop, lam, m, M, h, lambda k, a, b: run(k, c, a, b))


def modes(cx, np, s, nb, prop, lam, m, M, h, run):
    for k in range(1, nb):
        K = m * (s.nm.omegan * lam[k]) ** 2
        qq, pq = run(k, 1.0, 0.0)
        qp, pp = run(k, 0.0, 1.0)
        cx.eq(qq * pp - qp * pq, 1.0, "phase-space volume preserved")
        if prop == "cayley":
            # (1 - hA/2) U = (1 + hA/2),   A = d/dt (q, p)
            cx.eq(qq - 0.5 * h * pq / M[k], 1.0, "Cayley form of the mode propagator")
            cx.eq(qp - 0.5 * h * pp / M[k], 0.5 * h / M[k], "Cayley form of the mode propagator")
            cx.eq(pq + 0.5 * h * K * qq, -0.5 * h * K, "Cayley form of the mode propagator")
            cx.eq(pp + 0.5 * h * K * qp, 1.0, "Cayley form of the mode propagator")
        else:
            w = s.nm.omegan * lam[k] / np.sqrt(M[k] / m)
            cx.eq(qq, np.cos(w * h), "exact evolution of the mode")
            cx.eq(pp, np.cos(w * h), "exact evolution of the mode")
            cx.eq(qp * M[k] * w, np.sin(w * h), "exact evolution of the mode")
            cx.eq(pq, -np.sin(w * h) * M[k] * w, "exact evolution of the mode")


@harness(params=[dict(nb=b, nmts=n) for b in (2, 3) for n in (1, 2)], bounds="one Cartesian free step, 1-2 substeps", witnesses=1, limit=100)
def cartesian_step(cx, nb, nmts):
    """the Cartesian free propagator, together with the centroid drift, is a
    reversible velocity-Verlet evolution under the springs"""
    s = sysm(cx, nb, "bab", "rpmd", [])
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    s.nm.nmts = nmts
    q0, p0 = D(s.beads.q).copy(), D(s.beads.p).copy()
    m3 = D(s.beads.m3)
    w2 = s.nm.omegan2
    h = s.nm.dt / nmts

    def fs(q):
        f = np.zeros(q.shape, float)
        for b in range(nb):
            c = (b + 1) % nb
            d = q[c] - q[b]
            f[c] -= m3[0] * w2 * d
            f[b] += m3[0] * w2 * d
        return f

    q, p = q0.copy(), p0.copy()
    for i in range(nmts):
        p = p + 0.5 * h * fs(q)
        q = q + h * p / m3
        p = p + 0.5 * h * fs(q)
    # the centroid drift is applied separately by the integrator
    s.nm.qnm[0, :] += D(s.nm.pnm)[0] / m3[0] * s.nm.dt
    s.nm.free_qstep()
    cx.eq(D(s.beads.q), q, "positions after the Cartesian free step")
    cx.eq(D(s.beads.p), p, "momenta after the Cartesian free step")


@harness(params=[dict(prop=p, mode=m, open_paths=o) for p in ("exact", "cayley") for m in ("rpmd", "pa-cmd") for o in ([], [1])], bounds="step, change of temperature, masses or time step, step", witnesses=1, limit=100)
def follows_changes(cx, prop, mode, open_paths):
    """the propagator uses the current temperature, masses and time step"""
    nb = 2
    s = sysm(cx, nb, prop, mode, open_paths, na=2)
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    s.nm.free_qstep()
    which = cx.choice("which", ["temp", "mass", "dt", "freq"])
    if which == "temp":
        s.ensemble.temp = cx.real("t2", 0.25, 1.0)
    elif which == "mass":
        s.beads.m = cx.reals("m2", 2, 0.5, 2)
    elif which == "dt":
        s.motion.dt = cx.real("dt2", 0.125, 0.5)
    elif mode == "pa-cmd":
        s.nm.nm_freqs = np.asarray([cx.real("w2", 0.5, 2)])
    T = cx.mod("ipi.utils.nmtransform")
    C = cx.mod("ipi.utils.units").Constants
    m3 = D(s.beads.m3)[0]
    lam = np.zeros(6, float)
    for i in range(2):
        lam[3 * i : 3 * i + 3] = (T.o_nm_eva(nb) if i in open_paths else T.nm_eva(nb))[1]
    wk = lam * s.ensemble.temp * nb * C.kb / C.hbar
    w = wk * 0 + s.nm.nm_freqs[0] if mode == "pa-cmd" else wk
    M = m3 * (wk / w) ** 2
    h = s.nm.dt
    q0, p0 = cx.reals("zq", (nb, 6)), cx.reals("zp", (nb, 6))
    s.nm.qnm, s.nm.pnm = q0, p0
    e0 = (0.5 * p0[1] ** 2 / M).sum() + (0.5 * m3 * wk**2 * q0[1] ** 2).sum()
    e0 = e0 + (0.5 * p0[0] ** 2 / m3).sum()
    cx.eq(s.nm.kin + s.nm.vspring, e0, "energy of the path after a change of parameters")
    s.nm.free_qstep()
    q1, p1 = D(s.nm.qnm), D(s.nm.pnm)
    if prop == "exact":
        cx.eq(q1[1], q0[1] * np.cos(w * h) + p0[1] * np.sin(w * h) / (M * w), "propagator follows a change of parameters", tol=1e-7)
    else:
        cx.eq(q1[1] - q0[1], 0.5 * h * (p1[1] + p0[1]) / M, "propagator follows a change of parameters", tol=1e-7)
        cx.eq(p1[1] - p0[1], -0.5 * h * m3 * wk**2 * (q1[1] + q0[1]), "propagator follows a change of parameters", tol=1e-7)


@harness(params=[dict(nb=b, mode=m, open_paths=o) for b in (2, 3, 4) for m in ("rpmd", "pa-cmd", "manual", "wmax-cmd") for o in ([], [1])], witnesses=1, limit=60)
def mode_masses(cx, nb, mode, open_paths):
    """the dynamical masses give the internal modes the frequencies that were asked for"""
    np = cx.np
    s = sysm(cx, nb, "exact", mode, open_paths, na=2)
    D = cx.mod("ipi.utils.depend").dstrip
    T = cx.mod("ipi.utils.nmtransform")
    wn = nb * s.ensemble.temp
    fr = D(s.nm.nm_freqs)
    m, M = D(s.beads.m), D(s.nm.dynm3)
    for i in range(2):
        lam = T.o_nm_eva(nb) if i in open_paths else T.nm_eva(nb)
        first = None
        for k in range(nb):
            w2 = wn * wn * float(lam[k]) ** 2
            for c in range(3 * i, 3 * i + 3):
                x = M[k, c]
                lab = "atom %d mode %d" % (i, k)
                if k == 0 or mode == "rpmd":
                    cx.eq(x, m[i], lab + ": physical mass", tol=1e-7)
                elif mode == "pa-cmd":
                    cx.eq(x * fr[0] ** 2, m[i] * w2, lab + ": target frequency", tol=1e-7)
                elif mode == "manual":
                    cx.eq(x * fr[k - 1] ** 2, m[i] * w2, lab + ": given frequency", tol=1e-7)
                else:
                    w1 = wn * wn * float(lam[1]) ** 2
                    # in a well of frequency wmax all the modes have the same frequency, and the free first one has wtarget
                    cx.eq(x * fr[1] ** 2 * (w1 + fr[0] ** 2), m[i] * w1 * (w2 + fr[0] ** 2), lab + ": frequency", tol=1e-6)
