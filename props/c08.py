"""Barostats: piston forces, exact cell flow, conserved quantity, cell constraints."""

from symx.base import harness, HarnessLimit
from props.common import *

PRELOAD = PRE
BOUNDS = "2 atoms, 1-3 beads, 1-2 force levels; any cell (upper triangular), positions, momenta, masses, pressure or symmetric stress, piston mass and momentum, time step; energies of pair springs and a quadratic cell term (strain derivatives), arbitrary forces (reversibility), matrix cell velocities nilpotent-symbolic or from a fixed list including defective ones."


def pair_ff(cx, name):
    """rotationally invariant springs between consecutive atoms and a cell energy"""
    np = cx.np
    k, c = cx.real("k" + name, 0.5, 1.5), cx.real("c" + name, 0.0, 0.5)

    def fun(q, h):
        x = q.reshape(-1, 3)
        f = np.zeros(x.shape, float)
        vir = np.zeros((3, 3), float)
        u = 0.5 * c * (h * h).sum()
        vir -= c * np.dot(h, h.T)
        for i in range(len(x) - 1):
            d = x[i] - x[i + 1]
            u = u + 0.5 * k * (d * d).sum()
            f[i] -= k * d
            f[i + 1] += k * d
            vir -= k * np.outer(d, d)
        return u, f.reshape(-1), np.triu(vir), {"raw": ""}

    return FF(cx, fun, name)


def sysm(cx, kind, nb=2, na=2, nmts=(1,), bias=False, uf=False, hfix=None, vol=False, splitting="obabo", thermo=None, bthermo=None, p=None, h=None, m=None):
    np = cx.np
    B = cx.mod("ipi.engine.barostats")
    mk = (lambda n: uf_ff(cx, na, n)) if uf else (lambda n: pair_ff(cx, n))
    ffs = {"fa": mk("fa")}
    lev = len(nmts)
    comps = [component(cx, "fa", mts=[1.0] if lev == 1 else [0.25, 0.75])]
    if lev == 2:
        ffs["fb"] = mk("fb")
        comps.append(component(cx, "fb", mts=[1.0, 0.0], weight=cx.real("w", 0.5, 2)))
    tau = cx.real("tau", 1, 2)
    ek = {}
    if bias:
        ffs["bias"] = mk("bias")
        ek.update(bcomponents=[component(cx, "bias")], bweights=np.asarray([cx.real("bw", 0.5, 2)]))
    kw = dict(tau=tau)
    if bthermo is not None:
        kw["thermostat"] = bthermo
    if kind in ("bzp", "scbzp"):
        P = p if p is not None else cx.real("P", 0.5, 2)
        b = (B.BaroBZP if kind == "bzp" else B.BaroSCBZP)(p=P, **kw)
        ek["pext"] = cx.real("pext", -1, 1)
    else:
        if p is None:
            P = np.zeros((3, 3), float)
            for i in range(3):
                for j in range(i, 3):
                    P[i, j] = cx.real("P%d%d" % (i, j), -2, 2)
        else:
            P = p
        if kind == "rgb":
            h0 = cx.mod("ipi.engine.cell").Cell(h=np.asarray([[4.0, 0.5, -0.25], [0, 4.5, 0.5], [0, 0, 3.5]]))
            b = B.BaroRGB(p=P, h0=h0, hfix=hfix, **kw)
            S = np.zeros((3, 3), float)
            for i in range(3):
                for j in range(i, 3):
                    S[i, j] = S[j, i] = cx.real("S%d%d" % (i, j), -1, 1)
            ek["stressext"] = S
        else:
            b = B.BaroMTK(p=P, hfix=hfix, vol_constraint=vol, **kw)
            ek["pext"] = cx.real("pext", -1, 1)
    mode = {"bzp": "npt", "mtk": "npt", "rgb": "nst", "scbzp": "scnpt"}[kind]
    Th = cx.mod("ipi.engine.thermostats").Thermostat
    dt = cx.real("dt", 0.125, 0.5)
    mot = cx.mod("ipi.engine.motion").Dynamics(timestep=dt, mode=mode, splitting=splitting, nmts=np.asarray(list(nmts)), thermostat=thermo or Th(), barostat=b)
    if h is None:
        h = np.zeros((3, 3), float)
        for i in range(3):
            h[i, i] = cx.real("h%d" % i, 3, 5)
            for j in range(i + 1, 3):
                h[i, j] = cx.real("h%d%d" % (i, j), -1, 1)
    s = build(cx, nb, na, motion=mot, ffs=ffs, comps=comps, ens_kw=ek, cell=make_cell(cx, h), beads=make_beads(cx, nb, na, masses=m))
    s.mot, s.baro, s.dt, s.kind, s.P0 = mot, b, dt, kind, P
    if kind == "scbzp":
        s.forces.alpha = 0.0
    return s


def mask(cx, s, X, hfix, vol):
    """what is left of a cell momentum change with fixed components and volume"""
    ix = dict(xx=[(0, 0)], yy=[(1, 1)], zz=[(2, 2)], xy=[(0, 1)], xz=[(0, 2)], yz=[(1, 2)], yx=[(0, 1)], offdiagonal=[(0, 1), (0, 2), (1, 2)])
    fx = [t for k in (hfix or []) for t in ix[k]]
    X = X.copy()
    for t in fx:
        X[t] = 0.0
    if vol:
        free = [i for i in range(3) if (i, i) not in fx]
        tr = sum(X[i, i] for i in range(3))
        for i in free:
            X[i, i] = X[i, i] - tr / len(free)
    return X


def piston_force(cx, s):
    """minus the derivative of all configurational energies with respect to a
    strain that moves the cell and the centroids together"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    q0, qc, h0 = D(s.beads.q).copy(), D(s.beads.qc).copy().reshape(-1, 3), D(s.cell.h).copy()
    iso = s.kind in ("bzp", "scbzp")
    ij = [(i, j) for i in range(3) for j in range(i, 3)]

    def energy(e):
        E = np.zeros((3, 3), float)
        if iso:
            for i in range(3):
                E[i, i] = e[0]
        else:
            for n, t in enumerate(ij):
                E[t] = e[n]
        sh = np.dot(qc, E.T).reshape(-1)
        q = q0.copy()
        for b in range(len(q)):
            q[b] = q[b] + sh
        s.beads.q = q
        s.cell.h = h0 + np.dot(E, h0)
        u = s.forces.pot + s.baro.pot + s.baro.cell_jacobian + s.ensemble.bias.pot
        if s.kind == "scbzp":
            u = u + s.forces.potsc
        return u

    g = cx.grad(energy, np.zeros(1 if iso else 6, float))
    s.beads.q, s.cell.h = q0, h0
    if iso:
        return -g[0]
    F = np.zeros((3, 3), float)
    for n, t in enumerate(ij):
        F[t] = -g[n]
    return F


def coupling(cx, s, pc, f, dt):
    """time integral of the centroid kinetic stress while a constant force acts"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    m, nb = D(s.beads.m), s.beads.nbeads
    K = np.zeros((3, 3), float)
    pc, f = pc.reshape(-1, 3), f.reshape(-1, 3)
    for a in range(len(pc)):
        for i in range(3):
            for j in range(i, 3):
                K[i, j] += nb / m[a] * (dt * pc[a, i] * pc[a, j] + 0.5 * dt**2 * (pc[a, i] * f[a, j] + f[a, i] * pc[a, j]) + dt**3 / 3 * f[a, i] * f[a, j])
    return K


FIX = [[], ["xx"], ["xy"], ["offdiagonal"], ["xx", "yy"], ["xx", "zz", "yz"]]


@harness(params=[dict(kind="bzp", nb=1), dict(kind="bzp", nb=2), dict(kind="bzp", nb=3), dict(kind="bzp", nb=2, nmts=[1, 1]), dict(kind="bzp", nb=2, bias=True), dict(kind="scbzp", nb=2), dict(kind="scbzp", nb=2, bias=True),
                 dict(kind="mtk", nb=1), dict(kind="mtk", nb=2), dict(kind="mtk", nb=2, nmts=[1, 1]), dict(kind="mtk", nb=1, bias=True), dict(kind="mtk", nb=1, vol=True), dict(kind="mtk", nb=1, vol=True, hfix=["yy"]),
                 dict(kind="rgb", nb=1), dict(kind="rgb", nb=2), dict(kind="rgb", nb=1, nmts=[1, 1]), dict(kind="rgb", nb=1, bias=True)]
         + [dict(kind="mtk", nb=1, hfix=f) for f in FIX[1:]] + [dict(kind="rgb", nb=1, hfix=f) for f in (FIX[1], FIX[3])],
         bounds="one momentum kick, energies of springs", witnesses=1, limit=150)
def kick(cx, kind, nb, nmts=(1,), bias=False, hfix=None, vol=False):
    """a momentum kick changes the piston momentum by the time integral of minus
    the strain derivative of the enthalpy plus the centroid kinetic stress,
    projected on the free cell components; constraint forces leave the heat alone"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    s = sysm(cx, kind, nb, nmts=nmts, bias=bias, hfix=hfix, vol=vol)
    I, B = s.mot.integrator, s.baro
    F = piston_force(cx, s)
    P0, heat = D(B.p).copy(), B.thermostat.ethermo
    if kind != "bzp" and kind != "scbzp":
        P0 = mask(cx, s, P0, hfix, vol)
        B.p = P0
        heat = B.thermostat.ethermo
    d = s.dt * 0.5
    for l in range(len(nmts) - 1):
        I.pstep(l)
    pc = D(s.beads.pc).copy()
    if kind == "scbzp":
        B.pscstep()
    pb = D(s.beads.p).copy()
    I.pstep(len(nmts) - 1)
    fc = ((D(s.beads.p) - pb).sum(axis=0) / nb) / d
    K = coupling(cx, s, pc, fc, d)
    if kind in ("bzp", "scbzp"):
        cx.eq(D(B.p)[0] - P0[0], d * F + K[0, 0] + K[1, 1] + K[2, 2], "change of the piston momentum", tol=1e-6 if kind == "scbzp" else 1e-8)
    else:
        X = D(B.p) - P0
        cx.eq(X, mask(cx, s, d * F + K, hfix, vol), "change of the cell momentum", tol=1e-7)
    if not hfix and not vol:
        cx.eq(B.thermostat.ethermo, heat, "no heat is booked")


@harness(params=[dict(kind="mtk", hfix=["xx"], vol=False), dict(kind="mtk", hfix=[], vol=True), dict(kind="rgb", hfix=["xy"], vol=False)], bounds="one momentum kick", witnesses=1)
def constraint_work(cx, kind, hfix, vol):
    """the forces that hold cell components or the volume do no work"""
    D = cx.mod("ipi.utils.depend").dstrip
    s = sysm(cx, kind, 1, na=1, hfix=hfix, vol=vol, uf=True)
    s.baro.p = mask(cx, s, D(s.baro.p), hfix, vol)
    heat = s.baro.thermostat.ethermo
    s.mot.integrator.pstep(0)
    cx.eq(s.baro.thermostat.ethermo, heat, "constraint forces are not booked as heat")


@harness(params=[dict(kind=k, nb=b, nmts=n, bias=bi) for k in ("bzp", "scbzp", "mtk", "rgb") for b, n, bi in [(2, [1], False), (2, [1], True), (2, [2, 1], False), (2, [1, 2], True)] if not (k == "scbzp" and len(n) > 1 and bi)]
         + [dict(kind="bzp", nb=1, nmts=[1], bias=True), dict(kind="mtk", nb=1, nmts=[1], bias=True)],
         bounds="kick, reversal, kick, at any level; any forces", witnesses=1, limit=120)
def kick_reversible(cx, kind, nb, nmts, bias):
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    s = sysm(cx, kind, nb, na=1 if len(nmts) > 1 else 2, nmts=nmts, bias=bias, uf=True)
    I, B = s.mot.integrator, s.baro
    p0, P0 = D(s.beads.p).copy(), D(B.p).copy()
    for l in range(len(nmts)):
        I.pstep(l)
        s.beads.p = -D(s.beads.p)
        B.p = -D(B.p)
        I.pstep(l)
        cx.eq(D(s.beads.p), -p0, "atomic momenta retraced", tol=1e-7)
        cx.eq(D(B.p), -P0, "cell momentum retraced", tol=1e-7)
        s.beads.p, B.p = p0, P0


@harness(params=[dict(kind=k, nb=b) for k in ("bzp", "scbzp") for b in (1, 2, 3)], bounds="any piston velocity, centroid and cell", witnesses=1)
def drift_iso(cx, kind, nb):
    """the cell move is the exact flow of centroid, centroid momentum and cell
    at constant piston velocity, and leaves the internal modes alone"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    s = sysm(cx, kind, nb)
    t = s.dt / 2
    v = D(s.baro.p)[0] / D(s.baro.m)[0]
    q, p, h, m3 = D(s.nm.qnm).copy(), D(s.nm.pnm).copy(), D(s.cell.h).copy(), D(s.beads.m3)[0]
    s.mot.integrator.qcstep()
    e, i = np.exp(v * t), np.exp(-v * t)
    cx.eq(D(s.nm.qnm)[0], q[0] * e + p[0] / m3 * (e - i) / (2 * v), "centroid", tol=1e-7)
    cx.eq(D(s.nm.pnm)[0], p[0] * i, "centroid momentum", tol=1e-7)
    cx.eq(D(s.cell.h), h * e, "cell", tol=1e-7)
    if nb > 1:
        cx.eq(D(s.nm.qnm)[1:], q[1:], "internal modes do not move")
        cx.eq(D(s.nm.pnm)[1:], p[1:], "internal momenta do not change")


def taylor(np, A):
    """plain-float matrix exponential by scaling and squaring"""
    import math

    n = len(A)
    S = [[A[i][j] / 1024.0 for j in range(n)] for i in range(n)]

    def mul(X, Y):
        return [[math.fsum(X[i][k] * Y[k][j] for k in range(n)) for j in range(n)] for i in range(n)]

    I = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    E = [r[:] for r in I]
    for k in range(14, 0, -1):
        E = mul(S, E)
        E = [[I[i][j] + E[i][j] / k for j in range(n)] for i in range(n)]
    for _ in range(10):
        E = mul(E, E)
    return E


VEL = {
    "general": [[0.5, 0.25, -0.5], [0, -0.25, 0.75], [0, 0, 0.125]],
    "diagonal": [[0.5, 0, 0], [0, -0.75, 0], [0, 0, 0.25]],
    "equal": [[0.5, 0.25, 0.5], [0, 0.5, -0.75], [0, 0, 0.5]],
    "onezero": [[0, 0.5, 0.25], [0, 0.5, 0.25], [0, 0, -0.5]],
    "twozero": [[0, 0.5, 0.25], [0, 0, -0.75], [0, 0, 0.5]],
    "twozero2": [[0.25, 0.5, 0.25], [0, 0, -0.75], [0, 0, 0]],
    "offdiag": [[0, 0.5, 0.25], [0, 0, -0.75], [0, 0, 0]],
    "zero": [[0, 0, 0], [0, 0, 0], [0, 0, 0]],
}


@harness(params=[dict(kind=k, vel=v, nb=n) for k in ("mtk", "rgb") for v in VEL for n in ((1, 2) if v in ("general", "offdiag") else (2,))], bounds="cell velocity from the listed matrices; any centroid, momenta, masses and cell", witnesses=1)
def drift_matrix(cx, kind, vel, nb):
    """as drift_iso, for matrix cell velocities, including those of cells with
    fixed components"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    s = sysm(cx, kind, nb, p=np.zeros((3, 3)))
    s.mot.dt = 0.5
    s.baro.tau = 1.0
    s.ensemble.temp = 1.0
    V = VEL[vel]
    M = s.beads.natoms * cx.mod("ipi.utils.units").Constants.kb * nb
    s.baro.p = np.asarray([[x * M for x in r] for r in V], float)
    t = 0.25
    A = [[V[i][j] * t for j in range(3)] + [t if i == j else 0.0 for j in range(3)] for i in range(3)] + [[0.0] * 3 + [-V[i][j] * t for j in range(3)] for i in range(3)]
    E = np.asarray(taylor(np, A), float)
    e, sh, i = E[:3, :3], E[:3, 3:], E[3:, 3:]
    q, p, h, m3 = D(s.nm.qnm).copy(), D(s.nm.pnm).copy(), D(s.cell.h).copy(), D(s.beads.m3)[0]
    s.mot.integrator.qcstep()
    v3 = lambda x: x.reshape(-1, 3)
    cx.eq(v3(D(s.nm.qnm)[0]), np.dot(v3(q[0]), e.T) + np.dot(v3(p[0] / m3), sh.T), "centroid", tol=1e-6)
    cx.eq(v3(D(s.nm.pnm)[0]), np.dot(v3(p[0]), i.T), "centroid momentum", tol=1e-6)
    cx.eq(D(s.cell.h), np.dot(e, h), "cell", tol=1e-6)
    if nb > 1:
        cx.eq(D(s.nm.qnm)[1:], q[1:], "internal modes do not move")
        cx.eq(D(s.nm.pnm)[1:], p[1:], "internal momenta do not change")


CH = {"bzp": ["h", "temp", "p", "pext", "tau", "heat"], "scbzp": ["h", "temp", "p", "pext", "tau", "heat"], "mtk": ["h", "temp", "p", "pext", "tau", "heat"], "rgb": ["h", "temp", "p", "stress", "h0", "tau", "heat"]}


@harness(params=[dict(kind=k, hfix=f) for k in CH for f in ([None] if k in ("bzp", "scbzp") else [None, ["offdiagonal"], ["xy"]])], bounds="one or two changes between reads", witnesses=1)
def energy_current(cx, kind, hfix):
    """the energy of the barostat is kinetic + pressure/strain + Jacobian terms
    plus heat, for the current parameters, and enters the conserved quantity"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    C = cx.mod("ipi.utils.units").Constants
    s = sysm(cx, kind, 2, na=1, hfix=hfix)
    B = s.baro
    s.ensemble.econs
    if cx.bool("readparts"):
        B.ebaro, B.kin, B.pot, B.cell_jacobian
    for n in range(2):
        ch = cx.choice("change%d" % n, CH[kind])
        if ch == "h":
            s.cell.h = D(s.cell.h) * cx.real("sc%d" % n, 0.5, 1.5)
        elif ch == "temp":
            s.ensemble.temp = cx.real("t%d" % n, 0.25, 2)
        elif ch == "p":
            B.p = D(B.p) * cx.real("ps%d" % n, 0.5, 1.5)
        elif ch == "pext":
            s.ensemble.pext = cx.real("px%d" % n, -1, 1)
        elif ch == "stress":
            s.ensemble.stressext = np.identity(3) * cx.real("sx%d" % n, -1, 1)
        elif ch == "h0":
            B.h0.h = np.identity(3) * cx.real("h0x%d" % n, 2, 3)
        elif ch == "tau":
            B.tau = cx.real("tau%d" % n, 1, 2)
        else:
            B.thermostat.ethermo += cx.real("q%d" % n, -1, 1)
        if n == 0 and cx.bool("readbetween"):
            B.ebaro
            s.ensemble.econs
        if n == 0 and not cx.bool("second"):
            break
    nb, T, h = 2, s.ensemble.temp * 2, D(s.cell.h)
    V = h[0, 0] * h[1, 1] * h[2, 2]
    P, M = D(B.p), B.tau**2 * C.kb * T * (3 if kind in ("bzp", "scbzp") else 1)
    kin = (P * P).sum() / (2 * M)
    if kind in ("bzp", "scbzp"):
        pot, jac = nb * s.ensemble.pext * V, -C.kb * T * (np.log(h[0, 0]) + np.log(h[1, 1]) + np.log(h[2, 2]))
    else:
        L = {"None": (3, 2, 1), "['offdiagonal']": (1, 1, 1), "['xy']": (2, 2, 1)}[str(hfix)]
        jac = -C.kb * T * (L[0] * np.log(h[0, 0]) + L[1] * np.log(h[1, 1]) + L[2] * np.log(h[2, 2]))
        if kind == "mtk":
            pot = nb * s.ensemble.pext * V
        else:
            h0 = D(B.h0.h)
            F = np.dot(h, D(B.h0.ih))
            eps = 0.5 * (np.dot(F.T, F) - np.identity(3))
            S = D(s.ensemble.stressext)
            pot = nb * h0[0, 0] * h0[1, 1] * h0[2, 2] * (S * eps).sum()
    cx.eq(B.kin, kin, "kinetic energy", tol=1e-7)
    cx.eq(B.pot, pot, "pressure or strain energy", tol=1e-7)
    cx.eq(B.cell_jacobian, jac, "Jacobian term", tol=1e-7)
    e = kin + pot + jac + B.thermostat.ethermo
    cx.eq(B.ebaro, e, "energy of the barostat", tol=1e-7)
    cx.eq(s.ensemble.econs - s.forces.pot - s.nm.kin - s.nm.vspring - s.mot.thermostat.ethermo - (s.forces.potsc if kind == "scbzp" else 0.0), e, "conserved quantity", tol=1e-6)


@harness(params=[dict(kind=k, splitting=sp, hfix=f, vol=v) for sp in ("obabo", "baoab") for k, f, v in [("mtk", ["xx"], False), ("mtk", ["offdiagonal", "zz"], False), ("mtk", [], True), ("mtk", ["yy"], True), ("rgb", ["xy", "zz"], False), ("bzp", None, False)]],
         bounds="two steps with white noise on the cell; any forces and noise", witnesses=1, limit=120)
def constraints(cx, kind, splitting, hfix, vol):
    """whatever the noise on the cell, fixed cell components and the volume are
    fixed whenever the cell moves; the heat books exactly what the thermostat
    and the constraints take from the cell; the cell thermostat runs for one time step"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    Th = cx.mod("ipi.engine.thermostats").Thermostat
    u = cx.reals("u", 6, -1, 1)

    class Noise(Th):
        n = 0.0

        def step(self):
            self.n = self.n + self.dt
            k0 = (D(self.p) ** 2 / D(self.m)).sum() * 0.5
            p = D(self.p) * 0.75 + u[: len(D(self.p))]
            self.p = p
            self.ethermo += k0 - (D(self.p) ** 2 / D(self.m)).sum() * 0.5

    th = Noise()
    s = sysm(cx, kind, 1, na=1, uf=True, hfix=hfix, vol=vol, splitting=splitting, bthermo=th)
    B = s.baro
    seen, work = [], []

    realq, real = B.qcstep, B.pstep
    X = cx.mod("ipi.engine.barostats")

    def still(M, *a, **k):
        # the cell velocity in use, whatever combination of blocks it is passed in
        seen.append(M)
        return np.identity(len(M))

    def pstep(level=0):
        k = B.kin + th.ethermo
        real(level)
        work.append(B.kin + th.ethermo - k)

    if kind != "bzp":
        cx.patch(X, "matrix_exp", still)
    cx.patch(B, "pstep", pstep)
    k0, e0 = B.kin, th.ethermo
    n0 = th.n
    for i in range(2):
        s.mot.step()
    if kind != "bzp":
        if len(seen) < 2:
            raise HarnessLimit("cell velocity not observed")
        for P in seen:
            P = P[:3, :3]
            cx.eq(np.triu(P), mask(cx, s, np.triu(P), hfix, vol), "constraints hold when the cell moves", tol=1e-8)
    cx.eq(th.ethermo - e0 + B.kin - k0, sum(work), "heat of the cell", tol=1e-7)
    cx.eq(th.n - n0, 2 * s.dt, "cell thermostat time")
