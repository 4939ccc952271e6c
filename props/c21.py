"""Indistinguishable particles."""

from symx.base import harness
from props.common import *

PRELOAD = PRE + ["ipi.utils.exchange", "ipi.engine.properties"]
BOUNDS = "2-3 bosons (4 in the thorough tier) out of up to 4 atoms, 2-3 beads; any value of one or two coordinates (each in turn, the others fixed), of the temperature and of the mass."


def positions(cx, nb, nat, sym=(), tag="x"):
    np = cx.np
    q = np.zeros((nb, 3 * nat), float)
    for b in range(nb):
        for i in range(3 * nat):
            q[b, i] = 0.25 * ((3 * i + 5 * b + i * b) % 7) - 0.75
    for k, (b, i) in enumerate(sym):
        q[b, i] = cx.real("%s%d" % (tag, k), -1, 1)
    return q


def system(cx, nb, nat, bosons, q, temp=None, masses=None, mode="rpmd", nmts=1, dt=None, p=None):
    np = cx.np
    m = np.asarray([1.0] * nat if masses is None else masses)
    mot = cx.mod("ipi.engine.motion").Motion()
    s = build(
        cx,
        nb,
        nat,
        temp=temp if temp is not None else 0.5,
        motion=mot,
        ffs={"ff": uf_ff(cx, nat, vir=False)},
        beads=make_beads(cx, nb, nat, masses=m, q=q, p=p if p is not None else np.zeros((nb, 3 * nat), float), names=["H"] * nat),
        nm_kw=dict(bosons=np.asarray(bosons, int) if len(bosons) else np.zeros(0, int), propagator="bab", nmts=nmts),
    )
    if dt is not None:
        s.motion.dt = dt
    return s


def cycle(q, parts, w):
    """energy of the ring that joins the listed particles, bead by bead"""
    nb = len(q)
    e = 0.0
    beads = [q[b][i] for i in parts for b in range(nb)]
    for k in range(len(beads)):
        e = e + sum((beads[k][c] - beads[k - 1][c]) * (beads[k][c] - beads[k - 1][c]) for c in range(3))
    return e * 0.5 * w


def weights(cx, q, bosons, w, betaP, xi=1):
    """Z_m = 1/m sum_k xi^(k-1) Z_(m-k) exp(-betaP E(m-k+1..m)), and - d Z_m / d betaP at fixed energies"""
    np = cx.np
    nb = len(q)
    at = [[[q[b][3 * i + c] for c in range(3)] for i in bosons] for b in range(nb)]
    N = len(bosons)
    Z, D = [1.0], [0.0]
    for m in range(1, N + 1):
        z = d = 0.0
        for k in range(1, m + 1):
            e = cycle(at, list(range(m - k, m)), w)
            x = np.exp(-betaP * e) * xi ** (k - 1)
            z = z + Z[m - k] * x
            d = d + (D[m - k] + Z[m - k] * e) * x
        Z.append(z / m)
        D.append(d / m)
    return Z, D


CASES = [dict(N=2, nb=2), dict(N=2, nb=3), dict(N=3, nb=2), dict(N=3, nb=3), dict(N=1, nb=2), dict(N=1, nb=3)]


@harness(params=CASES, thorough=[dict(N=4, nb=2)], max_paths=200)
def recursion(cx, N, nb):
    """effective potential, probabilities, sign and kinetic energy follow the recurrence over exchange cycles"""
    np = cx.np
    T = cx.real("T", 0.25, 1.0) if N < 3 else 0.5
    m = cx.real("m", 0.5, 2.0) if N < 3 else 1.5
    q = positions(cx, nb, N, [(0, 1)])
    s = system(cx, nb, N, list(range(N)), q, temp=T, masses=[m] * N)
    w = m * (nb * T) * (nb * T)
    bP = 1 / (nb * T)
    Z, D = weights(cx, q, list(range(N)), w, bP)
    ex = s.nm.exchange_potential
    V = s.nm.vspring
    cx.eq(np.exp(-bP * V), Z[N], "the spring energy is that of the recurrence over cycles", tol=1e-6)
    fac = [1, 1, 2, 6, 24][N]
    at = [[[q[b][3 * i + c] for c in range(3)] for i in range(N)] for b in range(nb)]
    cx.eq(ex.distinct_probability * Z[N] * fac, np.exp(-bP * sum(cycle(at, [i], w) for i in range(N))), "probability of no exchange", tol=1e-6)
    cx.eq(ex.longest_probability * Z[N], np.exp(-bP * cycle(at, list(range(N)), w)), "probability of the longest cycle", tol=1e-6)
    if N == 2:
        cx.eq(ex.distinct_probability + ex.longest_probability / 2, 1.0, "probabilities of two particles add up to one", tol=1e-6)
    F, _ = weights(cx, q, list(range(N)), w, bP, -1)
    cx.eq(ex.fermionic_sign * Z[N], F[N], "the sign is the ratio of the fermionic and bosonic weights", tol=1e-6)
    cx.eq((ex.kinetic_td - 1.5 * N * nb * T) * nb * Z[N], -D[N], "the kinetic energy is the temperature derivative of the weight", tol=1e-6)


@harness(params=[dict(N=n, nb=b, i=i, bead=k) for n, b in ((1, 3), (2, 2), (2, 3), (3, 2)) for i in (range(n) if n < 3 else (0, 1, 2)) for k in range(b)], thorough=[dict(N=3, nb=3, i=i, bead=k) for i in range(3) for k in range(3)] + [dict(N=4, nb=2, i=i, bead=k) for i in range(4) for k in range(2)], max_paths=200)
def force(cx, N, nb, i, bead):
    """the force on each bead is minus the gradient of the spring energy"""
    np = cx.np
    T = cx.real("T", 0.25, 1.0) if N < 3 else 0.5
    q = positions(cx, nb, N)
    for c in (0, 2):

        def pot(x):
            y = q.copy()
            y[bead, 3 * i + c] = x[0]
            return system(cx, nb, N, list(range(N)), y, temp=T).nm.vspring

        x = np.zeros(1, float)
        x[0] = cx.real("x%d" % c, -1, 1)
        g = cx.grad(pot, x)
        y = q.copy()
        y[bead, 3 * i + c] = x[0]
        s = system(cx, nb, N, list(range(N)), y, temp=T)
        cx.eq(s.nm.fspring[bead, 3 * i + c], -g[0], "force is minus the gradient", tol=1e-6)


@harness(params=[dict(nb=2, bos=[0, 2]), dict(nb=3, bos=[1, 2]), dict(nb=2, bos=[2, 0]), dict(nb=2, bos=[])])
def mixed(cx, nb, bos):
    """bosons next to distinguishable particles: each kind keeps its own springs"""
    np = cx.np
    T = cx.real("T", 0.25, 1.0)
    d = [i for i in range(3) if i not in bos]
    q = positions(cx, nb, 3, [(0, 1), (1, 3 * d[0] + 2)])
    m = [1.5] * 3
    m[d[0]] = 4.0
    s = system(cx, nb, 3, bos, q, temp=T, masses=m)
    w2 = (nb * T) * (nb * T)
    at = [[[q[b][3 * i + c] for c in range(3)] for i in range(3)] for b in range(nb)]
    e = sum(cycle(at, [i], m[i] * w2) for i in d)
    if bos:
        qb = np.zeros((nb, 3 * len(bos)), float)
        for k, i in enumerate(bos):
            qb[:, 3 * k : 3 * k + 3] = q[:, 3 * i : 3 * i + 3]
        o = system(cx, nb, len(bos), list(range(len(bos))), qb, temp=T, masses=[1.5] * len(bos))
        cx.eq(s.nm.vspring, e + o.nm.vspring, "the spring energy adds up")
        for k, i in enumerate(bos):
            cx.eq(s.nm.fspring[:, 3 * i : 3 * i + 3], o.nm.fspring[:, 3 * k : 3 * k + 3], "forces on the bosons")
    else:
        cx.eq(s.nm.vspring, e, "the spring energy adds up")
    for i in d:
        for b in range(nb):
            for c in range(3):
                j = 3 * i + c
                cx.eq(s.nm.fspring[b, j], m[i] * w2 * (q[(b + 1) % nb, j] + q[b - 1, j] - 2 * q[b, j]), "forces on the distinguishable particles")
    if bos:
        P = cx.mod("ipi.engine.properties").Properties()
        s.simul, s._propertylock = Stub(), __import__("threading").Lock()
        P.bind(s)
        kd = sum(1.5 * T * nb - cycle(at, [i], m[i] * w2) / nb for i in d)
        cx.eq(P["kinetic_td"][0], kd + o.nm.exchange_potential.kinetic_td, "the kinetic energy adds up")
        cx.eq(P["kinetic_td(%d)" % d[0]][0], 1.5 * T * nb - cycle(at, [d[0]], m[d[0]] * w2) / nb, "kinetic energy of a distinguishable particle")
        for k in ("kinetic_td(%d)" % bos[0], "kinetic_cv", "kinetic_cv(%d)" % bos[0]):
            try:
                P[k]
                ok = False
            except IndexError:
                ok = True
            cx.check(ok, "%s is refused: not defined for part of the bosons" % k)


@harness(params=[dict(what=w) for w in ("q", "temp", "mass", "p")])
def current(cx, what):
    """spring energy, forces and estimators follow every change of the system"""
    np = cx.np
    nb, N = 2, 2
    q = positions(cx, nb, N, [(0, 1)])
    x, T, m = q, 0.5, 1.0
    s = system(cx, nb, N, [0, 1], q, temp=T)

    def look(s):
        ex = s.nm.exchange_potential
        return [s.nm.vspring, ex.distinct_probability, ex.longest_probability, ex.fermionic_sign, ex.kinetic_td] + list(cx.mod("ipi.utils.depend").dstrip(s.nm.fspring).reshape(-1))

    look(s)
    if what == "q":
        x = q.copy()
        x[1, 3] = cx.real("y", -1, 1)
        s.beads.q[1, 3] = x[1, 3]
    elif what == "temp":
        T = cx.real("T2", 0.25, 1.0)
        s.ensemble.temp = T
    elif what == "mass":
        m = 2.0
        s.beads.m[:] = m
    else:
        s.beads.p[:] = 1.0
    o = system(cx, nb, N, [0, 1], x, temp=T, masses=[m] * N)
    for k, (a, b) in enumerate(zip(look(s), look(o))):
        cx.eq(a, b, "quantity %s is current after a change of %s" % (min(k, 5), what))


@harness(params=[dict(nb=1, nmts=1), dict(nb=2, nmts=1), dict(nb=3, nmts=2), dict(nb=2, nmts=3)])
def propagator(cx, nb, nmts):
    """the Cartesian free-ring-polymer propagator is nmts velocity Verlet steps with the spring forces, centroid included, and can be reverted"""
    np = cx.np
    dt = cx.real("dt", 0.01, 0.25)
    q = positions(cx, nb, 1, [(0, 1)])
    p = positions(cx, nb, 1, [(nb - 1, 1)], "p")
    m = 2.0
    s = system(cx, nb, 1, [], q, temp=0.5, masses=[m], nmts=nmts, dt=dt, p=p)
    d = cx.mod("ipi.utils.depend").dstrip

    def whole():
        # the centroid is moved by the integrators, in qcstep
        s.nm.qnm[0, :] += d(s.nm.pnm)[0, :] / d(s.beads.m3)[0] * dt
        s.nm.free_qstep()

    whole()
    w = m * (nb * 0.5) * (nb * 0.5)
    x, v = q.copy(), p.copy()
    f = lambda: np.asarray([[w * (x[(b + 1) % nb, j] + x[b - 1, j] - 2 * x[b, j]) for j in range(3)] for b in range(nb)])
    if nb == 1:
        x = x + dt * v / m
    else:
        h = dt / nmts
        for k in range(nmts):
            v = v + 0.5 * h * f()
            x = x + h * v / m
            v = v + 0.5 * h * f()
    cx.eq(d(s.beads.q), x, "positions after the free step", tol=1e-7)
    cx.eq(d(s.beads.p), v, "momenta after the free step", tol=1e-7)
    s.beads.p[:] = -v
    whole()
    cx.eq(d(s.beads.q), q, "positions after going back", tol=1e-7)
    cx.eq(d(s.beads.p), -p, "momenta after going back", tol=1e-7)


@harness(params=[dict()])
def refused(cx):
    """bosons of different mass, and propagators that ignore exchange, are refused"""
    np = cx.np
    q = positions(cx, 2, 2)
    s = system(cx, 2, 2, [0, 1], q, masses=[1.0, cx.real("m", 1.25, 2.0)])
    try:
        s.nm.vspring
        ok = False
    except ValueError:
        ok = True
    cx.check(ok, "bosons of different mass are refused")
    for prop in ("exact", "cayley"):
        s = system(cx, 2, 2, [0, 1], q)
        s.nm.propagator = prop
        try:
            s.nm.free_qstep()
            ok = False
        except NotImplementedError:
            ok = True
        cx.check(ok, "the %s propagator is refused with bosons" % prop)
