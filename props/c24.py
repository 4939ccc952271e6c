"""Monte Carlo moves: isotope exchange and atom swap."""

from symx.base import harness
from props.common import *

PRELOAD = PRE + ["ipi.engine.motion.alchemy", "ipi.engine.motion.atomswap"]
BOUNDS = "3 atoms of 2-3 species, 1-3 beads, 1-2 attempted moves per step; any masses, momenta, potentials, random numbers and picked pairs; closed ring polymers without bias."


class MCPrng(Stub):
    def __init__(self, cx, ntries):
        self.cx, self.ntries, self.nu, self.ni, self.us, self.picks = cx, ntries, 0, 0, [], []

    def poisson(self, lam=1.0, size=None):
        self.lam = lam
        return self.ntries

    def integers(self, lo, hi=None, size=None, endpoint=False):
        self.ni += 1
        # ends the search for a partner of another species
        if self.ni > 2 * self.ntries + 2:
            self.cx.assume(False)
        v = self.cx.choice("i%d" % self.ni, list(range(lo, hi)))
        self.picks.append(v)
        return v

    @property
    def u(self):
        self.nu += 1
        v = self.cx.real("u%d" % self.nu, 0.001, 0.999)
        self.us.append((len(self.picks), v))
        return v


NAMES = ["H", "O", "D"]


def system(cx, cls, nb, ntries, names=NAMES, listed=("H", "D"), kw=None, masses=None, nmkw=None, tag=""):
    np = cx.np
    mot = cls(names=list(listed), nxc=1.0, ealc=0.25)
    q = np.zeros((nb, 9), float)
    for b in range(nb):
        for i in range(9):
            q[b, i] = 0.25 * ((3 * i + 5 * b + i * b) % 7) - 0.75 + i
    q[nb - 1, 0] = cx.real(tag + "x", -1, 1)
    p = np.zeros((nb, 9), float)
    for b in range(nb):
        for i in range(9):
            p[b, i] = 0.25 * ((5 * i + 3 * b + i * b) % 9) - 1.0
    p[0, 7] = cx.real(tag + "p", -1, 1)
    ffs = {"fa": uf_ff(cx, 3, "fa", vir=False), "fb": uf_ff(cx, 3, "fb", vir=False)}
    pr = MCPrng(cx, ntries)
    s = build(cx, nb, 3, motion=mot, ffs=ffs, comps=[component(cx, "fa"), component(cx, "fb", weight=1.5)], temp=cx.real("temp", 0.25, 2) if tag == "" else 0.5, prng=pr, beads=make_beads(cx, nb, 3, masses=masses if masses is not None else np.asarray([1.0, 16.0, 4.0]), q=q, p=p, names=list(names)), nm_kw=nmkw)
    s.mc = pr
    return s


def springs(cx, s, q):
    """mass-free spring energy of each atom"""
    C = cx.mod("ipi.utils.units").Constants
    nb = s.beads.nbeads
    w2 = (C.kb * s.ensemble.temp * nb / C.hbar) ** 2
    r = []
    for a in range(s.beads.natoms):
        e = 0.0
        for b in range(nb):
            if nb > 1:
                e = e + 0.5 * w2 * ((q[b, 3 * a : 3 * a + 3] - q[b - 1, 3 * a : 3 * a + 3]) ** 2).sum()
        r.append(e)
    return r


def pot(cx, s, q):
    U = 0.0
    D = cx.mod("ipi.utils.depend").dstrip
    for b in range(s.beads.nbeads):
        U = U + s.fflist["fa"].fun(q[b], D(s.cell.h))[0] + 1.5 * s.fflist["fb"].fun(q[b], D(s.cell.h))[0]
    return U


def decide(cx, e, u):
    """accepted? (leaving out ties within rounding)"""
    cx.assume(cx.any([e > u * (1 + 1e-9), e < u * (1 - 1e-9)]))
    return e > u


@harness(params=[dict(nb=1, ntries=1), dict(nb=2, ntries=1), dict(nb=3, ntries=1), dict(nb=2, ntries=1, names=["H", "D", "T"], listed=("H", "D", "T")), dict(nb=2, ntries=2)], bounds="1-2 attempts", witnesses=1, limit=120, max_paths=2000)
def isotope(cx, nb, ntries, names=NAMES, listed=("H", "D")):
    """isotope exchange: accepted with the Boltzmann factor of the change in
    spring energy; names and masses change places, positions stay, velocities
    keep the kinetic energy; the conserved quantity does not jump"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    C = cx.mod("ipi.utils.units").Constants
    M = cx.mod("ipi.engine.motion.alchemy").AlchemyMC
    s = system(cx, M, nb, ntries, names, listed)
    q0, p0, m0, n0 = D(s.beads.q).copy(), D(s.beads.p).copy(), D(s.beads.m).copy(), list(D(s.beads.names))
    E0, K0, kin0 = s.ensemble.econs, D(s.beads.m3)[0].copy(), s.nm.kin
    s.motion.step(1)
    # the moves replayed
    spr = springs(cx, s, q0)
    ax = [a for a in range(3) if n0[a] in listed]
    m, n, p = m0.copy(), list(n0), p0.copy()
    betaP = 1.0 / (C.kb * s.ensemble.temp * nb)
    picks = list(s.mc.picks)
    dE = 0.0
    k = 0
    for at, u in s.mc.us:
        i = ax[picks[k]]
        j = ax[picks[at - 1]]
        cx.check(n[i] != n[j], "only different species are exchanged")
        for y in picks[k + 1 : at - 1]:
            cx.check(n[ax[y]] == n[i], "partners are only drawn again when they are of the same species")
        k = at
        d = m[j] * spr[i] + m[i] * spr[j] - m[i] * spr[i] - m[j] * spr[j]
        acc = decide(cx, np.exp(-betaP * d), u)
        if acc:
            dE = dE + d
            n[i], n[j] = n[j], n[i]
            m[i], m[j] = m[j], m[i]
            r = np.sqrt(m[i] / m[j])
            p[:, 3 * i : 3 * i + 3] = p[:, 3 * i : 3 * i + 3] * r
            p[:, 3 * j : 3 * j + 3] = p[:, 3 * j : 3 * j + 3] / r
    cx.check(len(s.mc.us) == ntries, "every attempt is decided")
    cx.eq(s.mc.lam, 1.0, "the number of attempts has the requested mean")
    cx.check(list(D(s.beads.names)) == n, "names of exactly the accepted pairs change places")
    cx.eq(D(s.beads.m), m, "masses of exactly the accepted pairs change places", tol=1e-9)
    cx.eq(D(s.beads.q), q0, "positions stay")
    cx.eq(D(s.beads.p), p, "momenta of the exchanged atoms are rescaled", tol=1e-9)
    cx.eq(s.nm.kin, kin0, "kinetic energy is kept", tol=1e-8)
    cx.eq(s.motion.ealc, 0.25 - dE, "spring energy change is accounted for", tol=1e-8)
    cx.eq(s.ensemble.econs, E0, "conserved quantity is continuous", tol=1e-8)


@harness(params=[dict(nb=1, ntries=1), dict(nb=2, ntries=1), dict(nb=2, ntries=1, same=True), dict(nb=2, ntries=1, names=["H", "D", "T"], listed=("H", "D", "T")), dict(nb=1, ntries=2), dict(nb=2, ntries=2), dict(nb=3, ntries=1)], bounds="1-2 attempts", witnesses=1, limit=120, max_paths=2000)
def swap(cx, nb, ntries, names=NAMES, listed=("H", "D"), same=False):
    """atom swap: accepted with the Boltzmann factor of the whole change in
    energy; positions of the pair change places, all else stays, forces are
    those of the new positions, the conserved quantity does not jump"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    C = cx.mod("ipi.utils.units").Constants
    M = cx.mod("ipi.engine.motion.atomswap").AtomSwap
    s = system(cx, M, nb, ntries, names, listed, masses=np.asarray([2.0, 16.0, 2.0]) if same else None)
    q0, p0, m0, n0 = D(s.beads.q).copy(), D(s.beads.p).copy(), D(s.beads.m).copy(), list(D(s.beads.names))
    E0, kin0 = s.ensemble.econs, s.nm.kin
    if cx.bool("moved"):
        # the cell changed since the motion was set up
        s.cell.h = np.identity(3) * 18.0
        E0 = s.ensemble.econs
    s.motion.step(1)
    ax = [a for a in range(3) if n0[a] in listed]
    q = q0.copy()
    betaP = 1.0 / (C.kb * s.ensemble.temp * nb)
    picks = list(s.mc.picks)
    dE = 0.0
    k = 0
    moved = False
    for at, u in s.mc.us:
        i = ax[picks[k]]
        j = ax[picks[at - 1]]
        cx.check(n0[i] != n0[j], "only different species are exchanged")
        k = at
        spr = springs(cx, s, q)
        qn = q.copy()
        qn[:, 3 * i : 3 * i + 3] = q[:, 3 * j : 3 * j + 3]
        qn[:, 3 * j : 3 * j + 3] = q[:, 3 * i : 3 * i + 3]
        d = m0[i] * spr[j] + m0[j] * spr[i] - m0[i] * spr[i] - m0[j] * spr[j]
        d = d + pot(cx, s, qn) - pot(cx, s, q)
        acc = decide(cx, np.exp(-betaP * d), u)
        if acc:
            dE = dE + d
            q = qn
            moved = True
    cx.check(len(s.mc.us) == ntries, "every attempt is decided")
    cx.eq(D(s.beads.q), q, "positions of exactly the accepted pairs change places")
    cx.check(list(D(s.beads.names)) == n0, "names stay")
    cx.eq(D(s.beads.m), m0, "masses stay")
    cx.eq(D(s.beads.p), p0, "momenta stay")
    cx.eq(s.nm.kin, kin0, "kinetic energy is kept")
    cx.eq(s.motion.ealc, 0.25 - dE, "energy change is accounted for", tol=1e-8)
    cx.eq(s.ensemble.econs, E0, "conserved quantity is continuous", tol=1e-8)
    # forces after the step are those of the positions
    F = np.zeros(q.shape, float)
    for b in range(nb):
        F[b] = s.fflist["fa"].fun(q[b], D(s.cell.h))[1] + 1.5 * s.fflist["fb"].fun(q[b], D(s.cell.h))[1]
    cx.eq(D(s.forces.f), F, "forces are those of the present positions", tol=1e-9)
    cx.eq(s.forces.pot, pot(cx, s, q), "potential is that of the present positions", tol=1e-9)


@harness(params=[dict(which=w) for w in ("alchemy", "swap")], bounds="no attempt drawn; empty list of species", witnesses=1)
def nothing(cx, which):
    """no attempts: nothing changes; species that are not there are refused"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    M = cx.mod("ipi.engine.motion.alchemy").AlchemyMC if which == "alchemy" else cx.mod("ipi.engine.motion.atomswap").AtomSwap
    s = system(cx, M, 2, 0)
    q0, p0, m0, e0 = D(s.beads.q).copy(), D(s.beads.p).copy(), D(s.beads.m).copy(), s.ensemble.econs
    s.motion.step(1)
    cx.eq(D(s.beads.q), q0, "positions stay")
    cx.eq(D(s.beads.p), p0, "momenta stay")
    cx.eq(D(s.beads.m), m0, "masses stay")
    cx.eq(s.ensemble.econs, e0, "conserved quantity stays")
    s = system(cx, M, 2, 1, listed=("Xe",), tag="n")
    bad = False
    try:
        s.motion.step(1)
    except ValueError:
        bad = True
    cx.check(bad, "an exchange list without atoms is refused")
