"""Initialization of positions, momenta, masses, labels and cell."""

from symx.base import harness
from props.common import *

PRELOAD = PRE + ["ipi.engine.initializer", "ipi.engine.thermostats"]
BOUNDS = "2 atoms, 1-4 beads in the simulation, 1-4 frames in the file; all values, masses and temperatures arbitrary within boxes; one unit per dimension."

UNITS = {"length": "angstrom", "momentum": "", "velocity": "m/s", "mass": "dalton", "temperature": "kelvin"}


def simul(cx, nat=0, nb=0, mode="rpmd", temp=0.5, masses=None, prng=None, freqs=None):
    np = cx.np
    cx.mod("ipi.utils.messages").verbosity.level = "quiet"
    s = Sys()
    s.beads = cx.mod("ipi.engine.beads").Beads(nat, nb)
    s.cell = make_cell(cx)
    s.ensemble = cx.mod("ipi.engine.ensembles").Ensemble(temp=temp)
    s.nm = cx.mod("ipi.engine.normalmodes").NormalModes(mode=mode, transform_method="matrix", freqs=np.asarray(freqs if freqs is not None else [], float))
    s.prng = prng if prng is not None else cx.prng()
    if nat:
        s.beads.m = masses if masses is not None else np.asarray([1.0, 2.0, 3.0][:nat])
        for i in range(nat):
            s.beads.names[i] = "HCO"[i]
    return s


def factor(cx, dim, unit):
    return cx.mod("ipi.utils.units").unit_to_internal(dim, unit, 1.0)


def item(cx, mode="manual", value="", units="", index=-1, bead=-1):
    return cx.mod("ipi.engine.initializer").InitIndexed(value=value, mode=mode, units=units, index=index, bead=bead)


def run(cx, s, nb, queue):
    cx.mod("ipi.engine.initializer").Initializer(nbeads=nb, queue=queue).init_stage1(s)


def refused(fun):
    try:
        fun()
    except (ValueError, IndexError, TypeError):
        return True
    return False


SEL = [(-1, -1), (1, -1), (-1, 1), (0, 1)]


@harness(params=[dict(kind=k, units=u, index=i, bead=b, nb=nb) for k, u in (("positions", "angstrom"), ("positions", ""), ("momenta", ""), ("velocities", "m/s"), ("velocities", "")) for nb in (1, 2, 3) for i, b in SEL if b < nb and not (nb == 3 and u == "")])
def manual(cx, kind, units, index, bead, nb):
    """a list of numbers ends up on the beads and atoms it is meant for, in its units, and nowhere else"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    m = cx.reals("m", 2, 0.5, 2)
    s = simul(cx, 2, nb, masses=m)
    q0 = cx.reals("q", (nb, 6), -2, 2)
    p0 = cx.reals("p", (nb, 6), -2, 2)
    s.beads.q, s.beads.p = q0.copy(), p0.copy()
    nbx = 1 if bead >= 0 else nb
    nx = 3 if index >= 0 else 6
    v = cx.reals("v", nbx * nx, -2, 2)
    keep = v.copy()
    run(cx, s, nb, [(kind, item(cx, value=v, units=units, index=index, bead=bead))])
    cx.eq(v.reshape(-1), keep, "the input is not modified")
    dim = {"positions": "length", "momenta": "momentum", "velocities": "velocity"}[kind]
    c = factor(cx, dim, units)
    new = keep.reshape(nbx, nx) * c
    want = {"q": q0.copy(), "p": p0.copy()}
    w = want["q" if kind == "positions" else "p"]
    for j, b in enumerate([bead] if bead >= 0 else range(nb)):
        for k, i in enumerate(range(3 * index, 3 * index + 3) if index >= 0 else range(6)):
            w[b, i] = new[j, k] * (m[i // 3] if kind == "velocities" else 1.0)
    cx.eq(dep.dstrip(s.beads.q), want["q"], "positions")
    cx.eq(dep.dstrip(s.beads.p), want["p"], "momenta")
    cx.eq(dep.dstrip(s.beads.m), m, "masses")


class Frames:
    """a file of frames with arbitrary contents, read with the requested dimension and units"""

    def __init__(self, cx, n, nat, tag="x"):
        np = cx.np
        self.cx, self.n, self.nat = cx, n, nat
        self.x = cx.reals(tag, (n, 3 * nat), -2, 2)
        self.m = cx.reals(tag + "m", nat, 0.5, 2)
        self.asked = []

    def __call__(self, mode, filename, dimension="length", units="automatic", cell_units="automatic"):
        cx, np = self.cx, self.cx.np
        Atoms = cx.mod("ipi.engine.atoms").Atoms
        self.asked.append((dimension, units, cell_units))
        out = []
        for k in range(self.n):
            a = Atoms(self.nat)
            a.q = self.x[k] * factor(cx, dimension, units)
            a.m = self.m
            for i in range(self.nat):
                a.names[i] = "XYZ"[i]
            out.append(a)
        return out, cx.mod("ipi.engine.cell").Cell(h=np.identity(3) * 7.0 * factor(cx, "length", cell_units))


def resized(cx, x, P):
    """the path x with P beads: the lowest cyclic modes are kept"""
    np = cx.np
    C = cx.mod("ipi.utils.nmtransform").nm_rescale(len(x), P)
    return C.b1tob2(x)


@harness(params=[dict(kind=k, n=n, P=P, units=u) for k, u in (("positions", "angstrom"), ("velocities", "m/s"), ("momenta", "")) for n, P in ((1, 1), (1, 3), (2, 2), (2, 3), (3, 1), (3, 2), (1, 4), (4, 2))])
def path_from_file(cx, kind, n, P, units):
    """a path of another number of beads: centroids are kept, one frame is put on every bead; momenta carry the temperature over"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    s = simul(cx, 2, P, masses=cx.reals("m", 2, 0.5, 2))
    F = Frames(cx, n, 2)
    cx.patch(cx.mod("ipi.engine.initializer"), "init_file", F)
    q0, p0 = cx.reals("q", (P, 6), -2, 2), cx.reals("p", (P, 6), -2, 2)
    s.beads.q, s.beads.p = q0.copy(), p0.copy()
    run(cx, s, P, [(kind, item(cx, mode="xyz", value="file", units=units))])
    dim = {"positions": "length", "momenta": "momentum", "velocities": "velocity"}[kind]
    c = factor(cx, dim, units)
    x = F.x * c
    if kind == "velocities":
        x = x * np.asarray([s.beads.m[i // 3] for i in range(6)])
    got = dep.dstrip(s.beads.q if kind == "positions" else s.beads.p)
    sc = 1.0 if kind == "positions" else (P / n) ** 0.5
    cx.eq(got.sum(axis=0) * (1.0 / P), x.sum(axis=0) * (sc / n), "the centroid")
    if n == 1:
        for b in range(P):
            cx.eq(got[b], x[0] * sc, "a single frame is put on every bead")
    if n == P:
        cx.eq(got, x, "the same number of beads is taken as is")
    back = dep.dstrip(resized(cx, got, n)) if P > n else None
    if back is not None:
        cx.eq(back, x * sc, "no mode of the file is lost when beads are added") if n % 2 == 1 else None
    cx.eq(dep.dstrip(s.beads.p if kind == "positions" else s.beads.q), p0 if kind == "positions" else q0, "nothing else changes")


@harness(params=[dict(kind=k, bead=b, P=P) for k in ("positions", "velocities", "momenta") for P, b in ((2, 0), (3, 2))])
def bead_from_file(cx, kind, bead, P):
    """one frame read into one bead leaves the others alone and is not rescaled"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    s = simul(cx, 2, P, masses=cx.reals("m", 2, 0.5, 2))
    F = Frames(cx, 1, 2)
    cx.patch(cx.mod("ipi.engine.initializer"), "init_file", F)
    q0, p0 = cx.reals("q", (P, 6), -2, 2), cx.reals("p", (P, 6), -2, 2)
    s.beads.q, s.beads.p = q0.copy(), p0.copy()
    run(cx, s, P, [(kind, item(cx, mode="xyz", value="file", bead=bead))])
    want = {"q": q0.copy(), "p": p0.copy()}
    for i in range(6):
        want["q" if kind == "positions" else "p"][bead, i] = F.x[0, i] * (s.beads.m[i // 3] if kind == "velocities" else 1.0)
    cx.eq(dep.dstrip(s.beads.q), want["q"], "positions")
    cx.eq(dep.dstrip(s.beads.p), want["p"], "momenta")


@harness(params=[dict(n=n, P=P, units=u, cu=c) for n, P, u, c in ((1, 2, "angstrom", "automatic"), (2, 2, "", "angstrom"), (3, 2, "angstrom", "angstrom"))])
def whole_file(cx, n, P, units, cu):
    """a file initializes positions, masses, labels and cell of a system whose size was not known"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    I = cx.mod("ipi.inputs.initializer")
    ini = I.InputInitializer()
    xml = cx.mod("ipi.utils.io.inputs.io_xml")
    txt = "<initialize nbeads='%d'><file mode='xyz' units='%s' cell_units='%s'>some.xyz</file></initialize>" % (P, units or "atomic_unit", cu)
    ini.parse(xml.xml_parse_string(txt).fields[0][1])
    I2 = ini.fetch()
    F = Frames(cx, n, 2)
    cx.patch(cx.mod("ipi.engine.initializer"), "init_file", F)
    s = simul(cx)
    I2.init_stage1(s)
    cx.check(s.beads.nbeads == P and s.beads.natoms == 2, "size")
    c = factor(cx, "length", units)
    q = dep.dstrip(s.beads.q)
    cx.eq(q.sum(axis=0) * (1.0 / P), F.x.sum(axis=0) * (c / n), "centroids in the units of the file")
    cx.eq(dep.dstrip(s.beads.m), F.m, "masses")
    cx.check([str(x) for x in s.beads.names] == ["X", "Y"], "labels")
    cx.eq(dep.dstrip(s.cell.h), np.identity(3) * (7.0 * factor(cx, "length", cu)), "cell in its own units")
    cx.eq(dep.dstrip(s.beads.p), np.zeros((P, 6), float), "no momenta")


@harness(params=[dict(P=P, mode=m, temp=t, index=i) for P, m, t, i in ((1, "rpmd", True, -1), (2, "rpmd", True, -1), (3, "rpmd", False, -1), (2, "rpmd", True, 1), (2, "pa-cmd", True, -1), (3, "pa-cmd", True, -1), (2, "pa-cmd", True, 0), (3, "rpmd", True, 0), (4, "rpmd", True, -1))])
def thermal(cx, P, mode, temp, index):
    """thermal momenta: every mode gets an independent normal deviate of variance mass x beads x temperature"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    T = cx.real("temp", 0.25, 2)
    m = cx.reals("m", 2, 0.5, 2)
    freqs = [2.0] if mode == "pa-cmd" else []
    pr = cx.prng()
    s = simul(cx, 2, P, mode=mode, temp=0.5, masses=m, prng=pr, freqs=freqs)
    p0 = cx.reals("p", (P, 6), -2, 2)
    s.beads.p = p0.copy()
    k = factor(cx, "temperature", "kelvin")
    val = T / k if temp else -1.0
    if not temp:
        T = 0.5
    run(cx, s, P, [("velocities", item(cx, mode="thermal", value=val, units="kelvin" if temp else "", index=index))])
    nm = cx.mod("ipi.engine.normalmodes").NormalModes(mode=mode, transform_method="matrix", freqs=np.asarray(freqs, float))
    nm.bind(s.ensemble, cx.mod("ipi.engine.motion").Motion(), s.beads)
    g = [v for kk, v in pr.log]
    ix = list(range(3 * index, 3 * index + 3)) if index >= 0 else list(range(6))
    cx.check(len(g) == P * len(ix), "one normal deviate per degree of freedom")
    pnm = dep.dstrip(nm.pnm)
    m3 = dep.dstrip(nm.dynm3)
    got = [pnm[b, i] * pnm[b, i] for b in range(P) for i in ix]
    want = [g[b * len(ix) + j] * g[b * len(ix) + j] * m3[b, i] * P * T for b in range(P) for j, i in enumerate(ix)]
    for a, b in zip(got, want):
        cx.eq(a, b, "a mode gets its own deviate with its dynamical mass and the requested temperature")
    p = dep.dstrip(s.beads.p)
    for i in range(6):
        if i not in ix:
            cx.eq(p[:, i], p0[:, i], "other atoms keep their momenta")


@harness(params=[dict(P=P, index=i, units=u) for P, i, u in ((1, -1, "dalton"), (2, 1, "dalton"), (2, -1, ""))])
def new_masses(cx, P, index, units):
    """changing masses after the momenta keeps the kinetic energy of every degree of freedom; positions stay"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    m = cx.reals("m", 2, 0.5, 2)
    s = simul(cx, 2, P, masses=m)
    q0, p0 = cx.reals("q", (P, 6), -2, 2), cx.reals("p", (P, 6), -2, 2)
    s.beads.q, s.beads.p = q0.copy(), p0.copy()
    c = factor(cx, "mass", units)
    new = cx.reals("new", 1 if index >= 0 else 2, 0.5, 2)
    run(cx, s, P, [("masses", item(cx, value=new.copy(), units=units, index=index))])
    want = m.copy()
    for i in range(2):
        if index < 0 or i == index:
            want[i] = new[0 if index >= 0 else i] * c
    cx.eq(dep.dstrip(s.beads.m), want, "masses in their units")
    p = dep.dstrip(s.beads.p)
    for b in range(P):
        for i in range(6):
            cx.eq(p[b, i] * p[b, i] * m[i // 3], p0[b, i] * p0[b, i] * want[i // 3], "kinetic energies are kept")
            cx.check(p[b, i] * p0[b, i] >= 0, "directions are kept")
    cx.eq(dep.dstrip(s.beads.q), q0, "positions are kept")


@harness(params=[dict(units=u) for u in ("", "angstrom")])
def manual_cell(cx, units):
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    s = simul(cx, 2, 1)
    h = np.zeros((3, 3), float)
    for i in range(3):
        for j in range(i, 3):
            h[i, j] = cx.real("h%d%d" % (i, j), 4 if i == j else -1, 6 if i == j else 1)
    run(cx, s, 1, [("cell", cx.mod("ipi.engine.initializer").InitBase(value=h.reshape(-1).copy(), mode="manual", units=units))])
    cx.eq(dep.dstrip(s.cell.h), h * factor(cx, "length", units), "cell in its units")


@harness()
def refusals(cx):
    """inconsistent requests are refused, they do not change the system silently"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    v = cx.reals("v", 6, -2, 2)
    m = cx.reals("m", 2, 0.5, 2)

    def fresh(nb=2):
        s = simul(cx, 2, nb, masses=m.copy())
        s.beads.q = np.zeros((nb, 6), float) + 0.5
        return s

    for what, queue, nb in (
        ("an atom that does not exist", [("positions", dict(value=v[:3].copy(), index=2, bead=0))], 2),
        ("a bead that does not exist", [("positions", dict(value=v.copy(), bead=2))], 2),
        ("another number of atoms", [("positions", dict(value=v[:3].copy(), bead=0))], 2),
        ("momenta of an atom that does not exist", [("momenta", dict(value=v[:3].copy(), index=5, bead=0))], 2),
        ("the mass of one bead", [("masses", dict(value=m.copy(), bead=0))], 2),
        ("the label of one bead", [("labels", dict(value=np.asarray(["A", "B"]), bead=0))], 2),
        ("the temperature of one bead", [("velocities", dict(value=0.5, mode="thermal", bead=0))], 2),
        ("a mass that is not positive", [("masses", dict(value=m * 0.0))], 2),
        ("an empty label", [("labels", dict(value=np.asarray(["A", ""])))], 2),
    ):
        s = fresh(nb)
        cx.check(refused(lambda: run(cx, s, nb, [(k, item(cx, **d)) for k, d in queue])), what + " is refused")
    for what, queue in (
        ("velocities before masses", [("positions", dict(value=v.copy())), ("velocities", dict(value=v.copy())), ("masses", dict(value=m.copy())), ("labels", dict(value=np.asarray(["A", "B"])))]),
        ("thermal velocities before masses", [("positions", dict(value=v.copy())), ("velocities", dict(value=0.5, mode="thermal")), ("masses", dict(value=m.copy())), ("labels", dict(value=np.asarray(["A", "B"])))]),
        ("masses before the number of atoms", [("masses", dict(value=m.copy())), ("positions", dict(value=v.copy())), ("labels", dict(value=np.asarray(["A", "B"])))]),
        ("positions without masses", [("positions", dict(value=v.copy())), ("labels", dict(value=np.asarray(["A", "B"])))]),
        ("positions without labels", [("positions", dict(value=v.copy())), ("masses", dict(value=m.copy()))]),
        ("no positions", []),
    ):
        s = simul(cx)
        cx.check(refused(lambda: run(cx, s, 1, [(k, item(cx, **d)) for k, d in queue])), what + " is refused")


@harness()
def gle_momenta(cx):
    """the auxiliary momenta of a GLE thermostat are those that were given"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    A = np.asarray([[1.0, 0.5], [-0.5, 0.75]])
    th = cx.mod("ipi.engine.thermostats").ThermoGLE(temp=0.5, dt=0.25, A=A, C=np.identity(2) * 0.5)
    th.bind(beads=make_beads(cx, 1, 2, masses=np.ones(2)), prng=cx.prng())
    s = Sys()
    s.motion = Stub(thermostat=th)
    s.ensemble = cx.mod("ipi.engine.ensembles").Ensemble(temp=0.5)
    n = th.s.size
    v = cx.reals("s", n, -2, 2)
    cx.mod("ipi.engine.initializer").Initializer(nbeads=1, queue=[("gle", item(cx, value=v.copy()))]).init_stage2(s)
    cx.eq(dep.dstrip(th.s).reshape(-1), v, "auxiliary momenta")
    cx.check(refused(lambda: cx.mod("ipi.engine.initializer").Initializer(nbeads=1, queue=[("gle", item(cx, value=v[: n - 1].copy()))]).init_stage2(s)), "another number of momenta is refused")
