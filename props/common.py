"""Shared builders: real i-PI objects wired to stand-in force providers."""

from symx.base import Stub

PRE = ["ipi.engine.beads", "ipi.engine.cell", "ipi.engine.normalmodes", "ipi.engine.ensembles", "ipi.engine.forces", "ipi.engine.motion", "ipi.engine.thermostats", "ipi.engine.barostats"]


class Req(dict):
    class _E:
        def wait(self, timeout=None):
            return True

        def set(self):
            pass

        def is_set(self):
            return True

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self._event_done = Req._E()

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


class FF(Stub):
    """in-process force provider: fun(q, h) -> (pot, f, vir, extras)"""

    def __init__(self, cx, fun, name="ff"):
        self.cx = cx
        self.fun = fun
        self.name = name
        self.latency = 0.0
        self.calls = []
        self.released = []
        self.offset = 0.0
        self.active = None
        self.dopbc = False

    def queue(self, atoms, cell, reqid=-1, template=None):
        dep = self.cx.mod("ipi.utils.depend")
        q = dep.dstrip(atoms.q).copy()
        h = dep.dstrip(cell.h).copy()
        self.calls.append(q)
        u, f, v, x = self.fun(q, h)
        return Req(
            status="Done",
            result=[u, f, v, x],
            id=reqid,
            t_queued=0.0,
            t_dispatched=0.0,
            t_finished=0.0,
        )

    def release(self, request, lock=True):
        self.released.append(request)

    def start(self):
        pass

    def stop(self):
        pass

    def poll(self):
        pass


def uf_ff(cx, natoms, name="ff", vir=True, lim=2.0):
    """arbitrary smooth-or-not potential: values are unconstrained functions of
    the positions and cell (equal arguments, equal results)"""
    np = cx.np

    def fun(q, h):
        n = 3 * natoms
        v = cx.ufunc(name, list(q) + list(h.reshape(-1)), n + 1 + (9 if vir else 0), -lim, lim)
        f = v[1 : n + 1].copy()
        if vir:
            w = v[n + 1 :].reshape(3, 3).copy()
        else:
            w = np.zeros((3, 3), float)
        return v[0], f, w, {"raw": ""}

    return FF(cx, fun, name)


def harm_ff(cx, natoms, k, name="ff"):
    """harmonic wells: pot = 1/2 sum k_i q_i^2, consistent force and virial"""
    np = cx.np

    def fun(q, h):
        f = -(k * q)
        u = (k * q * q).sum() * 0.5
        w = np.zeros((3, 3), float)
        for i in range(natoms):
            for a in range(3):
                for b in range(a, 3):
                    w[a, b] += q[3 * i + a] * f[3 * i + b]
        return u, f, w, {"raw": ""}

    return FF(cx, fun, name)


def make_beads(cx, nbeads, natoms, masses=None, q=None, p=None, names=None, tag=""):
    Beads = cx.mod("ipi.engine.beads").Beads
    b = Beads(natoms, nbeads)
    b.q = q if q is not None else cx.reals(tag + "q", (nbeads, 3 * natoms), -2, 2)
    b.p = p if p is not None else cx.reals(tag + "p", (nbeads, 3 * natoms), -2, 2)
    b.m = masses if masses is not None else cx.reals(tag + "m", natoms, 0.5, 2)
    for i in range(natoms):
        b.names[i] = names[i] if names else "H"
    return b


def make_cell(cx, h=None):
    Cell = cx.mod("ipi.engine.cell").Cell
    np = cx.np
    if h is None:
        h = np.identity(3) * 20.0
    return Cell(h=h)


def component(cx, ffname, nbeads=0, weight=1.0, mts=None, interp=None, name=""):
    FC = cx.mod("ipi.engine.forces").ForceComponent
    return FC(ffname, nbeads=nbeads, weight=weight, name=name or ffname, mts_weights=cx.np.asarray(mts if mts is not None else [1.0]), interpolate_extras=interp)


class Sys(Stub):
    pass


def build(
    cx,
    nbeads=1,
    natoms=1,
    temp=None,
    ffs=None,
    comps=None,
    motion=None,
    nm_kw=None,
    cell=None,
    beads=None,
    ens_kw=None,
    prng=None,
    bind_motion=True,
):
    """wires beads, cell, forces, normal modes, ensemble and a motion exactly as
    System.bind does"""
    np = cx.np
    s = Sys()
    s.beads = beads if beads is not None else make_beads(cx, nbeads, natoms)
    s.cell = cell if cell is not None else make_cell(cx)
    s.temp = temp if temp is not None else cx.real("temp", 0.25, 2.0)
    Ens = cx.mod("ipi.engine.ensembles").Ensemble
    s.ensemble = Ens(temp=s.temp, **(ens_kw or {}))
    NM = cx.mod("ipi.engine.normalmodes").NormalModes
    s.nm = NM(**(nm_kw or {}))
    Forces = cx.mod("ipi.engine.forces").Forces
    if ffs is None:
        ffs = {"ff": uf_ff(cx, s.beads.natoms)}
    s.fflist = ffs
    if comps is None:
        comps = [component(cx, k) for k in ffs]
    s.forces = Forces()
    om = Stub()
    s.forces.bind(s.beads, s.cell, comps, ffs, open_paths=s.nm.open_paths, output_maker=om)
    s.motion = motion if motion is not None else cx.mod("ipi.engine.motion").Motion()
    s.nm.bind(s.ensemble, s.motion, beads=s.beads, forces=s.forces)
    s.ensemble.bind(s.beads, s.nm, s.cell, s.forces, ffs, om)
    s.prng = prng if prng is not None else cx.prng()
    if bind_motion:
        s.motion.bind(s.ensemble, s.beads, s.nm, s.cell, s.forces, s.prng, om)
    cx.mod("ipi.utils.depend").dpipe(s.nm._omegan2, s.forces._omegan2)
    return s
