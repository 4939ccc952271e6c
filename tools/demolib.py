"""Small in-process i-PI systems for demonstrations (no sockets, no files)."""
import os
import sys

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import numpy as np
from ipi.engine.beads import Beads
from ipi.engine.cell import Cell
from ipi.engine.ensembles import Ensemble
from ipi.engine.forces import Forces, ForceComponent
from ipi.engine.normalmodes import NormalModes
from ipi.engine.motion import Dynamics
from ipi.engine.thermostats import *
from ipi.utils.depend import dstrip, dpipe
from ipi.utils.prng import Random


class Ev:
    def wait(self, timeout=None):
        return True


class Req(dict):
    _event_done = Ev()

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


class FF:
    """fun(q, h) -> pot, force, virial"""

    def __init__(self, fun, name="ff"):
        self.fun, self.name, self.latency, self.ncalls = fun, name, 0.0, 0
        self.offset, self.active, self.dopbc = 0.0, None, False

    def queue(self, atoms, cell, reqid=-1, template=None):
        self.ncalls += 1
        u, f, v = self.fun(dstrip(atoms.q).copy(), dstrip(cell.h).copy())
        return Req(status="Done", result=[u, f, v, {"raw": ""}], id=reqid, t_queued=0.0, t_dispatched=0.0, t_finished=0.0)

    def release(self, request, lock=True):
        pass

    def start(self):
        pass


def harm(k, name="ff"):
    def fun(q, h):
        f = -k * q
        v = np.zeros((3, 3))
        for i in range(len(q) // 3):
            v += np.triu(np.outer(q[3 * i : 3 * i + 3], f[3 * i : 3 * i + 3]))
        return 0.5 * k * np.dot(q, q), f, v

    return FF(fun, name)


class S:
    pass


def build(nbeads=1, natoms=1, temp=1.0, ffs=None, comps=None, motion=None, nm_kw={}, ens_kw={}, cell=20.0, seed=3):
    r = np.random.RandomState(seed)
    s = S()
    s.beads = Beads(natoms, nbeads)
    s.beads.m = 0.5 + r.rand(natoms)
    s.beads.q = r.randn(nbeads, 3 * natoms)
    s.beads.p = r.randn(nbeads, 3 * natoms)
    s.beads.names[:] = "H"
    s.cell = Cell(h=np.eye(3) * cell)
    s.ensemble = Ensemble(temp=temp, **ens_kw)
    s.nm = NormalModes(**nm_kw)
    s.ffs = ffs or {"ff": harm(1.3)}
    s.forces = Forces()
    comps = comps or [ForceComponent(k, mts_weights=np.asarray([1.0])) for k in s.ffs]
    s.forces.bind(s.beads, s.cell, comps, s.ffs, open_paths=s.nm.open_paths, output_maker=None)
    s.motion = motion or Dynamics(timestep=0.2, mode="nve")
    s.nm.bind(s.ensemble, s.motion, beads=s.beads, forces=s.forces)
    s.ensemble.bind(s.beads, s.nm, s.cell, s.forces, s.ffs, None)
    s.prng = Random(seed=12)
    s.motion.bind(s.ensemble, s.beads, s.nm, s.cell, s.forces, s.prng, None)
    dpipe(s.nm._omegan2, s.forces._omegan2)
    return s


def same(a, b, what, tol=1e-8):
    d = np.max(np.abs(np.asarray(dstrip(a), float) - np.asarray(dstrip(b), float)))
    if not d <= tol:
        print("DIFFERENT:", what, d)
        sys.exit(1)
