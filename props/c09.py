"""Constraints on centre of mass, atoms and centroids during molecular dynamics."""

from symx.base import harness
from props.common import *
from props.c06 import coeffs

PRELOAD = PRE
BOUNDS = "2 atoms with distinct masses, 1-3 beads, 1-2 force levels, two consecutive steps, arbitrary (uninterpreted) forces and arbitrary thermostat noise; any phase-space point."


def noisy(cx, s_shape):
    Th = cx.mod("ipi.engine.thermostats").Thermostat
    D = cx.mod("ipi.utils.depend").dstrip

    class Noise(Th):
        n = 0

        def step(self):
            self.n += 1
            self.p = D(self.p) * 0.5 + cx.reals("xi%d" % self.n, s_shape).reshape(-1)

    return Noise()


def sysc(cx, mode, nb, nmts, splitting, fixcom=False, fix=None, na=2, nmmode="rpmd", open_paths=(), bias=False, prop="exact", masses=None):
    np = cx.np
    cf = coeffs(len(nmts))
    ffs = {"fa": uf_ff(cx, na, "fa"), "fb": uf_ff(cx, na, "fb")}
    comps = [component(cx, "fa", mts=cf[0]), component(cx, "fb", mts=cf[1], weight=0.5)]
    ek = {}
    if bias:
        ffs["bias"] = uf_ff(cx, na, "bias")
        ek = dict(bcomponents=[component(cx, "bias")], bweights=np.asarray([1.5]))
    th = noisy(cx, (nb, 3 * na)) if mode != "nve" else None
    mot = cx.mod("ipi.engine.motion").Dynamics(timestep=0.25, mode=mode, splitting=splitting, nmts=np.asarray(nmts), thermostat=th, fixcom=fixcom, fixatoms_dof=np.zeros(0, int) if fix is None else np.asarray(fix))
    s = build(cx, nb, na, motion=mot, temp=1.0, ffs=ffs, comps=comps, ens_kw=ek, beads=make_beads(cx, nb, na, masses=masses), nm_kw=dict(mode=nmmode, open_paths=list(open_paths), propagator=prop, freqs=[1.5] if nmmode != "rpmd" else None))
    return s


MODES = [(m, b, n, sp) for m in ("nve", "nvt", "sc", "nvt-cc") for b, n in [(1, [1]), (1, [1, 3]), (1, [3, 1]), (2, [1]), (2, [1, 2])] for sp in (("obabo", "baoab") if m in ("nvt", "sc") else ("obabo",)) if not (m == "sc" and (b == 1 or len(n) > 1)) and not (m == "nvt-cc" and (b == 1 or len(n) > 1))]


def pars(extra):
    return [dict(mode=m, nb=b, nmts=n, splitting=sp, **extra) for m, b, n, sp in MODES]


@harness(params=pars({}) + [dict(mode="nvt", nb=3, nmts=[1], splitting="baoab"), dict(mode="nvt", nb=2, nmts=[1], splitting="obabo", bias=True), dict(mode="nve", nb=2, nmts=[3], splitting="obabo")],
         bounds="two steps, any forces and noise", witnesses=1, limit=120)
def centre_of_mass(cx, mode, nb, nmts, splitting, bias=False):
    """with a fixed centre of mass the total momentum is zero after every step
    and the centre of mass does not move"""
    s = sysc(cx, mode, nb, nmts, splitting, fixcom=True, bias=bias, masses=None if nb == 1 else cx.np.asarray([0.5, 2.0]))
    D = cx.mod("ipi.utils.depend").dstrip
    np = cx.np
    m3 = D(s.beads.m3).copy()

    def com():
        return (D(s.beads.q) * m3).reshape(-1, 3).sum(axis=0)

    c0 = com()
    cx.eq(D(s.beads.p).reshape(-1, 3).sum(axis=0), np.zeros(3, float), "no total momentum once bound")
    for i in range(2):
        s.motion.step()
        cx.eq(D(s.beads.p).reshape(-1, 3).sum(axis=0), np.zeros(3, float), "no total momentum after a step", tol=1e-7)
        cx.eq(com(), c0, "centre of mass stays put", tol=1e-7)


@harness(params=pars(dict(fix=[1, 3, 4, 5])) + [dict(mode="nvt", nb=1, nmts=[1], splitting="baoab", fix=[0, 1, 2]), dict(mode="nve", nb=1, nmts=[2, 2], splitting="obabo", fix=[3, 4, 5]), dict(mode="nvt", nb=2, nmts=[1], splitting="obabo", fix=[3, 4, 5], bias=True), dict(mode="nvt", nb=3, nmts=[1], splitting="obabo", fix=[3, 4, 5]),
         dict(mode="nvt", nb=2, nmts=[1], splitting="obabo", fix=[3, 4, 5], nmmode="pa-cmd"), dict(mode="nve", nb=2, nmts=[1], splitting="obabo", fix=[3, 4, 5], open_paths=[1]), dict(mode="nve", nb=2, nmts=[1], splitting="obabo", fix=[3, 4, 5], prop="bab"), dict(mode="nve", nb=2, nmts=[1], splitting="obabo", fix=[0, 4], prop="cayley")],
         bounds="two steps, any forces and noise", witnesses=1, limit=120)
def fixed_atoms(cx, mode, nb, nmts, splitting, fix, bias=False, nmmode="rpmd", open_paths=(), prop="exact"):
    """fixed degrees of freedom never move and carry no momentum after a step"""
    s = sysc(cx, mode, nb, nmts, splitting, fix=fix, bias=bias, nmmode=nmmode, open_paths=open_paths, prop=prop)
    D = cx.mod("ipi.utils.depend").dstrip
    q0 = D(s.beads.q)[:, fix].copy()
    for i in range(2):
        s.motion.step()
        cx.eq(D(s.beads.q)[:, fix], q0, "fixed degrees of freedom do not move")
        cx.eq(D(s.beads.p)[:, fix], 0.0, "fixed degrees of freedom carry no momentum")


@harness(params=[dict(mode="nve", nb=1, nmts=[1]), dict(mode="nve", nb=1, nmts=[1, 2]), dict(mode="nvt", nb=1, nmts=[1])], bounds="two steps, any forces that vanish on the fixed atom", witnesses=1, limit=120)
def free_atoms(cx, mode, nb, nmts, fix=(3, 4, 5)):
    """free atoms move as if the fixed ones were part of an external potential"""
    s = sysc(cx, "nve", nb, nmts, "obabo", fix=list(fix))
    D = cx.mod("ipi.utils.depend").dstrip
    np = cx.np
    q, p = D(s.beads.q).copy(), D(s.beads.p).copy()
    m3 = D(s.beads.m3)
    h = D(s.cell.h)
    cf = coeffs(len(nmts))

    def frc(lev):
        fa = cx.ufunc("fa", list(q[0]) + list(h.reshape(-1)), 16, -2, 2)[1:7]
        fb = cx.ufunc("fb", list(q[0]) + list(h.reshape(-1)), 16, -2, 2)[1:7]
        return cf[0][lev] * fa + 0.5 * cf[1][lev] * fb

    def run(lev, dt):
        d = dt / nmts[lev]
        for i in range(nmts[lev]):
            p[0, :3] += 0.5 * d * frc(lev)[:3]
            if lev == len(nmts) - 1:
                q[0, :3] += d * p[0, :3] / m3[0, :3]
            else:
                run(lev + 1, d)
            p[0, :3] += 0.5 * d * frc(lev)[:3]

    for i in range(2):
        run(0, 0.25)
        s.motion.step()
        cx.eq(D(s.beads.q)[0, :3], q[0, :3], "free atoms follow their own forces", tol=1e-7)
        cx.eq(D(s.beads.p)[0, :3], p[0, :3], "free momenta follow their own forces", tol=1e-7)


@harness(params=[dict(kind=k, nmmode=m) for k in ("com", "atoms") for m in ("rpmd", "pa-cmd")], bounds="any momenta", witnesses=1)
def booked(cx, kind, nmmode):
    """the kinetic energy a constraint removes is booked in the ensemble energy"""
    s = sysc(cx, "nvt", 2, [1], "obabo", fixcom=kind == "com", fix=[1, 3, 4, 5] if kind == "atoms" else None, nmmode=nmmode)
    D = cx.mod("ipi.utils.depend").dstrip
    np = cx.np

    def kin():
        pnm, m = D(s.nm.pnm), D(s.nm.dynm3)
        return (pnm * pnm / m).sum() * 0.5

    s.beads.p = cx.reals("p2", (2, 6))
    k0, e0 = kin(), s.ensemble.eens
    s.motion.integrator.pconstraints()
    cx.eq(s.ensemble.eens - e0, k0 - kin(), "removed kinetic energy is booked")
