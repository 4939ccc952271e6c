"""Molecular-dynamics integrators: splitting, multiple time stepping, reversibility."""

from symx.base import harness
from props.common import *

PRELOAD = PRE
BOUNDS = "1-2 atoms, 1-3 beads, 1-3 force levels with up to 3 substeps; arbitrary (uninterpreted) forces, any phase-space point, masses and time step; one step."


def coeffs(nlev):
    """two components with different multiple-time-step weights"""
    if nlev == 1:
        return [[1.0], [1.0]]
    if nlev == 2:
        return [[1.0, 0.0], [0.25, 0.75]]
    return [[1.0, 0.0, 0.0], [0.0, 0.5, 0.5]]


def thermo(cx, c):
    Th = cx.mod("ipi.engine.thermostats").Thermostat
    D = cx.mod("ipi.utils.depend").dstrip

    class Scale(Th):
        n = 0

        def step(self):
            self.n += 1
            self.p = D(self.p) * c

    return Scale()


def sysm(cx, nb, nmts, mode="nve", splitting="obabo", prop="exact", thermostat=None, bias=False, hw=None, open_paths=(), fix=None, fixcom=False, nmmode="rpmd", na=1, dt=None, masses=None):
    np = cx.np
    cf = coeffs(len(nmts))
    ffs = {"fa": uf_ff(cx, na, "fa"), "fb": uf_ff(cx, na, "fb")}
    w = cx.real("wgt", 0.5, 2)
    comps = [component(cx, "fa", mts=cf[0]), component(cx, "fb", mts=cf[1], weight=w)]
    ek = {}
    if bias:
        ffs["bias"] = uf_ff(cx, na, "bias")
        ek = dict(bcomponents=[component(cx, "bias")], bweights=np.asarray([cx.real("bw", 0.5, 2)]))
    if hw is not None:
        ek["hweights"] = np.asarray(hw)
    dt = dt if dt is not None else cx.real("dt", 0.125, 0.5)
    mot = cx.mod("ipi.engine.motion").Dynamics(timestep=dt, mode=mode, splitting=splitting, nmts=np.asarray(nmts), thermostat=thermostat, fixcom=fixcom, fixatoms_dof=np.zeros(0, int) if fix is None else np.asarray(fix))
    beads = make_beads(cx, nb, na, masses=masses)
    s = build(cx, nb, na, motion=mot, temp=1.0, ffs=ffs, comps=comps, ens_kw=ek, beads=beads, nm_kw=dict(propagator=prop, open_paths=list(open_paths), mode=nmmode, freqs=[1.5] if nmmode != "rpmd" else None))
    s.dt, s.w, s.cf, s.bw, s.hw = dt, w, cf, (ek.get("bweights") if bias else None), hw
    return s


class Ref:
    """textbook reversible multiple-time-step integrator on plain arrays"""

    def __init__(self, cx, s, nmts, prop="exact"):
        D = cx.mod("ipi.utils.depend").dstrip
        self.cx, self.s, self.n, self.prop = cx, s, list(nmts), prop
        self.np = cx.np
        self.q, self.p = D(s.beads.q).copy(), D(s.beads.p).copy()
        self.m3 = D(s.beads.m3).copy()
        self.h = D(s.cell.h).copy()
        self.nb = s.beads.nbeads
        self.na = s.beads.natoms
        self.dt = s.dt

    def call(self, name):
        f = self.np.zeros(self.q.shape, float)
        for b in range(self.nb):
            f[b] = self.cx.ufunc(name, list(self.q[b]) + list(self.h.reshape(-1)), 3 * self.na + 10, -2, 2)[1 : 3 * self.na + 1]
        return f

    def force(self, lev):
        s = self.s
        f = s.cf[0][lev] * self.call("fa") + s.cf[1][lev] * s.w * self.call("fb")
        if lev == 0 and s.bw is not None:
            f = f + s.bw[0] * self.call("bias")
        if lev == 0 and s.hw is not None:
            f = f + (s.hw[0] - 1) * self.call("fa") + (s.hw[1] - 1) * s.w * self.call("fb")
        return f

    def kick(self, lev, h):
        self.p = self.p + h * self.force(lev)

    def drift(self, h):
        np = self.np
        if self.nb == 1:
            self.q = self.q + h * self.p / self.m3
            return
        T = self.cx.mod("ipi.utils.nmtransform")
        U = T.mk_nm_matrix(self.nb)
        lam = T.nm_eva(self.nb)
        q, p = np.dot(U, self.q), np.dot(U, self.p)
        q[0] = q[0] + h * p[0] / self.m3[0]
        C = self.cx.mod("ipi.utils.units").Constants
        wn = self.s.temp * self.nb * C.kb / C.hbar
        for k in range(1, self.nb):
            w = wn * lam[k]
            m = self.m3[0]
            if self.prop == "exact":
                c, sn = np.cos(w * h), np.sin(w * h)
                q[k], p[k] = c * q[k] + sn / w * p[k] / m, c * p[k] - m * w * sn * q[k]
            else:
                a = (w * h / 2) ** 2
                q[k], p[k] = ((1 - a) * q[k] + h * p[k] / m) / (1 + a), ((1 - a) * p[k] - h * w * w * m * q[k]) / (1 + a)
        self.q, self.p = np.dot(U.T, q), np.dot(U.T, p)

    def respa(self, lev, h, seq):
        hl = h / self.n[lev]
        for i in range(self.n[lev]):
            seq.append(("B", lev, 0.5 * hl))
            if lev == len(self.n) - 1:
                # the position update is made of two equal halves
                seq.append(("A", 0.5 * hl))
                seq.append(("A", 0.5 * hl))
            else:
                self.respa(lev + 1, hl, seq)
            seq.append(("B", lev, 0.5 * hl))

    def step(self, splitting=None, c=None):
        seq = []
        self.respa(0, self.dt, seq)
        if splitting == "obabo":
            seq = [("O",)] + seq + [("O",)]
        elif splitting == "baoab":
            k = len(seq) // 2
            seq = seq[:k] + [("O",)] + seq[k:]
        for x in seq:
            if x[0] == "B":
                self.kick(x[1], x[2])
            elif x[0] == "A":
                self.drift(x[1])
            else:
                self.p = self.p * c


NMTS = [[1], [2], [3], [1, 1], [1, 2], [2, 1], [2, 2], [3, 2], [1, 3], [1, 2, 2], [1, 1, 1], [2, 1, 2]]


@harness(params=[dict(nb=1, nmts=n) for n in NMTS] + [dict(nb=2, nmts=n, prop=p) for n in ([1], [2], [1, 2]) for p in ("exact", "cayley")] + [dict(nb=3, nmts=[1], prop="exact")]
         + [dict(nb=1, nmts=[1], bias=True), dict(nb=1, nmts=[1, 2], bias=True), dict(nb=2, nmts=[1], bias=True), dict(nb=2, nmts=[1], na=2, prop="exact"), dict(nb=1, nmts=[2, 2], na=2), dict(nb=1, nmts=[1], hw=[1.0, 0.5]), dict(nb=1, nmts=[1], hw=[1.0, 0.5], bias=True)],
         thorough=[dict(nb=1, nmts=n) for n in ([3, 3], [2, 3], [4], [2, 2, 2])] + [dict(nb=3, nmts=[2], prop="exact"), dict(nb=4, nmts=[1], prop="exact")],
         bounds="one step, any forces", witnesses=1, limit=120)
def nve_step(cx, nb, nmts, prop="exact", bias=False, hw=None, na=1):
    """a constant-energy step is exactly the symmetric multiple-time-step
    splitting of kicks and free path evolution"""
    s = sysm(cx, nb, nmts, prop=prop, bias=bias, hw=hw, na=na)
    D = cx.mod("ipi.utils.depend").dstrip
    r = Ref(cx, s, nmts, prop)
    r.step()
    t0 = s.ensemble.time
    s.motion.step()
    cx.eq(D(s.beads.q), r.q, "positions after a step", tol=1e-7)
    cx.eq(D(s.beads.p), r.p, "momenta after a step", tol=1e-7)
    cx.eq(s.ensemble.time, t0 + s.dt, "clock advances by the time step")


@harness(params=[dict(nb=b, nmts=n, splitting=sp) for sp in ("obabo", "baoab") for b, n in [(1, [1]), (1, [2]), (1, [3]), (1, [1, 2]), (1, [2, 1]), (1, [3, 2]), (1, [1, 1, 3]), (2, [1]), (2, [2])]],
         bounds="one step, any forces; the thermostat is an arbitrary rescaling", witnesses=1, limit=120)
def nvt_step(cx, nb, nmts, splitting):
    """a constant-temperature step places the thermostat at the two ends or in
    the middle of the symmetric splitting"""
    c = cx.real("c", 0.5, 1.5)
    th = thermo(cx, c)
    s = sysm(cx, nb, nmts, mode="nvt", splitting=splitting, thermostat=th)
    D = cx.mod("ipi.utils.depend").dstrip
    r = Ref(cx, s, nmts)
    r.step(splitting, c)
    s.motion.step()
    cx.eq(D(s.beads.q), r.q, "positions after a step", tol=1e-7)
    cx.eq(D(s.beads.p), r.p, "momenta after a step", tol=1e-7)
    cx.eq(th.dt * th.n, s.dt, "thermostat covers one time step per step")


REV = [("nve", 1, [1]), ("nve", 1, [3]), ("nve", 1, [2, 2]), ("nve", 1, [3, 1]), ("nve", 2, [1]), ("nve", 2, [2]), ("nvt-cc", 2, [1]), ("nvt-cc", 3, [1]), ("nvt", 2, [1]), ("sc", 2, [1]), ("sc", 2, [2])]


@harness(params=[dict(mode=m, nb=b, nmts=n, splitting=sp) for m, b, n in REV for sp in (("obabo", "baoab") if m in ("nvt", "sc") else ("obabo",))]
         + [dict(mode="nve", nb=2, nmts=[1], splitting="obabo", nmmode="pa-cmd"), dict(mode="nve", nb=2, nmts=[1], splitting="obabo", open_paths=[1], na=2), dict(mode="nve", nb=2, nmts=[1], splitting="obabo", prop="bab")],
         bounds="one step forwards, momenta reversed, one step back; any forces", witnesses=1, limit=120)
def reversible(cx, mode, nb, nmts, splitting, nmmode="rpmd", open_paths=(), prop="exact", na=1):
    """without a thermostat a step followed by its time reverse is the identity"""
    s = sysm(cx, nb, nmts, mode=mode, splitting=splitting, open_paths=open_paths, nmmode=nmmode, prop=prop, na=na)
    D = cx.mod("ipi.utils.depend").dstrip
    if mode == "nvt-cc":
        s.nm.pnm[0, :] = 0.0
    q0, p0 = D(s.beads.q).copy(), D(s.beads.p).copy()
    s.motion.step()
    s.beads.p = -D(s.beads.p)
    s.motion.step()
    cx.eq(D(s.beads.q), q0, "positions retraced", tol=1e-7)
    cx.eq(D(s.beads.p), -p0, "momenta retraced", tol=1e-7)


@harness(params=[dict(what=w, nmts=n) for w in ("dt", "m", "temp", "nmts") for n in ([1], [1, 2])], bounds="a step, a change of time step, masses, temperature or substeps, a step", witnesses=1, limit=120)
def follows_changes(cx, what, nmts):
    """a change of time step, masses, temperature or number of substeps between
    steps takes full effect"""
    nb = 1 if what != "temp" else 2
    s = sysm(cx, nb, nmts)
    D = cx.mod("ipi.utils.depend").dstrip
    s.motion.step()
    if what == "dt":
        s.dt = cx.real("dt2", 0.125, 0.5)
        s.motion.dt = s.dt
    elif what == "m":
        s.beads.m = cx.reals("m2", 1, 0.5, 2)
    elif what == "temp":
        s.temp = 2.0
        s.ensemble.temp = s.temp
    else:
        nmts = [k + 1 for k in nmts]
        s.motion.nmts = cx.np.asarray(nmts)
    s.beads.q = cx.reals("q2", (nb, 3))
    s.beads.p = cx.reals("p2", (nb, 3))
    r = Ref(cx, s, nmts)
    r.step()
    s.motion.step()
    cx.eq(D(s.beads.q), r.q, "positions after a change", tol=1e-7)
    cx.eq(D(s.beads.p), r.p, "momenta after a change", tol=1e-7)


@harness(params=[dict(nb=b) for b in (2, 3)], bounds="one step, any forces", witnesses=1)
def constrained_centroid(cx, nb):
    """with the centroid constrained, centroids stay put, centroid momenta are
    zero, and the kinetic energy removed is booked"""
    c = cx.real("c", 0.5, 1.5)
    th = thermo(cx, c)
    s = sysm(cx, nb, [1], mode="nvt-cc", thermostat=th)
    D = cx.mod("ipi.utils.depend").dstrip
    q0 = D(s.beads.qc).copy()
    s.motion.step()
    cx.eq(D(s.beads.qc), q0, "centroids do not move")
    cx.eq(D(s.nm.pnm)[0], 0.0, "centroid momenta vanish")
