"""Dynamics driven by an electric field."""

import threading
from symx.base import harness, Stub
from props.common import *

PRELOAD = PRE + ["ipi.engine.motion.driven_dynamics"]
BOUNDS = "1-2 atoms, 1-3 beads, one or two force levels; arbitrary forces, Born charges (functions of the structure), fields, times and phase-space points; one or two steps."


def thermo(cx, c):
    Th = cx.mod("ipi.engine.thermostats").Thermostat

    class Scale(Th):
        def step(self):
            self.p = vals(cx, self.p) * c

    return Scale()


def field_ff(cx, na, name="ff", neutral=True, text=None):
    """arbitrary forces and Born charges (functions of the structure)"""
    np = cx.np

    def fun(q, h):
        n = 3 * na
        v = cx.ufunc(name, list(q), n + 1 + 9 * (na - 1 if neutral else na) + 3, -2.0, 2.0)
        z = v[n + 1 : len(v) - 3]
        if neutral:
            last = [0.0] * 9
            for a in range(na - 1):
                last = [last[i] - z[9 * a + i] for i in range(9)]
            z = list(z) + last
        z = np.asarray(list(z)).reshape(n, 3)
        return v[0], v[1 : n + 1].copy(), np.zeros((3, 3), float), z, v[len(v) - 3 :]

    def provider(q, h):
        u, f, w, z, mu = fun(q, h)
        x = {"raw": "", "BEC": [list(r) for r in z], "dipole": list(mu)}
        if text is not None:
            x = {"raw": text(q)}
        return u, f, w, x

    return FF(cx, provider, name), fun


def fld(cx, kind):
    np = cx.np
    E = cx.mod("ipi.engine.motion.driven_dynamics").ElectricField
    a = cx.reals("amp", 3, -1, 1)
    w, ph = cx.real("freq", 0.0, 2.0), cx.real("phase", -1, 1)
    if kind == "wave":
        return E(amp=a, freq=w, phase=ph), lambda t: np.cos(w * t + ph) * a
    if kind == "nopeak":
        return E(amp=a, freq=w, phase=ph, peak=0.0, sigma=0.5), lambda t: np.cos(w * t + ph) * a
    if kind == "static":
        return E(amp=a), lambda t: a
    pk, sg = cx.real("peak", 0.25, 2.0), cx.real("sigma", 0.25, 2.0)
    return E(amp=a, freq=w, phase=ph, peak=pk, sigma=sg), lambda t: np.cos(w * t + ph) * np.exp(((t - pk) / sg) ** 2 * (-0.5)) * a


def system(cx, nb, na, mode, field, charges="driver", nmts=(1,), splitting="obabo", fixcom=False, fix=None, text=None, neutral=True):
    np = cx.np
    D = cx.mod("ipi.engine.motion.driven_dynamics")
    s0 = Stub()
    ff, fun = field_ff(cx, na, text=text, neutral=neutral)
    ffs = {"ff": ff}
    comps = None
    if len(nmts) == 2:
        ffs["slow"] = uf_ff(cx, na, "slow", vir=False)
        comps = [component(cx, "ff", mts=[0.0, 1.0]), component(cx, "slow", mts=[1.0, 0.0])]
    ef, E = fld(cx, field)
    Z = None
    if charges == "driver":
        bec = D.BEC(cbec=True, mode="driver")
    else:
        Z = cx.reals("Z", (nb * 3 * na, 3), -1, 1)
        bec = D.BEC(cbec=False, bec=Z.copy(), mode="manual")
    c = cx.real("c", 0.5, 1.0)
    dt = cx.real("dt", 0.125, 0.5)
    kw = dict(timestep=dt, splitting=splitting, nmts=np.asarray(nmts), fixcom=fixcom, fixatoms_dof=np.zeros(0, int) if fix is None else np.asarray(fix))
    q, p = cx.reals("q", (nb, 3 * na), -2, 2), cx.reals("p", (nb, 3 * na), -2, 2)
    m = np.asarray([1.0, 2.0, 4.0][:na])
    names = ["H"] * na
    t0 = cx.real("t0", 0.0, 2.0)

    def mk(mot, q, p):
        s = build(cx, nb, na, ffs=ffs, comps=comps, temp=1.0, motion=mot, beads=make_beads(cx, nb, na, masses=m, q=q.copy(), p=p.copy(), names=names), ens_kw=dict(time=t0))
        return s

    def plain(q, p):
        """one step without the field"""
        mot = cx.mod("ipi.engine.motion").Dynamics(mode=mode, thermostat=thermo(cx, c), **kw)
        s = mk(mot, q, p)
        s.motion.step(0)
        return vals(cx, s.beads.q).copy(), vals(cx, s.beads.p).copy()

    s = mk(D.DrivenDynamics(efield=ef, bec=bec, mode="eda-" + mode, thermostat=thermo(cx, c), **kw), q, p)
    s.plain, s.E, s.dt, s.t0, s.q0, s.p0, s.fun, s.Z, s.na, s.nb, s.m = plain, E, dt, t0, q, p, fun, Z, na, nb, m
    return s


def vals(cx, x):
    return cx.mod("ipi.utils.depend").dstrip(x)


def charges(cx, s, q):
    """Born charges at given positions, per bead (3N x 3)"""
    if s.Z is not None:
        return s.Z.reshape(s.nb, 3 * s.na, 3)
    h = vals(cx, s.cell.h)
    return [s.fun(q[b], h)[3] for b in range(s.nb)]


def kick(cx, s, q, p, t, dt, fixcom=False, fix=None):
    np = cx.np
    Z = charges(cx, s, q)
    e = s.E(t)
    p = p.copy()
    for b in range(s.nb):
        for i in range(3 * s.na):
            p[b, i] = p[b, i] + dt * (Z[b][i][0] * e[0] + Z[b][i][1] * e[1] + Z[b][i][2] * e[2])
    if fixcom:
        M = s.nb * sum(float(x) for x in s.m)
        for a in range(3):
            tot = 0.0
            for b in range(s.nb):
                for i in range(s.na):
                    tot = tot + p[b, 3 * i + a]
            for b in range(s.nb):
                for i in range(s.na):
                    p[b, 3 * i + a] = p[b, 3 * i + a] - tot * (float(s.m[i]) / M)
    if fix is not None:
        for b in range(s.nb):
            for i in fix:
                p[b, i] = 0.0 * p[b, i]
    return p


CFG = (
    [dict(nb=nb, na=na, mode=m, field=f, charges=ch) for nb, na in ((1, 1), (1, 2), (2, 2)) for m in ("nve", "nvt") for f in ("wave", "pulse") for ch in ("driver", "fixed") if not (na == 1 and ch == "driver") and not (nb == 2 and f == "pulse")]
    + [dict(nb=1, na=2, mode="nve", field="wave", charges="driver", nmts=[2, 1]), dict(nb=1, na=2, mode="nvt", field="static", charges="driver", nmts=[1, 2]), dict(nb=2, na=1, mode="nvt", field="static", charges="fixed", splitting="baoab")]
    + [dict(nb=1, na=2, mode="nvt", field="wave", charges="driver", splitting="baoab", fixcom=True), dict(nb=1, na=2, mode="nve", field="static", charges="fixed", fix=[1, 3, 4, 5])]
)


@harness(params=CFG, limit=120)
def driven_step(cx, nb, na, mode, field, charges, **k):
    """a step is half a kick by the field at the start, a step without field, half a kick by the field at the end"""
    s = system(cx, nb, na, mode, field, charges, **k)
    kk = {a: k[a] for a in ("fixcom", "fix") if a in k}
    p = kick(cx, s, s.q0, s.p0, s.t0, s.dt * 0.5, **kk)
    q1, p = s.plain(s.q0, p)
    p1 = kick(cx, s, q1, p, s.t0 + s.dt, s.dt * 0.5, **kk)
    s.motion.step(0)
    cx.eq(s.ensemble.time, s.t0 + s.dt, "time")
    cx.eq(vals(cx, s.beads.q), q1, "positions after a step")
    cx.eq(vals(cx, s.beads.p), p1, "momenta after a step")


@harness(params=[dict(field=f) for f in ("wave", "pulse", "static", "nopeak")])
def field(cx, field):
    """the field is the plane wave times the gaussian envelope, also for several times"""
    np = cx.np
    ef, E = fld(cx, field)
    D = cx.mod("ipi.engine.motion.driven_dynamics")
    ef.bind(D.DrivenDynamics, "eda-nve")
    t = [cx.real("t%d" % i, -1.0, 3.0) for i in range(3)]
    for x in t:
        cx.eq(ef.Efield(x), E(x), "field")
    cx.eq(ef.Efield(np.asarray(t)), np.asarray([E(x) for x in t]), "field at several times")
    ef.bind(D.DrivenDynamics, "nve")
    cx.eq(ef.Efield(t[0]), np.zeros(3), "no field without driven dynamics")


@harness(params=[dict(nb=1, na=2), dict(nb=3, na=2), dict(nb=2, na=3)])
def outputs(cx, nb, na):
    """Born charges, dipoles, field and its forces are those of the current structure and time"""
    np = cx.np
    s = system(cx, nb, na, "nve", "pulse")
    s.simul = Stub()
    s.simul.step = 1
    s._propertylock = threading.Lock()
    P = cx.mod("ipi.engine.properties")
    prop, traj = P.Properties(), P.Trajectories()
    prop.bind(s)
    traj.bind(s)
    for k in range(2):
        q = vals(cx, s.beads.q)
        h = vals(cx, s.cell.h)
        ref = [s.fun(q[b], h) for b in range(nb)]
        e = s.E(s.ensemble.time)
        Z = np.asarray([r[3] for r in ref])
        cx.eq(vals(cx, s.motion.Born_Charges.bec), Z, "Born charges of each bead")
        for i, x in enumerate("xyz"):
            cx.eq(traj["bec" + x][0], Z[:, :, i], "Born charges written")
        mu = np.asarray([r[4] for r in ref])
        cx.eq(prop["dipole"][0], mu.sum(axis=0) / nb, "mean dipole")
        for b in range(nb):
            cx.eq(prop["dipole(%d)" % b][0], mu[b], "dipole of a bead")
        cx.eq(prop["Efield"][0], e, "field")
        want = np.zeros((nb, 3 * na), float)
        for b in range(nb):
            for i in range(3 * na):
                want[b, i] = Z[b, i, 0] * e[0] + Z[b, i, 1] * e[1] + Z[b, i, 2] * e[2]
        cx.eq(traj["Eforces"][0], want, "force of the field")
        v = vals(cx, s.beads.p)
        cur = np.zeros((nb, 3), float)
        for b in range(nb):
            for i in range(3 * na):
                for a in range(3):
                    cur[b, a] = cur[b, a] + Z[b, i, a] * v[b, i] / float(s.m[i // 3])
        cx.eq(s.motion.integrator.dipole_dtime(), cur, "derivative of the dipole")
        cx.eq(s.motion.integrator.dipole_dtime(nb - 1), cur[nb - 1], "derivative of the dipole of a bead")
        # another structure, cell and time
        if k == 0:
            s.beads.q[nb - 1] = cx.reals("q2", 3 * na, -2, 2)
            s.ensemble.time = cx.real("t2", 0.0, 2.0)


@harness(params=[dict(nb=n, unit=u) for n in (1, 2, 3) for u in ("", " [eAng]")], witnesses=1)
def dipole_text(cx, nb, unit):
    """dipoles given as text are those of each bead, in atomic units"""
    np = cx.np
    n = [cx.choice("k%d" % b, [-3, 0, 7]) for b in range(nb)]
    rows = ["%.3f %.2e -%d.5" % (0.125 * k, 1.5 * k, abs(k)) for k in n]
    want = [[0.125 * k, 1.5 * k, -(abs(k) + 0.5)] for k in n]
    calls = []

    def text(q):
        calls.append(1)
        return "Total dipole moment%s : %s" % (unit, rows[(len(calls) - 1) % nb])

    s = system(cx, nb, 1, "nve", "static", "fixed", text=text)
    f = 1.0 / 0.529177210903 if unit else 1.0
    cx.eq(vals(cx, s.motion.Electric_Dipole.dipole), np.asarray(want, float) * f, "dipole of each bead", tol=1e-5)


@harness(params=[dict(what=w) for w in ("ok", "charged", "atoms", "components", "missing", "fixed")])
def refused(cx, what):
    """Born charges of the wrong size, missing or violating charge conservation are refused"""
    np = cx.np
    nb, na = 2, 2
    D = cx.mod("ipi.engine.motion.driven_dynamics")
    z = np.zeros((3 * na, 3), float)
    z[0, 0] = cx.real("z", 0.5, 1.0)
    z[3, 0] = -z[0, 0]
    i, j = cx.choice("i", list(range(3 * na))), cx.choice("j", [0, 1, 2])
    if what == "charged":
        z[i, j] = z[i, j] + cx.real("dz", 0.01, 1.0)
    x = {"raw": "", "BEC": [list(r) for r in z]}
    if what == "atoms":
        x["BEC"] = x["BEC"][:3]
    elif what == "components":
        x["BEC"] = [r[:2] for r in x["BEC"]]
    elif what == "missing":
        del x["BEC"]
    ff = FF(cx, lambda q, h: (0.0, np.zeros(3 * na, float), np.zeros((3, 3), float), x), "ff")
    bec = D.BEC(cbec=True, mode="driver") if what != "fixed" else D.BEC(cbec=False, bec=np.zeros((3 * na + 3, 3)), mode="manual")
    try:
        mot = D.DrivenDynamics(timestep=0.5, mode="eda-nve", efield=D.ElectricField(amp=np.asarray([1.0, 0.0, 0.0])), bec=bec)
        s = build(cx, nb, na, ffs={"ff": ff}, temp=1.0, motion=mot, beads=make_beads(cx, nb, na, masses=np.asarray([1.0, 2.0]), names=["H"] * na))
        s.motion.step(0)
        done = True
    except ValueError:
        done = False
    cx.check(done == (what == "ok"), "charges that cannot be used are refused, others are not")
