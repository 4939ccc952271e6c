"""Thermostats: bath energy accounting and fluctuation-dissipation."""

import itertools

from symx.base import harness, ListPrng
from props.common import *

PRELOAD = PRE
BOUNDS = "1-2 atoms, 1-4 beads; momenta, masses, temperature, time step, time constants and noise symbolic in boxes of O(1)."


def mk(cx, kind, nb):
    np = cx.np
    T = cx.mod("ipi.engine.thermostats")
    e0 = cx.real("ethermo0", -2, 2)
    temp = 1.0
    if kind == "langevin":
        return T.ThermoLangevin(temp=temp, dt=0.5, tau=cx.real("tau", 0.5, 4), ethermo=e0)
    if kind == "svr":
        return T.ThermoSVR(temp=temp, dt=0.5, tau=cx.real("tau", 0.5, 4), ethermo=e0)
    if kind in ("pile_l", "pile_g"):
        C = T.ThermoPILE_L if kind == "pile_l" else T.ThermoPILE_G
        return C(temp=temp, dt=0.5, tau=cx.real("tau", 0.5, 4), ethermo=e0, scale=cx.real("scale", 0.5, 2))
    if kind in ("pile_l_ct", "pile_g_ct"):
        C = T.ThermoPILE_L if kind == "pile_l_ct" else T.ThermoPILE_G
        return C(temp=temp, dt=0.5, tau=cx.real("tau", 0.5, 4), ethermo=e0, scale=1.0, pilect=cx.real("pilect", 0.25, 2))
    if kind == "cl":
        return T.ThermoCL(temp=temp, dt=0.5, tau=cx.real("tau", 0.5, 4), intau=cx.real("intau", 0.5, 4), idtau=cx.real("idtau", 0.5, 4), ethermo=e0)
    if kind.startswith("ffl"):
        return T.ThermoFFL(temp=temp, dt=0.5, tau=cx.real("tau", 0.5, 4), ethermo=e0, flip=kind.split("_")[1])
    if kind == "gle":
        return T.ThermoGLE(temp=temp, dt=0.5, A=np.array([[1.0, 0.3], [-0.2, 0.7]]), C=np.array([[1.5, 0.1], [0.1, 0.8]]), ethermo=e0)
    if kind == "gle_eq":
        return T.ThermoGLE(temp=temp, dt=0.5, A=np.array([[1.0, 0.3], [-0.3, 0.7]]), ethermo=e0)
    if kind == "nm_gle":
        A = np.array([[[1.0 + b, 0.3], [-0.2, 0.7]] for b in range(nb)])
        C = np.array([[[1.5 + b, 0.1], [0.1, 0.8]] for b in range(nb)])
        return T.ThermoNMGLE(temp=temp, dt=0.5, A=A, C=C, ethermo=e0)
    if kind == "nm_gleg":
        A = np.array([[[1.0 + b, 0.3], [-0.2, 0.7]] for b in range(nb)])
        C = np.array([[[1.5 + b, 0.1], [0.1, 0.8]] for b in range(nb)])
        return T.ThermoNMGLEG(temp=temp, dt=0.5, A=A, C=C, tau=cx.real("tau", 0.5, 4), ethermo=e0)
    raise ValueError(kind)


def bound(cx, kind, nb, na, nm_kw=None, multi=False, prng=None, fixcom=False, fixatoms=None):
    Dyn = cx.mod("ipi.engine.motion").Dynamics
    T = cx.mod("ipi.engine.thermostats")
    th = mk(cx, kind, nb)
    if "gle" in kind:
        th.s = cx.np.zeros(0)
    if multi:
        e0 = th
        th = T.MultiThermo(temp=1.0, dt=0.5, thermolist=[th, T.ThermoLangevin(temp=1.0, dt=0.5, tau=cx.real("tau2", 0.5, 4), ethermo=0.0)])
    dt = cx.real("dt", 0.25, 1.0) if "gle" not in kind else 0.5
    fix = cx.np.zeros(0, int) if fixatoms is None else cx.np.asarray(fixatoms)
    mot = Dyn(timestep=dt, mode="nvt", thermostat=th, fixcom=fixcom, fixatoms_dof=fix)
    s = build(cx, nb, na, motion=mot, nm_kw=nm_kw, prng=prng)
    s.th = th
    s.dt = dt
    return s


KINDS = [("langevin", 1, 2), ("svr", 1, 1), ("svr", 1, 2), ("pile_l", 2, 1), ("pile_l", 3, 1), ("pile_g", 2, 1), ("pile_l_ct", 2, 1), ("pile_g_ct", 2, 1), ("cl", 1, 1),
         ("ffl_none", 1, 1), ("ffl_rescale", 1, 1), ("ffl_soft", 1, 1), ("ffl_hard", 1, 1), ("gle", 1, 1), ("gle", 2, 1), ("gle_eq", 1, 1), ("nm_gle", 2, 1), ("nm_gleg", 2, 1), ("langevin", 2, 1)]


@harness(params=[dict(kind=k, nb=b, na=a) for k, b, a in KINDS] + [dict(kind=k, nb=b, na=1, multi=True) for k, b in [("langevin", 1), ("svr", 1), ("pile_l", 2)]],
         bounds="two consecutive thermostat steps with arbitrary noise", limit=100)
def energy_accounting(cx, kind, nb, na, multi=False):
    """whatever the noise, the heat counter changes by minus the change of the
    kinetic energy"""
    s = bound(cx, kind, nb, na, multi=multi)
    k0 = s.nm.kin
    e0 = s.th.ethermo
    c0 = s.ensemble.econs
    s.th.step()
    cx.eq(s.th.ethermo + s.nm.kin, e0 + k0, "heat counter balances kinetic energy change")
    cx.eq(s.ensemble.econs, c0, "conserved quantity unchanged by a thermostat step")


@harness(params=[dict(kind=k, nb=b) for k, b in [("langevin", 1), ("pile_l", 2), ("pile_g", 2), ("pile_g", 3), ("svr", 2), ("nm_gle", 2), ("nm_gleg", 2), ("cl", 1), ("ffl_soft", 1), ("gle", 1)]],
         bounds="construction with an arbitrary stored heat counter")
def counter_restored(cx, kind, nb):
    """the heat already exchanged, given at construction (a restart), is still
    the value read after everything is wired up"""
    th = mk(cx, kind, nb)
    if "gle" in kind:
        th.s = cx.np.zeros(0)
    e0 = th.ethermo
    mot = cx.mod("ipi.engine.motion").Dynamics(timestep=0.5, mode="nvt", thermostat=th, fixatoms_dof=cx.np.zeros(0, int))
    s = build(cx, nb, 1, motion=mot)
    cx.eq(th.ethermo, e0, "stored heat preserved on set-up")


def noise_count(s, pr):
    pr.load([])
    s.th.step()
    return len(pr.log)


@harness(params=[dict(kind=k, nb=b, na=a) for k, b, a in [("langevin", 1, 1), ("langevin", 2, 1), ("pile_l", 1, 1), ("pile_l", 2, 1), ("pile_l", 3, 1), ("pile_l", 4, 1), ("pile_l_ct", 2, 1), ("nm_gle", 2, 1), ("gle", 1, 1), ("gle", 2, 1), ("gle_eq", 1, 1), ("cl0", 1, 1)]],
         thorough=[dict(kind="pile_l", nb=5, na=1), dict(kind="langevin", nb=2, na=2), dict(kind="pile_l", nb=2, na=2)],
         bounds="one thermostat step as an exact linear map of (momenta, bath variables) and noise", limit=100)
def fluctuation_dissipation(cx, kind, nb, na):
    """the canonical distribution is stationary: M S M^T + N N^T = S"""
    np = cx.np
    pr = ListPrng(cx)
    K = cx.mod("ipi.utils.units").Constants.kb
    if kind == "cl0":
        T = cx.mod("ipi.engine.thermostats")
        th = T.ThermoCL(temp=1.0, dt=0.5, tau=cx.real("tau", 0.5, 4), intau=0.0, idtau=0.0)
        dt = cx.real("dt", 0.25, 1.0)
        s = build(cx, nb, na, motion=cx.mod("ipi.engine.motion").Dynamics(timestep=dt, mode="nvt", thermostat=th, fixatoms_dof=np.zeros(0, int)), prng=pr)
        s.th, s.dt = th, dt
    else:
        s = bound(cx, kind, nb, na, prng=pr)
    n = 3 * na * nb
    dep = cx.mod("ipi.utils.depend")
    nmrep = kind.startswith("pile") or kind == "nm_gle"
    aux = []
    if kind in ("gle", "gle_eq"):
        aux = [s.th]
    elif kind == "nm_gle":
        aux = list(s.th._thermos)
    shp = [a.s.shape for a in aux]
    nx = noise_count(s, pr)
    cx.check(nx > 0, "thermostat draws noise")

    def put(x):
        p = x[:n].reshape(nb, 3 * na)
        if nmrep:
            s.nm.pnm = p
        else:
            s.beads.p = p
        k = n
        for a, sh in zip(aux, shp):
            m = sh[0] * sh[1]
            a.s[:] = x[k : k + m].reshape(sh)
            k += m
        return k

    ntot = n + sum(a * b for a, b in shp)

    def f(x):
        put(x[:ntot])
        pr.load(list(x[ntot:]))
        s.th.step()
        out = list((s.nm.pnm if nmrep else s.beads.p).reshape(-1))
        for a in aux:
            out += list(a.s.reshape(-1))
        return out

    x = cx.reals("x", ntot + nx, -2, 2)
    J = cx.jac(f, x)
    M, N = J[:, :ntot], J[:, ntot:]
    # stationary covariance
    S = np.zeros((ntot, ntot))
    ms = dep.dstrip(s.nm.dynm3).reshape(-1) if nmrep else dep.dstrip(s.beads.m3).reshape(-1)
    if not aux:
        for i in range(n):
            t = s.temp * nb
            if kind == "pile_l_ct" and i < 3 * na:
                t = s.th.pilect * nb
            S[i, i] = ms[i] * K * t
        cx.eq(np.dot(M, np.dot(S, M.T)) + np.dot(N, N.T), S, "canonical momenta stationary under the thermostat")
        return
    # coloured noise: the first bath variable is the mass-scaled momentum,
    # overwritten on entry; identify it with p
    k = n
    pos = []  # rows of (momentum dof): list of aux indices
    off = 0
    for a, sh in zip(aux, shp):
        C = a.C if kind != "gle_eq" else np.identity(sh[0]) * (s.temp * nb)
        for c in range(sh[1]):
            d = off + c
            idx = [d] + [k + r * sh[1] + c for r in range(1, sh[0])]
            root = np.sqrt(ms[d])
            for u in range(sh[0]):
                for v in range(sh[0]):
                    S[idx[u], idx[v]] = K * C[u, v] * (root if u == 0 else 1.0) * (root if v == 0 else 1.0)
        off += sh[1]
        k += sh[0] * sh[1]
    R = np.dot(M, np.dot(S, M.T)) + np.dot(N, N.T)
    keep = [i for i in range(ntot)]
    k = n
    for a, sh in zip(aux, shp):
        for c in range(sh[1]):
            keep.remove(k + c)
        k += sh[0] * sh[1]
    cx.eq(R[np.ix_(keep, keep)], S[np.ix_(keep, keep)], "stationary covariance of the coloured-noise thermostat")


GLOB = [("svr", 1, 2, False, None), ("svr", 1, 2, True, None), ("svr", 1, 2, False, [0, 1, 2]), ("pile_g", 2, 2, True, None), ("pile_g", 2, 1, False, None),
        ("pile_g", 2, 2, False, [0, 1, 2]), ("pile_g_ct", 2, 1, False, None), ("nm_gleg", 2, 2, False, None), ("nm_gleg", 2, 2, True, None)]


@harness(params=[dict(kind=k, nb=b, na=a, fixcom=c, fix=f) for k, b, a, c, f in GLOB] + [dict(kind="pile_g", nb=2, na=2, fixcom=True, fix=None, multi=True), dict(kind="svr", nb=1, na=2, fixcom=True, fix=None, multi=True)],
         bounds="one application of the global rescaling; expectation over the noise computed from the noise's exact moments", limit=100)
def global_rescaling_mean(cx, kind, nb, na, fixcom, fix, multi=False):
    """averaged over the noise, global velocity rescaling relaxes the kinetic
    energy of the unconstrained degrees of freedom to (number of them) kT/2"""
    np = cx.np
    pr = ListPrng(cx)
    K = cx.mod("ipi.utils.units").Constants.kb
    s = bound(cx, kind, nb, na, prng=pr, fixcom=fixcom, fixatoms=fix, multi=multi)
    th = s.th.tlist[0] if multi else s.th
    nfix = (3 if fixcom else 0) + (len(fix) * (nb if kind == "svr" else 1) if fix is not None else 0)
    if kind == "svr":
        rep, ndof = th, 3 * na * nb - nfix
        kin = lambda: s.nm.kin
    else:
        rep = th._thermos[-1] if kind == "nm_gleg" else th._thermos[0]
        ndof = 3 * na - nfix
        dep = cx.mod("ipi.utils.depend")

        def kin():
            p = dep.dstrip(s.nm.pnm)[0]
            return (p * p / dep.dstrip(s.nm.dynm3)[0]).sum() * 0.5

    temp = (s.th.pilect if kind == "pile_g_ct" else s.temp) * nb
    et = np.exp(-s.th.dt / s.th.tau) if not multi else np.exp(-th.dt / th.tau)
    k0 = kin()
    cx.assume(k0 > 0.01)
    p0 = cx.mod("ipi.utils.depend").dstrip(s.beads.p).copy()

    def run(z, gs=()):
        s.beads.p = p0
        pr.load(z, gs)
        rep.step()
        return kin()

    f0 = run([])
    glog = [k for k, v in pr.log]
    nz = glog.count("g")
    mean = f0
    for i in range(nz):
        z = [0.0] * nz
        z[i] = 1.0
        a = run(z)
        z[i] = -1.0
        b = run(z)
        mean = mean + (a + b) * 0.5 - f0
    cx.eq(mean, et * k0 + (1 - et) * (0.5 * ndof * K) * temp, "mean kinetic energy after global rescaling")


@harness(params=[dict(kind=k, nb=b, na=a, fixcom=c, fix=f) for k, b, a, c, f in GLOB] + [dict(kind="pile_g", nb=2, na=2, fixcom=True, fix=None, multi=True), dict(kind="svr", nb=1, na=2, fixcom=True, fix=None, multi=True)],
         bounds="one application of the global rescaling to momenta of any magnitude along one direction; expectation over the noise computed from the noise's exact moments", limit=100)
def global_rescaling_spread(cx, kind, nb, na, fixcom, fix, multi=False):
    """the second moment over the noise (quadratures exact for the degree of
    the map) is that of the canonical distribution's transition kernel"""
    np = cx.np
    pr = ListPrng(cx)
    K = cx.mod("ipi.utils.units").Constants.kb
    s = bound(cx, kind, nb, na, prng=pr, fixcom=fixcom, fixatoms=fix, multi=multi)
    th = s.th.tlist[0] if multi else s.th
    nfix = (3 if fixcom else 0) + (len(fix) * (nb if kind == "svr" else 1) if fix is not None else 0)
    if kind == "svr":
        rep, ndof = th, 3 * na * nb - nfix
        kin = lambda: s.nm.kin
    else:
        rep = th._thermos[-1] if kind == "nm_gleg" else th._thermos[0]
        ndof = 3 * na - nfix
        dep = cx.mod("ipi.utils.depend")

        def kin():
            p = dep.dstrip(s.nm.pnm)[0]
            return (p * p / dep.dstrip(s.nm.dynm3)[0]).sum() * 0.5

    temp = (s.th.pilect if kind == "pile_g_ct" else s.temp) * nb
    et = np.exp(-s.th.dt / s.th.tau) if not multi else np.exp(-th.dt / th.tau)
    u = cx.real("u", 0.25, 1.5)
    s.beads.m = np.asarray([1.0, 1.5][:na])
    s.beads.p = u * np.asarray([[0.5 + 0.25 * i - 0.5 * j for i in range(3 * na)] for j in range(nb)])
    k0 = kin()
    cx.assume(k0 > 0.01)
    p0 = cx.mod("ipi.utils.depend").dstrip(s.beads.p).copy()

    def run(z, gs=()):
        s.beads.p = p0
        pr.load(z, gs)
        rep.step()
        return kin()

    run([])
    glog = [k for k, v in pr.log]
    nz = glog.count("g")
    ng = glog.count("gam")
    r3 = 3.0**0.5
    m2 = 0.0
    for zz in itertools.product([(0.0, 2 / 3), (r3, 1 / 6), (-r3, 1 / 6)], repeat=nz):
        for gg in itertools.product([1.0, -1.0], repeat=ng):
            w = 0.5**ng
            for _, x in zz:
                w *= x
            k = run([x for x, _ in zz], gg)
            m2 = m2 + w * k * k
    kb = 0.5 * K * temp
    var = 2 * ndof * (kb * (1 - et)) ** 2 + 4 * k0 * et * kb * (1 - et)
    cx.eq(m2, var + (et * k0 + (1 - et) * ndof * kb) ** 2, "spread of the kinetic energy after global rescaling", tol=1e-7)
