"""Holonomic constraints: rigid bonds, angles and Eckart conditions."""

from symx.base import harness
from props.common import *

PRELOAD = PRE + ["ipi.engine.motion.constrained_dynamics", "ipi.utils.constrtools"]
BOUNDS = "3-4 atoms, one or two groups of constraints, geometries with up to two arbitrary coordinates, arbitrary momenta, masses, time steps; up to 3 iterations of the solver."

Q0 = [[0.5, -0.25, 0.125], [1.75, 0.5, -0.25], [-0.5, 1.0, 0.75], [0.25, 0.5, 2.0]]
M0 = [1.25, 2.0, 0.75, 1.5]
LAYOUT = {
    "bond": [("bond", [[0, 1]])],
    "bond_rev": [("bond", [[2, 0]])],
    "bonds": [("bond", [[0, 1], [2, 1]])],
    "bonds_far": [("bond", [[1, 3], [0, 2]])],
    "angle": [("angle", [[0, 1, 2]])],
    "angle_rev": [("angle", [[2, 3, 0]])],
    "angles": [("angle", [[1, 0, 2], [1, 2, 3]])],
    "eckart": [("eckart", [0, 1, 2])],
    "eckart_part": [("eckart", [1, 2, 3])],
    "list": [("list", [("bond", [[3, 1], [0, 1]]), ("angle", [[1, 3, 0]])])],
    "list_one": [("list", [("bond", [[3, 1]])])],
    "two": [("bond", [[0, 2]]), ("bond", [[3, 1]])],
}  # fmt: skip


def geometry(cx, free=()):
    """the reference geometry with some coordinates arbitrary"""
    np = cx.np
    q = np.asarray(Q0, float).reshape(-1)
    for i, k in enumerate(free):
        q[k] = cx.real("x%d" % i, Q0[k // 3][k % 3] - 0.25, Q0[k // 3][k % 3] + 0.25)
    return q


def make(cx, spec, values=None):
    np = cx.np
    C = cx.mod("ipi.utils.constrtools")
    kind, ids = spec
    if kind == "list":
        return C.ConstraintList([make(cx, x) for x in ids])
    cls = {"bond": C.RigidBondConstraint, "angle": C.AngleConstraint, "eckart": C.EckartConstraint}[kind]
    return cls(np.asarray(ids, int), np.zeros(0) if values is None else np.asarray(values))


def wanted(cx, spec, q, q0, m, values=None):
    """what the constraints say about the positions q of all atoms; zero when they are fulfilled"""
    np = cx.np
    kind, ids = spec
    x = q.reshape(-1, 3)
    y = q0.reshape(-1, 3)
    if kind == "list":
        return [v for s in ids for v in wanted(cx, s, q, q0, m)]
    r = []
    if kind == "bond":
        for n, (i, j) in enumerate(ids):
            d = ((x[i] - x[j]) ** 2).sum()
            r.append(d - (((y[i] - y[j]) ** 2).sum() if values is None else values[n] ** 2))
    elif kind == "angle":
        def cos(z, i, j, k):
            a, b = z[j] - z[i], z[k] - z[i]
            return (a * b).sum() / (np.sqrt((a * a).sum()) * np.sqrt((b * b).sum()))

        for n, (i, j, k) in enumerate(ids):
            r.append(cos(x, i, j, k) - (cos(y, i, j, k) if values is None else np.cos(values[n])))
    else:
        ref = y if values is None else np.asarray(values).reshape(-1, 3)
        mt = sum(m[i] for i in ids)
        R = {a: (ref[a] if values is None else ref[k]) for k, a in enumerate(ids)}
        com = [sum(m[i] * R[i][a] for i in ids) / mt for a in range(3)]
        for a in range(3):
            r.append(sum(m[i] * (x[i][a] - R[i][a]) for i in ids) / mt)
        for a in range(3):
            b, c = (a + 1) % 3, (a + 2) % 3
            r.append(sum(m[i] * ((R[i][b] - com[b]) * (x[i][c] - R[i][c]) - (R[i][c] - com[c]) * (x[i][b] - R[i][b])) for i in ids) / mt)
    return r


def system(cx, layout, q, p=None, m=None, dt=0.5, csolver=None, nvt=None, nsteps_geo=1, nsteps_o=1, nmts=None, splitting="obabo", prng=None, ff=None, values=None, fixcom=False):
    np = cx.np
    CD = cx.mod("ipi.engine.motion.constrained_dynamics")
    cons = [make(cx, s, values) for s in LAYOUT[layout]]
    kw = {}
    if csolver is not None:
        kw["csolver"] = csolver
    if nvt is not None:
        kw["thermostat"] = nvt
    mot = CD.ConstrainedDynamics(timestep=dt, mode="nve" if nvt is None else "nvt", splitting=splitting, constraint_list=cons, nsteps_geo=nsteps_geo, nsteps_o=nsteps_o, nmts=nmts, fixcom=fixcom, **kw)
    na = len(q) // 3
    m = m if m is not None else np.asarray(M0[:na])
    p = p if p is not None else np.asarray([0.5 - 0.25 * i + 0.0625 * i * i for i in range(3 * na)], float)
    beads = make_beads(cx, 1, na, masses=m, q=q.copy().reshape(1, -1), p=p.copy().reshape(1, -1), names=["H"] * na)
    ffs, comps = ff if ff is not None else ({"a": harm_ff(cx, na, 1.0, "a")}, None)
    s = build(cx, 1, na, ffs=ffs, comps=comps, temp=0.5, motion=mot, beads=beads, prng=prng)
    s.cons, s.m = cons, m
    return s


def vals(cx, x):
    return cx.mod("ipi.utils.depend").dstrip(x)


@harness(params=[dict(layout=k, given=g) for k in LAYOUT if k != "two" for g in ((False, True) if not k.startswith("list") else (False,))], limit=120)
def gradients(cx, layout, given):
    """the constraint functions vanish when the constraints hold, and their gradients are exact"""
    np = cx.np
    spec = LAYOUT[layout][0]
    q0 = geometry(cx)
    ids = sorted({int(i) for x in (spec[1] if spec[0] != "list" else [y for z in spec[1] for y in z[1]]) for i in np.asarray(x, int).reshape(-1).tolist()})
    values = None
    if given:
        values = [1.5, 0.75][: len(spec[1])] if spec[0] != "eckart" else [0.25 * i - 0.0625 * i * i for i in range(3 * len(spec[1]))]
    m = cx.reals("m", 4, 0.5, 2)
    s = system(cx, layout, q0, m=m, values=values)
    c = s.cons[0]
    free = [3 * ids[0], 3 * ids[-1] + 2]
    q = geometry(cx, free)
    sel = [3 * i + a for i in ids for a in range(3)]
    cx.check([int(k) for k in np.asarray(c.i3_unique).reshape(-1).tolist()] == sel, "the atoms of the constraint are those given")
    c.q = q[sel]
    c.qprev = q[sel]
    w = wanted(cx, spec, q, q0, m, values)
    g = vals(cx, c.g)
    cx.check(len(g) == len(w), "one function per constraint")
    cx.eq(g, w, "the constraint function measures the deviation")
    Dg = vals(cx, c.Dg)

    def fun(y, k):
        z = q.copy()
        for i, j in enumerate(free):
            z[j] = y[i]
        return wanted(cx, spec, z, q0, m, values)[k]

    x = np.asarray([q[j] for j in free])
    for k in range(len(w)):
        cx.eq([Dg[k, sel.index(j)] for j in free], cx.grad(lambda y: fun(y, k), x), "the gradient of the constraint function is exact", tol=1e-6)
    # the gradients of all the other coordinates, at the reference geometry
    c.qprev = q0[sel]
    Dg = vals(cx, c.Dg)
    G = vals(cx, c.Gram)
    for k in range(len(w)):
        for l in range(len(w)):
            cx.eq(G[k, l], sum(Dg[k, i] * Dg[l, i] / m[sel[i] // 3] for i in range(len(sel))), "the Gram matrix has the current masses")


@harness(params=[dict(layout=k, coord=j) for k in ("bonds", "angle", "eckart", "list") for j in range(0, 12) if not (k in ("bonds", "angle", "eckart") and j > 8) and not (k == "list" and 6 <= j < 9)])
def gradient_components(cx, layout, coord):
    """the derivative along each coordinate"""
    np = cx.np
    spec = LAYOUT[layout][0]
    q0 = geometry(cx)
    s = system(cx, layout, q0)
    c = s.cons[0]
    q = geometry(cx, [coord])
    sel = [int(k) for k in np.asarray(c.i3_unique).reshape(-1).tolist()]
    c.qprev = q[sel]
    Dg = vals(cx, c.Dg)

    def fun(y, k):
        z = q.copy()
        z[coord] = y[0]
        return wanted(cx, spec, z, q0, s.m)[k]

    for k in range(c.ncons):
        cx.eq(Dg[k, sel.index(coord)], cx.grad(lambda y: fun(y, k), np.asarray([q[coord]]))[0], "the gradient of the constraint function is exact", tol=1e-6)


@harness(params=[dict(layout=k) for k in LAYOUT])
def cotangent(cx, layout):
    """after the projection no velocity violates a constraint, and only forces of constraint have acted"""
    np = cx.np
    q = geometry(cx)
    p = cx.reals("p", 12, -2, 2)
    s = system(cx, layout, q, p=p)
    s.motion.csolver.proj_cotangent()
    p1 = vals(cx, s.beads.p)[0]
    m = s.m
    left = list(range(12))
    for c in s.cons:
        Dg = vals(cx, c.Dg)
        sel = [int(k) for k in np.asarray(c.i3_unique).reshape(-1).tolist()]
        left = [i for i in left if i not in sel]
        for k in range(c.ncons):
            cx.eq(sum(Dg[k, i] * p1[j] / m[j // 3] for i, j in enumerate(sel)), 0.0, "velocities are along the constraint surface", tol=1e-7)
        # any velocity along the surface does no work against the change of momentum
        D = np.asarray([[float(Dg[k, i]) / np.sqrt(float(m[j // 3])) for i, j in enumerate(sel)] for k in range(c.ncons)])
        import numpy

        u, sv, vt = numpy.linalg.svd(numpy.asarray(D.tolist(), float))
        for row in vt[(sv > 1e-9).sum() :]:
            cx.eq(sum(float(row[i]) * (p1[j] - p[j]) / float(m[j // 3]) ** 0.5 for i, j in enumerate(sel)), 0.0, "the change of momentum is a force of constraint", tol=1e-7)
    cx.eq([p1[i] for i in left], [p[i] for i in left], "other atoms are not affected")
    cx.eq(vals(cx, s.beads.q)[0], q, "positions are not affected")
    s.motion.csolver.proj_cotangent()
    cx.eq(vals(cx, s.beads.p)[0], p1, "projecting again changes nothing", tol=1e-7)


@harness(params=[dict(layout=k, maxit=n, order=o) for k in ("bonds", "eckart", "two") for n in (1, 2, 3) for o in (2, -1) if not (n == 3 and k != "eckart") and not (o == -1 and n != 2)], limit=120, max_paths=64)
def manifold(cx, layout, maxit, order):
    """the positions end on the constraint surface, or the failure is reported; only forces of constraint act"""
    np = cx.np
    q0 = geometry(cx)
    dt = cx.real("dt", 0.25, 1)
    tol = 0.05
    s = system(cx, layout, q0, dt=dt, csolver=dict(tolerance=tol, maxit=maxit, norm_order=order), nmts=None)
    CD = cx.mod("ipi.engine.motion.constrained_dynamics")
    said = []
    old = CD.warning
    CD.warning = lambda *a, **k: said.append(a)
    free = {"bonds": [0], "eckart": [0, 4], "two": [0]}[layout]
    q = geometry(cx, free)
    s.beads.q[0] = q.copy()
    p = vals(cx, s.beads.p)[0].copy()
    Dg = [vals(cx, c.Dg).copy() for c in s.cons]
    try:
        s.motion.csolver.proj_manifold()
    finally:
        CD.warning = old
    q1, p1 = vals(cx, s.beads.q)[0], vals(cx, s.beads.p)[0]
    m = s.m
    qdt = s.motion.integrator.qdt
    ok = True
    for spec, c, D in zip(LAYOUT[layout], s.cons, Dg):
        w = wanted(cx, spec, q1, q0, m)
        if order == -1:
            ok = cx.all([ok] + [cx.all([x < tol * 1.000001, x > -tol * 1.000001]) for x in w])
        else:
            ok = cx.all([ok, sum(x * x for x in w) < tol * tol * 1.000001])
        sel = [int(k) for k in np.asarray(c.i3_unique).reshape(-1).tolist()]
        cx.eq(vals(cx, c.qprev), q1[sel], "later projections start from the new positions")
        import numpy

        M = numpy.asarray([[float(D[k, i]) / float(m[j // 3]) ** 0.5 for i, j in enumerate(sel)] for k in range(c.ncons)])
        u, sv, vt = numpy.linalg.svd(M)
        for row in vt[(sv > 1e-9).sum() :]:
            cx.eq(sum(float(row[i]) * (q1[j] - q[j]) * float(m[j // 3]) ** 0.5 for i, j in enumerate(sel)), 0.0, "positions move along the gradients of the constraints", tol=1e-6)
    cx.check(cx.any([ok, len(said) > 0]), "the constraints hold within the tolerance, or the failure is reported")
    cx.eq([(p1[i] - p[i]) * qdt for i in range(12)], [(q1[i] - q[i]) * m[i // 3] for i in range(12)], "momenta change as the positions do", tol=1e-6)


def arbitrary(cx, ids, ncons, seed, log):
    """a group of constraints with any values at any positions, and given gradients"""
    np = cx.np
    Base = cx.mod("ipi.utils.constrtools").ConstraintBase
    dep = cx.mod("ipi.utils.depend")

    class Any(Base):
        def gfunc(self):
            q = dep.dstrip(self.q)
            v = cx.ufunc("g%d" % seed, list(q), self.ncons, -1, 1)
            log.append((seed, [x for x in q], v))
            return np.asarray(v).reshape(-1)

        def Dgfunc(self):
            return np.asarray([[0.5 + 0.25 * k - 0.125 * i + 0.0625 * i * k * (k + 1) + 0.03125 * i * i * k for i in range(3 * self.n_unique)] for k in range(self.ncons)])

    return Any(np.asarray(ids, int), ncons)


@harness(params=[dict(groups=g, maxit=n, order=o) for g in ("one", "coupled", "two") for n in (1, 2, 3, 4) for o in (2, -1) if not (n > 2 and g == "two") and not (o == -1 and g == "two")], limit=120, max_paths=400)
def any_constraint(cx, groups, maxit, order):
    """whatever the constraint functions are, the projection ends within the tolerance or says that it did not"""
    np = cx.np
    CD = cx.mod("ipi.engine.motion.constrained_dynamics")
    log = []
    cons = {"one": lambda: [arbitrary(cx, [0, 2], 1, 0, log)], "coupled": lambda: [arbitrary(cx, [1, 2], 2, 0, log)], "two": lambda: [arbitrary(cx, [0, 2], 1, 0, log), arbitrary(cx, [1], 1, 1, log)]}[groups]()
    m = np.asarray(M0[:3])
    q0 = np.asarray(Q0[:3], float).reshape(1, -1)
    beads = make_beads(cx, 1, 3, masses=m, q=q0, p=np.asarray([[0.5 - 0.25 * i for i in range(9)]], float), names=["H"] * 3)
    tol = cx.real("tol", 0.01, 0.5)
    dt = 0.5
    cs = CD.ConstraintSolver(cons, dt=dt, tolerance=tol, maxit=maxit, norm_order=2 if order == 2 else float("inf"))
    for c in cons:
        c.bind(beads)
    cs.bind(beads)
    said = []
    old = CD.warning
    CD.warning = lambda *a, **k: said.append(a)
    p = vals(cx, beads.p)[0].copy()
    try:
        cs.proj_manifold()
    finally:
        CD.warning = old
    q1, p1 = vals(cx, beads.q)[0], vals(cx, beads.p)[0]
    good = True
    for n, c in enumerate(cons):
        sel = [int(k) for k in np.asarray(c.i3_unique).reshape(-1).tolist()]
        g = cx.ufunc("g%d" % n, [q1[j] for j in sel], c.ncons, -1, 1)
        if order == 2:
            ok = sum(x * x for x in g) < tol * tol * 1.000001
        else:
            ok = cx.all([cx.all([x < tol * 1.000001, x > -tol * 1.000001]) for x in g])
        good = cx.all([good, ok])
        cx.check(len([x for x in log if x[0] == n]) <= maxit + 2, "the number of iterations is limited")
    cx.check(cx.any([good, len(said) > 0]), "the constraints hold within the tolerance, or the failure is reported")
    cx.check(len(said) == 0 or len(log) >= maxit, "a failure is only reported after all iterations")
    # a Newton step with the gradients of the starting point
    q, pp = q0[0].copy(), p.copy()
    for n, c in enumerate(cons):
        sel = [int(k) for k in np.asarray(c.i3_unique).reshape(-1).tolist()]
        Dg = vals(cx, c.Dg)
        G = [[sum(float(Dg[k, i]) * float(Dg[l, i]) / float(m[j // 3]) for i, j in enumerate(sel)) for l in range(c.ncons)] for k in range(c.ncons)]
        import numpy

        Gi = numpy.linalg.inv(numpy.asarray(G))
        steps = len([x for x in log if x[0] == n])
        for it in range(min(steps, maxit + 1)):
            g = cx.ufunc("g%d" % n, [q[j] for j in sel], c.ncons, -1, 1)
            same = len(log) and it + 1 >= steps
            if same:
                break
            lam = [sum(float(Gi[k, l]) * g[l] for l in range(c.ncons)) for k in range(c.ncons)]
            for i, j in enumerate(sel):
                d = sum(float(Dg[k, i]) * lam[k] for k in range(c.ncons))
                q[j] = q[j] - d / m[j // 3]
                pp[j] = pp[j] - d / dt
    cx.eq(q1, q, "positions take Newton steps", tol=1e-6)
    cx.eq(p1, pp, "momenta take the forces of constraint", tol=1e-6)


def two_level_ff(cx, na):
    ffs = {"a": uf_ff(cx, na, "a"), "b": uf_ff(cx, na, "b")}
    return ffs, [component(cx, "a", mts=[1.0, 0.0]), component(cx, "b", mts=[0.0, 1.0])]


LAYOUT["none"] = []


@harness(params=[dict(nmts=n, geo=g) for n in ([1], [2], [3], [1, 1], [1, 2], [2, 1], [1, 3], [3, 1]) for g in (1, 2)], limit=100)
def unconstrained(cx, nmts, geo):
    """without constraints the step is that of ordinary dynamics, whatever the number of geodesic substeps"""
    np = cx.np
    M = cx.mod("ipi.engine.motion")
    na = 1
    q = np.asarray([0.5, cx.real("q", -1, 1), 0.25])
    p = cx.reals("p", 3, -1, 1)
    m = np.asarray([1.25])
    dt = cx.real("dt", 0.25, 1)
    nm = np.asarray(nmts, int)
    out = []
    for real in (True, False):
        ff = two_level_ff(cx, na) if len(nmts) == 2 else ({"a": uf_ff(cx, na, "a")}, None)
        if real:
            s = system(cx, "none", q, p=p, m=m, dt=dt, nmts=nm, nsteps_geo=geo, ff=ff)
        else:
            beads = make_beads(cx, 1, na, masses=m, q=q.copy().reshape(1, -1), p=p.copy().reshape(1, -1), names=["H"])
            s = build(cx, 1, na, ffs=ff[0], comps=ff[1], temp=0.5, motion=M.Dynamics(timestep=dt, mode="nve", nmts=nm), beads=beads)
        s.motion.step()
        out.append((vals(cx, s.beads.q)[0].copy(), vals(cx, s.beads.p)[0].copy()))
    cx.eq(out[0][0], out[1][0], "positions after a step", tol=1e-6)
    cx.eq(out[0][1], out[1][1], "momenta after a step", tol=1e-6)


def kin(cx, s):
    p = vals(cx, s.beads.p)[0]
    return sum(p[i] * p[i] / s.m[i // 3] for i in range(len(p))) * 0.5


@harness(params=[dict(layout=k, nvt=v, splitting=sp, geo=g, n_o=o) for k in ("eckart", "eckart_part") for v, sp, g, o in ((False, "obabo", 1, 1), (False, "obabo", 2, 1), (True, "obabo", 1, 1), (True, "baoab", 1, 2))], limit=150)
def linear_constraints(cx, layout, nvt, splitting, geo, n_o):
    """after a whole step with any forces the Eckart conditions hold for positions and velocities"""
    np = cx.np
    T = cx.mod("ipi.engine.thermostats")
    q = geometry(cx)
    p = np.asarray([0.5 - 0.25 * i + 0.03125 * i * i for i in range(12)], float)
    f = cx.reals("f", 12, -1, 1)

    def fun(x, h):
        return 0.0, f.copy(), np.zeros((3, 3)), {"raw": ""}

    th = T.ThermoLangevin(temp=0.5, dt=0.5, tau=2.0) if nvt else None
    s = system(cx, layout, q, p=p, dt=0.25, nvt=th, splitting=splitting, nsteps_geo=geo, nsteps_o=n_o, ff=({"a": FF(cx, fun, "a")}, None), csolver=dict(tolerance=1e-7, maxit=5, norm_order=2))
    s.motion.step()
    q1, p1 = vals(cx, s.beads.q)[0], vals(cx, s.beads.p)[0]
    spec = LAYOUT[layout][0]
    cx.eq(wanted(cx, spec, q1, q, s.m), [0.0] * 6, "positions fulfil the constraints", tol=1e-6)
    v = np.asarray([p1[i] / s.m[i // 3] for i in range(12)])
    cx.eq(wanted(cx, spec, q + v, q, s.m), [0.0] * 6, "velocities fulfil the constraints", tol=1e-6)


@harness(params=[dict(layout=k, n_o=o) for k in ("bond", "bonds", "angle", "eckart", "list", "none") for o in (1, 2)], limit=120)
def heat(cx, layout, n_o):
    """the energy exchanged with the thermostat, and lost in the projection, is in the conserved quantity; the thermostat acts for the whole step"""
    np = cx.np
    T = cx.mod("ipi.engine.thermostats")
    th = T.ThermoLangevin(temp=0.5, dt=0.5, tau=2.0)
    q = geometry(cx)
    p = np.asarray([0.5 - 0.25 * i + 0.03125 * i * i for i in range(12)], float)
    dt = cx.real("dt", 0.25, 1)
    eens = cx.real("eens", -1, 1)
    s = system(cx, layout, q, p=p, dt=dt, nvt=th, nsteps_o=n_o)
    s.ensemble.eens = eens
    e0 = kin(cx, s) + s.ensemble.eens + th.ethermo
    s.motion.integrator.step_Oc()
    cx.eq(kin(cx, s) + s.ensemble.eens + th.ethermo, e0, "the conserved quantity is conserved by the thermostat step", tol=1e-6)
    cx.eq(vals(cx, s.beads.q)[0], q, "positions are not changed by the thermostat")
    cx.eq(th.dt * n_o, dt * 0.5, "thermostat steps add up to half a time step")
    p1 = vals(cx, s.beads.p)[0]
    for c in s.cons:
        Dg = vals(cx, c.Dg)
        sel = [int(k) for k in np.asarray(c.i3_unique).reshape(-1).tolist()]
        for k in range(c.ncons):
            cx.eq(sum(Dg[k, i] * p1[j] / s.m[j // 3] for i, j in enumerate(sel)), 0.0, "velocities stay along the constraint surface", tol=1e-6)


@harness(params=[dict(layout=k, fixcom=f) for k in LAYOUT for f in (False, True) if not (f and "eckart" in k)])
def freedom(cx, layout, fixcom):
    """every constraint removes one degree of freedom from the temperature"""
    np = cx.np
    q = geometry(cx)
    s = system(cx, layout, q, fixcom=fixcom)
    n = {"bond": 1, "bond_rev": 1, "bonds": 2, "bonds_far": 2, "angle": 1, "angle_rev": 1, "angles": 2, "eckart": 6, "eckart_part": 6, "list": 3, "list_one": 1, "two": 2, "none": 0}[layout]
    cx.check(s.motion.get_fixdof() == n + (3 if fixcom else 0), "number of constrained degrees of freedom")
    x = cx.real("x", -1, 1)
    cx.eq(x, x, "trivial")


@harness(params=[dict(what=w) for w in ("beads", "fixatoms", "eckart_fixcom", "nested")])
def refusals(cx, what):
    """what is not implemented is refused"""
    np = cx.np
    CD = cx.mod("ipi.engine.motion.constrained_dynamics")
    C = cx.mod("ipi.utils.constrtools")
    x = cx.real("x", -1, 1)
    try:
        if what == "beads":
            mot = CD.ConstrainedDynamics(timestep=0.5, mode="nve", constraint_list=[make(cx, ("bond", [[0, 1]]))])
            q = np.asarray(Q0, float).reshape(1, -1)
            b = make_beads(cx, 2, 4, masses=np.asarray(M0), q=np.concatenate([q, q + x]), p=np.zeros((2, 12)), names=["H"] * 4)
            build(cx, 2, 4, ffs={"a": harm_ff(cx, 4, 1.0, "a")}, temp=0.5, motion=mot, beads=b)
        elif what == "fixatoms":
            CD.ConstrainedDynamics(timestep=0.5, mode="nve", constraint_list=[make(cx, ("bond", [[0, 1]]))], fixatoms_dof=np.asarray([0, 1, 2]))
        elif what == "eckart_fixcom":
            CD.ConstrainedDynamics(timestep=0.5, mode="nve", constraint_list=[make(cx, ("eckart", [0, 1]))], fixcom=True)
        else:
            CD.ConstrainedDynamics(timestep=0.5, mode="nve", constraint_list=[C.ConstraintList([C.ConstraintList([make(cx, ("bond", [[0, 1]]))])])])
    except ValueError:
        cx.check(True, "refused")
        return
    cx.check(False, "refused")


@harness(params=[dict(layout=k, order=o) for k in ("bonds", "angle", "eckart", "list") for o in (2, -1)])
def stored(cx, layout, order):
    """constraints and solver options survive being written and read again"""
    np = cx.np
    I = cx.mod("ipi.inputs.motion.constrained_dynamics")
    q = geometry(cx)
    m = cx.reals("m", 4, 0.5, 2)
    s = system(cx, layout, q, m=m, csolver=dict(tolerance=0.25, maxit=7, norm_order=order))
    i = I.InputConstrainedDynamics()
    i.store(s.motion)
    i.parse(xml=cx.mod("ipi.utils.io.inputs.io_xml").xml_parse_string(i.write("x")).fields[0][1])
    r = i.fetch()
    cx.check(r["csolver"] == dict(tolerance=0.25, maxit=7, norm_order=order), "options of the solver")
    new = cx.mod("ipi.engine.motion.constrained_dynamics").ConstrainedDynamics(**r)
    c, d = s.cons[0], new.constraint_list[0]
    cx.check(type(c) is type(d) and d.ncons == c.ncons, "kind of constraint")
    d.bind(s.beads)
    sel = [int(k) for k in np.asarray(c.i3_unique).reshape(-1).tolist()]
    cx.check(sel == [int(k) for k in np.asarray(d.i3_unique).reshape(-1).tolist()], "atoms")
    for k in (c, d):
        k.q = q[sel] * 1.25
        k.qprev = q[sel] * 1.25
    cx.eq(vals(cx, c.g), vals(cx, d.g), "constraint values", tol=1e-7)
    cx.eq(vals(cx, c.Dg), vals(cx, d.Dg), "constraint gradients", tol=1e-7)
