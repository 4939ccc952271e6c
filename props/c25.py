"""Geometry optimization."""

import math
from symx.base import harness
from props.common import *

PRELOAD = PRE + ["ipi.engine.motion.geop", "ipi.utils.mintools"]
BOUNDS = (
    "1-2 atoms, 1-2 beads, one or two optimizer steps from fixed starting points and forces; the energy and the forces met at every later point "
    "are arbitrary, up to 4 (5) further force evaluations per step; histories of up to 3 L-BFGS corrections; Hessian updates in 2-3 dimensions with "
    "arbitrary displacement, gradient change and curvature."
)


def near(x, y):
    try:
        return abs(float(x) - float(y)) < 1e-9
    except Exception:
        return False


class Reached(Exception):
    pass


class Surface:
    """an arbitrary energy surface: fixed at the starting points, unconstrained
    at every other point that is visited; the same point gives the same answer"""

    def __init__(self, cx, q0, u0, f0, calls, span=4.0, sym=None, fspan=3.0, known=()):
        self.known = list(known)
        self.pinned = []
        self.cx, self.q0, self.u0, self.f0, self.calls = cx, q0, u0, f0, calls
        self.span, self.fspan = span, fspan
        self.sym = sym
        self.log = []
        self.until = None

    def values(self, q):
        """energy and forces of one bead"""
        cx, np = self.cx, self.cx.np
        n = len(q)
        for b in range(len(self.q0)):
            if all(near(q[i], self.q0[b][i]) for i in range(n)):
                return self.u0[b], np.asarray(self.f0[b], float).copy()
        for key, r in self.pinned:
            if all(near(q[i], key[i]) for i in range(n)):
                return r[0], r[1].copy()
        sym = list(range(n)) if self.sym is None else self.sym
        if self.known:
            u = self.known.pop(0)
            if u is not None:
                f = np.zeros(n, float)
                for j in range(n):
                    f[j] = cx.real("pin%d_%d" % (len(self.known), j), -self.fspan, self.fspan) if j in sym else 0.25 * (j % 3) - 0.375
                self.pinned.append((q.copy(), (u, f)))
                return u, f.copy()
        v = cx.ufunc("surf", list(q), 1 + len(sym), -1.0, 1.0)
        f = np.zeros(n, float)
        for j in range(n):
            f[j] = 0.25 * (j % 3) - 0.375
        for k, j in enumerate(sym):
            f[j] = v[1 + k] * self.fspan
        return v[0] * self.span, f

    def __call__(self, q, h):
        cx, np = self.cx, self.cx.np
        self.log.append(q.copy())
        if self.until is not None and len(self.log) >= self.until:
            raise Reached
        u, f = self.values(q)
        if len(self.log) > self.calls + len(self.q0):
            cx.assume(False)
        return u, f, np.zeros((3, 3), float), {"raw": ""}


Q0 = [[0.5, -1.0, 0.25, 1.5, 0.75, -0.5], [0.25, -0.75, 0.5, 1.25, 1.0, -0.25]]
F0 = [[0.6, -0.8, 0.4, 0.2, -0.5, 1.1], [0.3, -0.4, 0.9, -0.2, 0.5, 0.7]]
TOL = {"energy": 1e-4, "force": 0.05, "position": 0.05}


def start(cx, mode, nb=1, nat=1, fix=(), calls=4, ls=None, sym=None, big=100.0, tol=None, q0=None, f0=None, exits=True, span=4.0, known=(), u0=None, **kw):
    np = cx.np
    cx.mod("ipi.utils.messages").verbosity.level = "quiet"
    n = 3 * nat
    q0 = q0 or [Q0[b][:n] for b in range(nb)]
    f0 = f0 or [F0[b][:n] for b in range(nb)]
    G = cx.mod("ipi.engine.motion.geop").GeopMotion
    opts = {"tolerance": 1e-4, "iter": 100, "step": 0.25, "adaptive": 0.0}
    opts.update(ls or {})
    dof = np.asarray([3 * i + c for i in fix for c in range(3)], int) if len(fix) else np.zeros(0, int)
    mot = G(mode=mode, fixatoms_dof=dof, ls_options=opts, tolerances=dict(tol or TOL), biggest_step=big, exit_on_convergence=exits, **kw)
    u0 = [cx.real("start%d" % b, -1, 1) for b in range(nb)] if u0 is None else u0
    sf = Surface(cx, q0, u0, f0, calls, sym=sym, span=span, known=known)
    s = build(
        cx,
        nb,
        nat,
        temp=0.5,
        motion=mot,
        ffs={"ff": FF(cx, sf)},
        beads=make_beads(cx, nb, nat, masses=np.ones(nat), q=np.asarray(q0), p=np.zeros((nb, n), float)),
    )
    s.sf, s.q0, s.f0, s.fix = sf, np.asarray(q0), np.asarray(f0), list(int(x) for x in dof)
    s.u0 = sum(u0)
    s.free = [i for i in range(n) if i not in s.fix]
    return s


def settled(cx, s, tag=""):
    """the fixed atoms are where they were, energy and forces are those of the positions"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    q = dep.dstrip(s.beads.q)
    nb, n = q.shape
    for i in s.fix:
        cx.eq(q[:, i], s.q0[:, i], tag + "a fixed coordinate does not move")
    u = 0.0
    f = np.zeros((nb, n), float)
    for b in range(nb):
        ub, f[b] = s.sf.values(q[b])
        u = u + ub
    cx.eq(s.forces.pot, u, tag + "the energy after the step is that of the positions")
    cx.eq(dep.dstrip(s.forces.f), f, tag + "the forces after the step are those of the positions")
    return q, u, f


CASES = [
    dict(nat=1, nb=1, fix=(), known=(None, 5.0), u0=None),  # bracketed at once
    dict(nat=1, nb=2, fix=(), known=(None, 1.0, 5.0, 1.0), u0=[0.5, 0.25]),
    dict(nat=2, nb=1, fix=(1,), known=(None, 5.0), u0=None),
    dict(nat=2, nb=1, fix=(0,), known=(-1.5, -2.0, None, 2.0), u0=[0.5]),  # one extrapolation
    dict(nat=1, nb=1, fix=(), known=(-1.5, -1.75, None, 3.0), u0=[0.5]),
    dict(nat=1, nb=1, fix=(), known=(1.5, -1.75, None, 3.0), u0=[0.5]),
]


@harness(params=[dict(mode=m, it=1, **c) for m in ("sd", "cg") for c in CASES], thorough=[dict(mode=m, it=it, **c) for m in ("sd", "cg") for it in (2, 3) for c in CASES], max_paths=4000)
def line_search(cx, mode, nat, nb, fix, it, known, u0):
    """steepest descent and conjugate gradients never go up, whatever they meet"""
    s = start(cx, mode, nb, nat, fix, calls=(it + 6) * nb, ls={"iter": it}, sym=[3] if 0 in fix else [0], known=known, u0=u0)
    s.motion.step(0)
    q, u, f = settled(cx, s)
    cx.check(u <= s.u0 + 1e-9, "the energy does not increase")


@harness(params=[dict(mode=m, fix=fix) for m in ("sd", "cg") for fix in ((), (1,), (0,))])
def descending_side(cx, mode, fix):
    """when the first trial is too long the search goes on ahead, where the energy decreases, not backwards"""
    np = cx.np
    nat = 2 if fix else 1
    f0 = [list(F0[0][: 3 * nat])]
    f0[0][3 if 0 in fix else 0] = cx.real("fx", -2, 2)
    s = start(cx, mode, 1, nat, fix, calls=8, ls={"iter": 1}, sym=[], known=(3.0, 3.0, 0.25), u0=[0.5], f0=f0)
    s.motion.step(0)
    log = s.sf.log
    cx.check(len(log) > 3, "another point is tried")
    for k, what in ((1, "the first trial"), (3, "the next trial after an overshoot")):
        d = log[k] - s.q0[0]
        cx.check(sum(d[i] * f0[0][i] for i in s.free) > 0, what + " is downhill")
        for i in s.fix:
            cx.eq(d[i], 0.0, "a fixed coordinate does not move in a trial")
    settled(cx, s)


@harness(params=[dict(mode=m, nat=nat, nb=nb, fix=fix, sym=sym) for m in ("sd", "cg") for nat, nb, fix, sym in ((1, 1, (), (0,)), (2, 1, (1,), (0, 4)), (2, 1, (0,), (3, 1)), (1, 2, (), (0,)))], limit=120)
def directions(cx, mode, nat, nb, fix, sym):
    """the second step goes along the force, or the Polak-Ribiere direction, of the coordinates that move"""
    np = cx.np
    s = start(cx, mode, nb, nat, fix, calls=20 * nb, ls={"iter": 1}, sym=list(sym), known=(3.0,) * (2 * nb) + (-0.25,) * nb + (3.0,) * (2 * nb) + (-0.5,) * nb, u0=[0.5, 0.25][:nb])
    s.motion.step(0)
    q1, u1, f1 = settled(cx, s)
    q1 = q1.copy()
    n0 = len(s.sf.log)
    g0 = np.asarray([s.f0[b, i] for b in range(nb) for i in s.free])
    g1 = np.asarray([f1[b, i] for b in range(nb) for i in s.free])
    d = g1
    if mode == "cg":
        beta = sum((y - x) * y for x, y in zip(g0, g1)) / sum(x * x for x in g0)
        if beta > 0:
            d = g1 + beta * g0
    cx.assume(sum(x * x for x in d) > 0.01)
    s.sf.until = n0 + nb
    try:
        s.motion.step(1)
    except Reached:
        pass
    new = s.sf.log[n0 : n0 + nb]
    got = np.asarray([new[b][i] - q1[b, i] for b in range(nb) for i in s.free])
    for i in range(len(d)):
        for j in range(i):
            cx.eq(got[i] * d[j], got[j] * d[i], "the second step goes along the right direction")
    cx.check(sum(a * b for a, b in zip(got, d)) > 0, "the second step goes forward")
    if mode == "sd":
        cx.eq(sum(a * a for a in got), 0.0625, "the first trial is one search step long")


@harness(params=[dict(mode=m, nat=nat, nb=nb, fix=fix, sym=sym) for m in ("bfgs", "lbfgs", "bfgstrm") for nat, nb, fix, sym in ((1, 1, (), (0,)), (2, 1, (1,), (0, 4)), (2, 1, (0,), (3, 1)), (1, 2, (), (1,)))] + [dict(mode="damped_bfgs", nat=nat, nb=nb, fix=fix, sym=()) for nat, nb, fix in ((1, 1, ()), (2, 1, (1,)), (2, 1, (0,)), (1, 2, ()))], max_paths=3000)
def quasi_newton(cx, mode, nat, nb, fix, sym):
    """one step on an arbitrary surface: lower energy, fixed atoms, secant condition"""
    np = cx.np
    kw = {}
    if mode == "bfgstrm":
        kw = dict(tr_trm=np.asarray([0.4]))
    s = start(cx, mode, nb, nat, fix, calls=2 * nb, ls={"iter": 50}, sym=list(sym), u0=[0.5, 0.25][:nb], big=0.375 if mode in ("damped_bfgs", "bfgstrm") else 10.0, **kw)
    s.motion.step(0)
    q, u, f = settled(cx, s)
    if mode != "damped_bfgs":
        cx.check(u < s.u0, "the energy decreases")
    dx = np.asarray([q[b, i] - s.q0[b, i] for b in range(nb) for i in s.free])
    y = np.asarray([s.f0[b, i] - f[b, i] for b in range(nb) for i in s.free])
    g = np.asarray([-f[b, i] for b in range(nb) for i in s.free])
    ix = [b * 3 * nat + i for b in range(nb) for i in s.free]
    cur = sum(a * b for a, b in zip(dx, y))
    n = len(ix)
    if mode == "bfgs":
        H = s.motion.optimizer.invhessian
        H = [[H[i, j] for j in ix] for i in ix]
        if cur > 1e-3:
            for i in range(n):
                cx.eq(sum(H[i][j] * y[j] for j in range(n)), dx[i], "the inverse Hessian maps the gradient change to the displacement")
        for i in range(n):
            for j in range(i):
                cx.eq(H[i][j], H[j][i], "the inverse Hessian stays symmetric")
            d = s.motion.optimizer.d.reshape(-1)[ix[i]]
            cx.eq(d, -sum(H[i][j] * g[j] for j in range(n)), "the next direction is the quasi-Newton one")
    if mode == "bfgstrm":
        H = s.motion.optimizer.hessian
        cx.assume(cx.any([cur > 1e-3, cur < -1e-3]))
        for i in range(n):
            cx.eq(sum(H[ix[i], ix[j]] * dx[j] for j in range(n)), y[i], "the Hessian maps the displacement to the gradient change")
        cx.check(sum(x * x for x in dx) <= 0.4 * 0.4 * 1.001, "the step stays in the trust radius")
    if mode == "damped_bfgs":
        for b in range(nb):
            for k in range(len(s.free) // 3):
                o = b * len(s.free) + 3 * k
                cx.check(sum(x * x for x in dx[o : o + 3]) <= 0.375**2 * 1.001, "no atom moves further than the largest step")


@harness(params=[dict(m=m, k=k, scale=sc) for m, k, sc in ((1, 0, 0), (2, 0, 2), (2, 1, 0), (2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 5, 2), (3, 1, 2), (3, 2, 1), (3, 4, 2))], limit=120)
def lbfgs_direction(cx, m, k, scale):
    """the two-loop recursion gives the direction of the dense inverse BFGS matrix"""
    np = cx.np
    cx.mod("ipi.utils.messages").verbosity.level = "quiet"
    L = cx.mod("ipi.utils.mintools").L_BFGS
    n = 3
    S = [[0.5, -0.25, 0.125], [0.25, 0.5, -0.375], [-0.125, 0.25, 0.5]]
    Y = [[0.75, -0.25, 0.25], [0.125, 1.0, -0.25], [-0.25, 0.5, 0.75]]
    have = min(k, m)
    ql = np.zeros((m, n), float)
    gl = np.zeros((m, n), float)
    for j in range(have):
        ql[j], gl[j] = S[j], Y[j]
    x0 = np.asarray([[0.5, 1.0, -0.5]])
    g0 = np.asarray([[1.0, -0.5, 0.75]])
    d0 = np.asarray([[-0.5, 0.25, -0.25]])
    if have:
        gl[have - 1, 0] = cx.real("y0", 0.5, 2.0)
    Y = gl.copy()
    g = np.asarray([[cx.real("g0", -2, 2), cx.real("g1", -2, 2), 0.25]])
    s = d0[0].copy()
    y = (g - g0)[0]
    cx.assume(sum(a * b for a, b in zip(s, y)) > 0.05)
    L(x0, d0, lambda x: (-5.0, g), ql, gl, (0.0, g0), 100.0, 1e-8, 20, m, scale, k)
    hist = [(ql0, gl0) for ql0, gl0 in zip(S[:have], Y[:have])] + [(s, y)]
    hist = hist[-m:]
    dot = lambda a, b: sum(p * q for p, q in zip(a, b))
    hk = {0: 1.0, 1: dot(hist[0][0], hist[0][1]) / dot(hist[0][1], hist[0][1]), 2: dot(hist[-1][0], hist[-1][1]) / dot(hist[-1][1], hist[-1][1])}[scale]
    H = [[hk if i == j else 0.0 for j in range(n)] for i in range(n)]
    for a, b in hist:
        r = 1.0 / dot(a, b)
        V = [[(1.0 if i == j else 0.0) - r * b[i] * a[j] for j in range(n)] for i in range(n)]
        HV = [[sum(H[i][l] * V[l][j] for l in range(n)) for j in range(n)] for i in range(n)]
        H = [[sum(V[l][i] * HV[l][j] for l in range(n)) + r * a[i] * a[j] for j in range(n)] for i in range(n)]
    for i in range(n):
        cx.eq(d0[0, i], -dot(H[i], g[0]), "the next direction")
    for j, (a, b) in enumerate(hist):
        cx.eq(ql[j], np.asarray(a), "stored displacement")
        cx.eq(gl[j], np.asarray(b), "stored gradient change")


@harness()
def lbfgs_uphill(cx):
    """a stored direction that points uphill is replaced by a descending one"""
    np = cx.np
    cx.mod("ipi.utils.messages").verbosity.level = "quiet"
    L = cx.mod("ipi.utils.mintools").L_BFGS
    x0 = np.asarray([[0.5, 1.0, -0.5]])
    g0 = np.asarray([[cx.real("g0", 0.25, 2), -0.5, 0.75]])
    d0 = np.asarray([[cx.real("d0", -1, 1), cx.real("d1", -1, 1), 0.25]])
    cx.assume(cx.any([(g0[0] * d0[0]).sum() > 0.01, (g0[0] * d0[0]).sum() < -0.01]))
    tried = []

    def fdf(x):
        tried.append(x.copy())
        return -5.0, np.asarray([[0.25, 0.5, 0.125]])

    L(x0, d0, fdf, np.zeros((2, 3), float), np.zeros((2, 3), float), (0.0, g0), 100.0, 1e-8, 20, 2, 1, 0)
    cx.check(((tried[0][0] - x0[0]) * g0[0]).sum() < 0, "the step is downhill")


@harness(params=[dict(which=w, n=n) for w in ("trm", "powell") for n in (2, 3)])
def hessian_update(cx, which, n):
    """secant condition and symmetry of the Hessian updates"""
    np = cx.np
    M = cx.mod("ipi.utils.mintools")
    H = np.zeros((n, n), float)
    for i in range(n):
        for j in range(i + 1):
            H[i, j] = H[j, i] = cx.real("h%d%d" % (i, j), -2, 2) + (3.0 if i == j else 0.0)
    dx = cx.reals("dx", n, -1, 1)
    dg = cx.reals("dg", n, -1, 1)
    big = lambda v: cx.any([v > 0.01, v < -0.01])
    cx.assume((dx * dx).sum() > 0.01)
    if which == "trm":
        cx.assume(big((dx * dg).sum()))
        cx.assume(big(sum(dx[i] * H[i, j] * dx[j] for i in range(n) for j in range(n))))
        M.TRM_UPDATE(dx, -dg, H)
    else:
        H = M.Powell(dx, dg, H)
    for i in range(n):
        cx.eq(sum(H[i, j] * dx[j] for j in range(n)), dg[i], "the updated Hessian maps the displacement to the gradient change")
        for j in range(i):
            cx.eq(H[i, j], H[j, i], "the updated Hessian is symmetric")


@harness(params=[dict(mode=m, fix=fix, exits=e) for m, fix, e in (("bfgs", (), False), ("lbfgs", (1,), True), ("sd", (), True), ("cg", (0,), False), ("bfgstrm", (1,), False))], max_paths=2000)
def convergence(cx, mode, fix, exits):
    """converged when and only when energy, force and displacement are all within tolerance; afterwards nothing moves"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    nat = 2 if fix else 1
    tol = {"energy": cx.real("te", 0.01, 1), "force": cx.real("tf", 0.01, 2), "position": cx.real("tx", 0.01, 2)}
    kw = dict(tr_trm=np.asarray([0.4])) if mode == "bfgstrm" else {}
    # the force at the new point: one free and one fixed component are arbitrary
    sym = {(): [0], (1,): [1, 3], (0,): [0, 4]}[tuple(fix)]
    known = () if mode in ("bfgs", "lbfgs", "bfgstrm") else (3.0, 3.0, 0.25)
    s = start(cx, mode, 1, nat, fix, calls=1 if not known else 9, ls={"iter": 1 if known else 50}, sym=sym, known=known, u0=[0.5], tol=tol, exits=exits, big=10.0, **kw)
    ended = []
    cx.patch(cx.mod("ipi.utils.softexit").softexit, "trigger", lambda *a, **k: ended.append(1))
    over = lambda: bool(ended) or bool(getattr(s.motion, "finished", False))
    s.motion.step(0)
    q, u, f = settled(cx, s)
    within = [cx.all([u - s.u0 <= tol["energy"] * nat, s.u0 - u <= tol["energy"] * nat])]
    within.append(cx.all([cx.all([f[0, i] <= tol["force"], -f[0, i] <= tol["force"]]) for i in s.free]))
    within.append(cx.all([cx.all([q[0, i] - s.q0[0, i] <= tol["position"], s.q0[0, i] - q[0, i] <= tol["position"]]) for i in s.free]))
    done = cx.all(within)
    if s.motion.optimizer.converged:
        cx.check(done, "it only stops when the three tolerances are met")
        q1, n0 = dep.dstrip(s.beads.q).copy(), len(s.sf.log)
        s.motion.step(1)
        cx.eq(dep.dstrip(s.beads.q), q1, "nothing moves after convergence")
        cx.check(len(s.sf.log) == n0, "no force is computed after convergence")
        cx.check(over() == exits, "the simulation ends if it was asked to")
    else:
        cx.check(cx.any([cx.nt(w) for w in within]), "it stops when the three tolerances are met")
        cx.check(not over(), "the simulation goes on")
