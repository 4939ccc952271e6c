"""Nudged elastic band."""

from symx.base import harness
from props.common import *

PRELOAD = PRE + ["ipi.utils.mintools", "ipi.engine.motion.neb", "ipi.engine.motion"]
BOUNDS = "3-5 images of 1-2 atoms; any energies and forces, any positions and spring constants for the plain tangent; one or two steps."


def D(cx, x):
    return cx.mod("ipi.utils.depend").dstrip(x)


Q = [[0.0, 0.0, 0.0, 2.0, 1.0, 0.0], [1.0, 0.5, 0.25, 2.0, 1.5, 0.5], [1.5, 1.5, -0.5, 2.5, 2.0, 0.0], [2.5, 1.75, 0.5, 2.0, 3.0, -1.0], [3.0, 2.5, 1.0, 3.5, 3.0, 0.5]]
SYMQ = [(1, 0), (1, 1), (2, 2)]


def band(cx, nimg, na, fix=(), free=False, **kw):
    np = cx.np
    N = cx.mod("ipi.engine.motion.neb")
    N.print = lambda *a, **k: None
    q = np.zeros((nimg, 3 * na), float)
    for b in range(nimg):
        for i in range(3 * na):
            q[b, i] = Q[b][i]
    for b, i in SYMQ:
        if free and b < nimg - 1:
            q[b, i] = q[b, i] + cx.real("x%d_%d" % (b, i), -0.25, 0.25)
    ff = uf_ff(cx, na, "ff", vir=False)
    kw.setdefault("spring", {"varsprings": False, "kappa": cx.real("kappa", 0.25, 4) if free else 1.5, "kappamax": 1.5, "kappamin": 0.5})
    kw.setdefault("endpoints", {"optimize": False, "algorithm": "bfgs"})
    kw.setdefault("tangent", "plain")
    mot = N.NEBMover(fixatoms_dof=np.asarray(list(fix), int), **kw)
    beads = make_beads(cx, nimg, na, masses=np.asarray([1.0, 2.0][:na]), q=q, p=np.zeros((nimg, 3 * na)), names=["H"] * na)
    s = build(cx, nimg, na, ffs={"ff": ff}, temp=1.0, motion=mot, beads=beads)
    s.q = q
    s.ff = ff
    s.act = [i for i in range(3 * na) if i not in fix]
    return s


def norm(v):
    t = 0.0
    for x in v:
        t = t + x * x
    return t**0.5


def dot(a, b):
    t = 0.0
    for x, y in zip(a, b):
        t = t + x * y
    return t


def physical(cx, s, q):
    h = D(cx, s.cell.h)
    r = [s.ff.fun(x, h) for x in q]
    return [x[0] for x in r], [x[1] for x in r]


def band_gradient(cx, s, q, tangent, kappa):
    """the forces of the method, from the definition"""
    e, f = physical(cx, s, q)
    out = []
    for i in range(1, len(q) - 1):
        d1 = [q[i][k] - q[i - 1][k] for k in s.act]
        d2 = [q[i + 1][k] - q[i][k] for k in s.act]
        n1, n2 = norm(d1), norm(d2)
        if tangent == "plain":
            t = [x / n1 + y / n2 for x, y in zip(d1, d2)]
        elif e[i + 1] > e[i] and e[i] > e[i - 1]:
            t = d2
        elif e[i + 1] < e[i] and e[i] < e[i - 1]:
            t = d1
        else:
            u, v = abs(e[i + 1] - e[i]), abs(e[i - 1] - e[i])
            hi, lo = (u, v) if u > v else (v, u)
            t = [x * lo + y * hi for x, y in zip(d1, d2)] if e[i + 1] > e[i - 1] else [x * hi + y * lo for x, y in zip(d1, d2)]
        n = norm(t)
        t = [x / n for x in t]
        fi = [f[i][k] for k in s.act]
        c = dot(fi, t)
        out.append([-(x - c * y + kappa * (n2 - n1) * y) for x, y in zip(fi, t)])
    tot = 0.0
    for x in e:
        tot = tot + x
    return tot, out


@harness(params=[dict(nimg=n, na=a, fix=f, tangent=t) for n, a, f in ((3, 1, ()), (4, 1, ()), (3, 2, ()), (3, 2, (0, 1, 2)), (4, 2, (5,)), (4, 2, (3, 4, 5))) for t in ("plain", "improved")], tokens=True, witnesses=1, limit=120)
def band_forces(cx, nimg, na, fix, tangent):
    """perpendicular part of the physical force plus springs along the band"""
    np = cx.np
    s = band(cx, nimg, na, fix, free=tangent == "plain", tangent=tangent)
    kappa = s.motion.spring["kappa"]
    gm = s.motion.nebgm
    gm.kappa = kappa
    if tangent == "improved":
        e, f = physical(cx, s, s.q)
        for i in range(nimg):
            for j in range(i):
                cx.assume(abs(e[i] - e[j]) > 0.01)
    x = s.q[1:-1][:, s.act]
    e0, g0 = gm(x.copy())
    we, wg = band_gradient(cx, s, s.q, tangent, kappa)
    cx.eq(e0, we, "energy of the band")
    cx.eq(np.asarray(g0), np.asarray(wg), "gradient of the band", tol=1e-7)
    # somewhere else
    y = x.copy()
    y[0, 0] = y[0, 0] + 0.25
    q = s.q.copy()
    q[1, s.act[0]] = y[0, 0]
    if tangent == "improved":
        e, f = physical(cx, s, q)
        for i in range(nimg):
            for j in range(i):
                cx.assume(abs(e[i] - e[j]) > 0.01)
    e1, g1 = gm(y)
    we, wg = band_gradient(cx, s, q, tangent, kappa)
    cx.eq(e1, we, "energy of the band after a move")
    cx.eq(np.asarray(g1), np.asarray(wg), "gradient of the band after a move", tol=1e-7)


def climb_gradient(cx, s, q, i):
    e, f = physical(cx, s, q)
    d1 = [q[i][k] - q[i - 1][k] for k in s.act]
    d2 = [q[i + 1][k] - q[i][k] for k in s.act]
    n1, n2 = norm(d1), norm(d2)
    t = [x / n1 + y / n2 for x, y in zip(d1, d2)]
    n = norm(t)
    t = [x / n for x in t]
    fi = [f[i][k] for k in s.act]
    c = dot(fi, t)
    return e[i], [-(x - 2 * c * y) for x, y in zip(fi, t)]


def optimizer(cx, s, mode, seen, moves):
    """stands for any optimizer: checks what it is given, moves anywhere and evaluates there"""
    np = cx.np
    N = cx.mod("ipi.engine.motion.neb")

    def go(x0, fdf, fdf0):
        seen.append((np.asarray(x0).copy(), fdf0[0], np.asarray(fdf0[1]).copy()))
        x = np.asarray(x0).copy()
        cx.check(x.size > 0, "the optimizer starts from somewhere")
        f = x.reshape(-1)
        f[0] = f[0] + moves[len(seen) - 1]
        fdf(f.reshape(x.shape))

    def bfgs(x0, fdf, fdf0, hessian, big_step):
        go(x0, fdf, fdf0)
        return 0.7

    def fire(x0, fdf, fdf0, v=None, a=0.1, N_dn=0, N_up=0, dt=0.1, **k):
        go(x0, fdf, fdf0)
        return v, a, N_dn, N_up, dt

    for m in (N, cx.mod("ipi.utils.mintools")):
        m.Damped_BFGS, m.FIRE = bfgs, fire


TIGHT = {"energy": 1e-12, "force": 1e-12, "position": 1e-12}
LOOSE = {"energy": 1e6, "force": 1e6, "position": 1e6}


def same(cx, s, q, label):
    cx.eq(D(cx, s.beads.q), q, label + ": positions")
    e, f = physical(cx, s, q)
    cx.eq(D(cx, s.forces.pots), np_(cx, e), label + ": energies of the images")
    cx.eq(D(cx, s.forces.f), np_(cx, f), label + ": forces of the images")


def np_(cx, x):
    return cx.np.asarray([list(r) if hasattr(r, "__len__") else r for r in x])


@harness(params=[dict(mode=m, nimg=n, na=a, fix=f) for m in ("damped_bfgs", "fire") for n, a, f in ((3, 1, ()), (4, 1, ()), (3, 2, (0, 1, 2)))], tokens=True, witnesses=1, limit=120)
def steps(cx, mode, nimg, na, fix):
    """only the inner images and free atoms move, where the optimizer says, and the system knows its own energies and forces"""
    s = band(cx, nimg, na, fix, mode=mode, tolerances=dict(TIGHT))
    mv = [0.25, -0.375]
    seen = []
    optimizer(cx, s, mode, seen, mv)
    q = s.q.copy()
    kappa = s.motion.spring["kappa"]
    for k in range(1 if nimg == 4 else 2):
        we, wg = band_gradient(cx, s, q, "plain", kappa)
        s.motion.step(k)
        cx.eq(seen[k][0], q[1:-1][:, s.act], "the optimizer starts from the band")
        cx.eq(seen[k][1], we, "the optimizer knows the energy of the band")
        cx.eq(seen[k][2], np_(cx, wg), "the optimizer knows the gradient of the band", tol=1e-7)
        q[1, s.act[0]] = q[1, s.act[0]] + mv[k]
        same(cx, s, q, "after step %d" % k)
        cx.check(not s.motion.finished and s.motion.stage == "neb", "not converged")


@harness(params=[dict(mode=m, nimg=n, na=a, fix=f, top=t) for m in ("damped_bfgs", "fire") for n, a, f in ((3, 1, ()), (4, 1, ()), (3, 2, (0, 1, 2))) for t in range(n)], tokens=True, witnesses=1, limit=120)
def climbing(cx, mode, nimg, na, fix, top):
    """the image with the highest energy climbs, alone, after the band has converged"""
    direct = nimg == 4
    s = band(cx, nimg, na, fix, mode=mode, tolerances=dict(LOOSE), use_climb=True, stage="climb" if direct else "neb")
    mv = [0.25, -0.375, 0.125]
    seen = []
    optimizer(cx, s, mode, seen, mv)
    q = s.q.copy()
    if direct:
        seen.append(None)
    else:
        s.motion.step(0)
        q[1, s.act[0]] = q[1, s.act[0]] + mv[0]
        same(cx, s, q, "converged band")
    cx.check(s.motion.stage == "climb" and not s.motion.finished, "climbing follows")
    e, f = physical(cx, s, q)
    for b in range(nimg):
        if b != top:
            cx.assume(e[top] > e[b] + 0.01)
    s.motion.tolerances = dict(TIGHT)
    for k in (1, 2):
        if k == 2:
            s.motion.tolerances = dict(LOOSE)
        s.motion.step(k)
        if top in (0, nimg - 1):
            cx.check(bool(s.motion.finished) and s.motion.exit_status == "bad", "end points do not climb")
            cx.check(len(seen) == 1, "nothing moves")
            same(cx, s, q, "refused")
            return
        we, wg = climb_gradient(cx, s, q, top)
        cx.eq(seen[k][0].reshape(-1), q[top][s.act], "the optimizer starts from the image")
        cx.eq(seen[k][1], we, "the optimizer knows the energy of the image")
        cx.eq(seen[k][2].reshape(-1), np_(cx, wg), "the optimizer knows the climbing gradient", tol=1e-7)
        q[top, s.act[0]] = q[top, s.act[0]] + mv[k]
        same(cx, s, q, "after climbing step %d" % k)
        cx.check(bool(s.motion.finished) == (k == 2), "finished when converged")
    cx.check(s.motion.stage == "converged" and s.motion.exit_status == "success", "converged")
    n = len(seen)
    s.motion.step(3)
    cx.check(len(seen) == n, "nothing is done when converged")


@harness(params=[dict(off=o, mode=m) for o in (None, "energy", "force", "position") for m in ("damped_bfgs", "fire")], tokens=True, witnesses=1, limit=120)
def converged(cx, off, mode):
    """all of the criteria have to be met"""
    tol = dict(LOOSE)
    if off:
        tol[off] = 1e-12
    s = band(cx, 3, 1, (), mode=mode, tolerances=tol)
    mv = [0.25]
    seen = []
    optimizer(cx, s, mode, seen, mv)
    q = s.q.copy()
    q1 = q.copy()
    q1[1, 0] = q1[1, 0] + mv[0]
    if off == "energy":
        cx.assume(abs(physical(cx, s, q)[0][1] - physical(cx, s, q1)[0][1]) > 0.01)
    if off == "force":
        g = band_gradient(cx, s, q1, "plain", s.motion.spring["kappa"])[1]
        cx.assume(abs(g[0][0]) > 0.01)
    s.motion.step(0)
    cx.check(bool(s.motion.finished) == (off is None), "finished")
    cx.check(s.motion.stage == ("converged" if off is None else "neb"), "stage")
    if off is None:
        cx.check(s.motion.exit_status == "success", "status")


@harness(params=[dict(stage=g, size=z, fix=f) for g in ("neb", "climb") for z in ("none", "active", "wrong") for f in ((), (0, 1, 2))], tokens=True)
def hessians(cx, stage, size, fix):
    """a Hessian of the right size is kept, as in a restart, and others are refused"""
    np = cx.np
    n = (6 - len(fix)) * (2 if stage == "neb" else 1)
    h = {"none": np.eye(0), "active": np.eye(n) * 2.0, "wrong": np.eye(n + 1)}[size]
    try:
        s = band(cx, 4, 2, fix, mode="damped_bfgs", stage=stage, hessian_bfgs=h)
        ok = True
    except ValueError:
        ok = False
    cx.check(ok == (size != "wrong"), "accepted")
    if ok:
        cx.eq(s.motion.hessian, np.eye(n) * (1.0 if size == "none" else 2.0), "Hessian")
