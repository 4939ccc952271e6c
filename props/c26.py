"""Composite force fields: committees, rotational averages, cavity photons."""

from symx.base import harness
from props.common import *

PRELOAD = PRE + ["ipi.engine.forcefields", "ipi.engine.atoms", "ipi.utils.mathtools", "ipi.utils.softexit"]
BOUNDS = "committees of up to 3 members (and up to 3 JSON members each), 1-2 atoms; rotation grids of the identity, two arbitrary rotations, and any random rotation; one cavity mode with 1-2 atoms."


class Mem(Stub):
    """member forcefield: answers at once with what the harness says"""

    def __init__(self, name, fun):
        self.name = name
        self.fun = fun
        self.requests = []
        self.released = []
        self.seen = []

    def queue(self, atoms, cell, reqid=-1):
        r = Req(status="Done", id=reqid, result=self.fun(atoms, cell))
        self.requests.append(r)
        self.seen.append((atoms, cell))
        return r

    def release(self, r, lock=True):
        self.released.append(r)

    def start(self):
        pass

    def bind(self, output_maker=None):
        pass


def structure(cx, natoms, h=None):
    Atoms = cx.mod("ipi.engine.atoms").Atoms
    a = Atoms(natoms)
    a.q = cx.reals("q", 3 * natoms, -2, 2)
    return a, make_cell(cx, h)


def evaluate(cx, ff, a, c):
    cx.silence()
    r = ff.queue(a, c, 3)
    n = 0
    while r["status"] != "Done" and n < 3:
        ff.poll()
        n += 1
    cx.check(r["status"] == "Done", "the request is answered")
    return r


def members(cx, n, natoms, grads=True):
    """n member results: potentials, forces and virials that are arbitrary"""
    u = [cx.real("u%d" % k, -2, 2) for k in range(n)]
    f = [cx.reals("f%d" % k, 3 * natoms, -2, 2) for k in range(n)]
    v = [cx.reals("v%d" % k, (3, 3), -2, 2) for k in range(n)]
    return u, f, v


def mean(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s / float(len(xs))


@harness(params=[dict(n=1, natoms=2), dict(n=2, natoms=2), dict(n=3, natoms=1)], bounds="1-3 members, 1-2 atoms, any scaling factor", witnesses=1)
def committee(cx, n, natoms):
    """a committee returns the mean of its members, and all of what they said"""
    np = cx.np
    ffm = cx.mod("ipi.engine.forcefields")
    u, f, v = members(cx, n, natoms)
    alpha = cx.real("alpha", 0.1, 3)
    off = cx.real("offset", -1, 1)
    mem = [Mem("m%d" % k, lambda a, c, k=k: [u[k], f[k].copy(), v[k].copy(), {"raw": "r%d" % k, "dipole": [float(k)]}]) for k in range(n)]
    ff = ffm.FFCommittee(fflist=mem, alpha=alpha, offset=off, dopbc=False)
    a, c = structure(cx, natoms)
    r = evaluate(cx, ff, a, c)
    U, F, V, X = r["result"]
    um, fm, vm = mean(u), mean(f), mean(v)
    cx.eq(U, um - off, "energy is the mean, minus the offset")
    cx.eq(F, fm, "force is the mean")
    cx.eq(V.reshape(-1), vm.reshape(-1), "virial is the mean")
    for k in range(n):
        cx.eq(X["committee_pot"][k], um + alpha * (u[k] - um), "rescaled member energies")
        cx.eq(X["committee_force"][k], fm + alpha * (f[k] - fm), "rescaled member forces")
        cx.eq(X["committee_virial"][k].reshape(-1), (vm + alpha * (v[k] - vm)).reshape(-1), "rescaled member virials")
    if n > 1:
        var = sum((alpha * (x - um)) ** 2 for x in u) / (n - 1)
        cx.eq(X["committee_uncertainty"] ** 2, var, "uncertainty is the standard deviation of the rescaled energies")
    cx.check(X["committee_raw"] == ["r%d" % k for k in range(n)], "extras of all members are reported in order")
    cx.check(X["committee_dipole"] == [[float(k)] for k in range(n)], "extra fields of all members are reported in order")
    for m in mem:
        cx.check(len(m.released) == 1 and m.released[0] is m.requests[0], "member requests are released")


@harness(params=[dict(flat=fl, groups=g) for fl in (False, True) for g in ((2,), (3,), (2, 2))], bounds="one or two members returning 2-3 JSON committee members, nested or flattened", witnesses=1)
def committee_json(cx, flat, groups):
    """committee members packed in the extras are treated as individual members"""
    np = cx.np
    natoms = 2
    ffm = cx.mod("ipi.engine.forcefields")
    n = sum(groups)
    u, f, v = members(cx, n, natoms)
    alpha = cx.real("alpha", 0.1, 3)
    mem, k = [], 0
    for g in groups:
        ks = list(range(k, k + g))
        k += g

        def fun(a, c, ks=ks):
            fr = [list(f[j]) for j in ks]
            vi = [[list(row) for row in v[j]] for j in ks]
            if flat:
                fr = [x for y in fr for x in y]
                vi = [x for y in vi for z in y for x in z]
            return [mean([u[j] for j in ks]), mean([f[j] for j in ks]), mean([v[j] for j in ks]), {"raw": "x", "committee_pot": [u[j] for j in ks], "committee_force": fr, "committee_virial": vi}]

        mem.append(Mem("m%d" % k, fun))
    ff = ffm.FFCommittee(fflist=mem, alpha=alpha, dopbc=False, parse_json=True)
    a, c = structure(cx, natoms)
    U, F, V, X = evaluate(cx, ff, a, c)["result"]
    um, fm, vm = mean(u), mean(f), mean(v)
    cx.eq(U, um, "energy is the mean over the members")
    cx.eq(F, fm, "force is the mean over the members")
    cx.eq(V.reshape(-1), vm.reshape(-1), "virial is the mean over the members")
    cx.check(len(X["committee_pot"]) == n, "all members are listed")
    for k in range(n):
        cx.eq(X["committee_pot"][k], um + alpha * (u[k] - um), "rescaled member energies")
        cx.eq(X["committee_force"][k], fm + alpha * (f[k] - fm), "rescaled member forces")
        cx.eq(X["committee_virial"][k].reshape(-1), (vm + alpha * (v[k] - vm)).reshape(-1), "rescaled member virials")
    var = sum((alpha * (x - um)) ** 2 for x in u) / (n - 1)
    cx.eq(X["committee_uncertainty"] ** 2, var, "uncertainty is the standard deviation of the rescaled energies")


@harness(params=[dict(pos=p, packed=k) for p in (0, 1, 2) for k in (False, True) if not (k and p == 2)], bounds="baseline at any place in the list, correction of 2 members", witnesses=1)
def baseline(cx, pos, packed):
    """the weighted-baseline energy and its exact gradient"""
    np = cx.np
    ffm = cx.mod("ipi.engine.forcefields")
    n = 2
    natoms = 1
    # member energies are arbitrary functions of the position, of which the value
    # and the slope at the current point are free; same for the baseline
    u, f, v = members(cx, n, natoms)
    ub, fb, vb = cx.real("ub", -2, 2), cx.reals("fb", 3, -2, 2), cx.reals("vb", (3, 3), -2, 2)
    alpha = cx.real("alpha", 0.5, 2)
    sb = cx.real("sb", 0.5, 2)
    off = cx.real("offset", -1, 1)
    base = Mem("base", lambda a, c: [ub, fb.copy(), vb.copy(), {"raw": "b"}])
    if packed:
        mem = [Mem("m", lambda a, c: [mean(u), mean(f), mean(v), {"raw": "x", "committee_pot": list(u), "committee_force": [list(x) for x in f], "committee_virial": [[list(y) for y in x] for x in v]}])]
    else:
        mem = [Mem("m%d" % k, lambda a, c, k=k: [u[k], f[k].copy(), v[k].copy(), {"raw": "r"}]) for k in range(n)]
    mem.insert(pos, base)
    ff = ffm.FFCommittee(fflist=mem, alpha=alpha, offset=off, dopbc=False, baseline_name="base", baseline_uncertainty=sb, parse_json=packed)
    a, c = structure(cx, natoms)
    U, F, V, X = evaluate(cx, ff, a, c)["result"]

    um = mean(u)
    var = alpha**2 * sum((x - um) ** 2 for x in u) / (n - 1)
    w = sb**2 / (sb**2 + var)
    cx.eq(U, ub + um * w - off, "baseline plus the correction weighted by its uncertainty")
    # gradient: dE = sum_k dE/du_k du_k + du_b, with du = -f dx
    for comp in range(3):
        g = fb[comp]
        for k in range(n):
            dvar = alpha**2 * 2 * (u[k] - um) / (n - 1)
            g = g + (w / n - um * sb**2 / (sb**2 + var) ** 2 * dvar) * f[k][comp]
        cx.eq(F[comp], g, "force is minus the gradient of that energy")
    for i in range(3):
        for j in range(3):
            g = vb[i, j]
            for k in range(n):
                dvar = alpha**2 * 2 * (u[k] - um) / (n - 1)
                g = g + (w / n - um * sb**2 / (sb**2 + var) ** 2 * dvar) * v[k][i, j]
            cx.eq(V[i, j], g, "virial is the strain derivative of that energy")
    cx.eq(X["wb_mixing"][0], w, "mixing weight")
    cx.eq(X["baseline_pot"][0], ub, "baseline energy")


@harness(params=[dict()], bounds="two members with weights between 0.5 and 2", witnesses=1)
def committee_weights(cx):
    """members are weighted as asked and divided by their number"""
    ffm = cx.mod("ipi.engine.forcefields")
    u, f, v = members(cx, 2, 1)
    w = cx.reals("w", 2, 0.5, 2)
    mem = [Mem("m%d" % k, lambda a, c, k=k: [u[k], f[k].copy(), v[k].copy(), {"raw": ""}]) for k in range(2)]
    ff = ffm.FFCommittee(fflist=mem, ffweights=w, dopbc=False)
    a, c = structure(cx, 1)
    U, F, V, X = evaluate(cx, ff, a, c)["result"]
    cx.eq(U, (w[0] * u[0] + w[1] * u[1]) / 2, "members are weighted")
    cx.eq(F, (w[0] * f[0] + w[1] * f[1]) / 2, "members are weighted")


@harness(params=[dict()], bounds="any uncertainty and threshold, 2 members", witnesses=1, tokens=True)
def active_learning(cx):
    """structures are saved exactly when the uncertainty exceeds the threshold"""
    ffm = cx.mod("ipi.engine.forcefields")
    import json

    u, f, v = members(cx, 2, 1)
    th = cx.real("threshold", 0.1, 1)
    mem = [Mem("m%d" % k, lambda a, c, k=k: [u[k], f[k].copy(), v[k].copy(), {"raw": ""}]) for k in range(2)]
    ff = ffm.FFCommittee(fflist=mem, dopbc=False, active_thresh=th, active_out="x")
    out = []
    om = Stub()
    om.get_output = lambda *a, **k: Stub(write=lambda s: out.append(s))
    ff.bind(om)
    a, c = structure(cx, 1)
    cx.patch(ffm, "json", Stub(dumps=lambda d: d))
    r = evaluate(cx, ff, a, c)
    d = u[0] - u[1]
    s2 = d * d / 2
    if out:
        cx.check(s2 > th * th, "only uncertain structures are saved")
        cx.check(len(out) == 1, "once")
        dst = cx.mod("ipi.utils.depend").dstrip
        for x, y in zip(out[0]["position"], dst(a.q)):
            cx.eq(x, y, "the structure that is uncertain is saved")
    else:
        cx.check(s2 <= th * th, "all uncertain structures are saved")


# ---------------------------------------------------------------- rotations
def pes(cx, q, h):
    n = len(q)
    v = cx.ufunc("pes%d" % n, list(q) + list(h.reshape(-1)), 1 + n + 9, -2.0, 2.0)
    return v[0], v[1 : n + 1].copy(), v[n + 1 :].reshape(3, 3).copy()


def rotff(cx, mode, inversion, random, off, fun, prng=None):
    np = cx.np
    ffm = cx.mod("ipi.engine.forcefields")
    mem = Mem("m", fun)
    cx.silence()
    ff = ffm.FFRotations(ffdirect=mem, prng=prng if prng is not None else cx.prng(), offset=off, random=random, inversion=inversion, dopbc=False)
    return ff, mem


def rotmat(kind, np):
    """exact rotations by rational cosines"""
    c, s = 0.6, 0.8
    if kind == 0:
        return np.array([[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]])
    return np.array([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])


@harness(params=[dict(inv=i, grid=g, natoms=n) for i in (False, True) for g, n in (("one", 1), ("two", 2))], bounds="identity, or two rotations with arbitrary weights; triclinic cell; any potential", witnesses=1)
def rotations(cx, inv, grid, natoms):
    """results of rotated copies are turned back and averaged with their weights"""
    np = cx.np
    dst = cx.mod("ipi.utils.depend").dstrip
    off = cx.real("offset", -1, 1)

    def fun(a, c):
        u, f, v = pes(cx, list(dst(a.q)), dst(c.h))
        return [u, f, v, {"raw": "r", "k": 1.0}]

    ff, mem = rotff(cx, "lebedev", inv, False, off, fun)
    cx.check(len(ff._rotations) == 1, "the default grid is a single orientation")
    if grid == "one":
        R0 = np.identity(3)
        grid_ = [(R0, 1.0)]
    else:
        w = cx.reals("w", 2, 0.25, 2)
        grid_ = [(rotmat(k, np), w[k]) for k in range(2)]
    ff._rotations = [(R, w, None) for R, w in grid_]
    h = np.array([[3.0, 0.5, -0.25], [0.0, 2.0, 0.75], [0.0, 0.0, 4.0]])
    a, c = structure(cx, natoms, h)
    q0 = dst(a.q).copy()
    r = evaluate(cx, ff, a, c)
    U, F, V, X = r["result"]
    eu, ef, ev, ew = 0.0, np.zeros((natoms, 3)), np.zeros((3, 3)), 0.0
    for R, w in grid_:
        for s in (1.0, -1.0) if inv else (1.0,):
            T = R * s
            u, f, v = pes(cx, list((q0.reshape(-1, 3) @ T.T).reshape(-1)), T @ h)
            eu = eu + w * u
            ef = ef + w * (f.reshape(-1, 3) @ T)
            ev = ev + w * (T.T @ v @ T)
            ew = ew + w
    cx.eq(U, eu / ew - off, "energy averaged over the orientations, minus the offset")
    cx.eq(F, (ef / ew).reshape(-1), "forces turned back and averaged")
    cx.eq(V.reshape(-1), (ev / ew).reshape(-1), "virial turned back and averaged")
    n = len(grid_) * (2 if inv else 1)
    cx.check(len(mem.released) == n and len(mem.requests) == n, "each orientation is evaluated once and released")
    cx.check(len(X["o3grid_pots"]) == n, "energies of all orientations are reported")
    cx.check(len(X["k"]) == n, "extras of all orientations are reported")
    cx.eq(dst(a.q).copy(), q0, "the positions are left alone")
    cx.eq(dst(c.h).copy(), h, "the cell is left alone")


@harness(params=[dict(grid=g, inv=i, axis=ax) for g in ("one", "two") for i in (False, True) for ax in (1, 3)], thorough=[dict(grid="one", inv=i, axis=0) for i in (False, True)], bounds="any random rotation about a coordinate axis (thorough: any rotation), proper or not, on top of one or two grid points; 2 atoms, invariant pair potential with any parameters", witnesses=1, limit=600)
def invariance(cx, grid, inv, axis):
    """for an invariant potential the average is the plain result whatever the
    rotations are, including random ones"""
    np = cx.np
    dst = cx.mod("ipi.utils.depend").dstrip
    k = cx.real("k", 0.5, 2)

    def fun(a, c):
        q = dst(a.q)
        h = dst(c.h)
        d = q[:3] - q[3:]
        u = k * (d * d).sum() / 2
        f = np.zeros(6)
        f[:3] = -k * d
        f[3:] = k * d
        v = np.zeros((3, 3))
        for i in range(3):
            for j in range(3):
                v[i, j] = -k * d[i] * d[j] + (h[i] * h[j]).sum()
        return [u, f, v, {"raw": ""}]

    class Rnd(Stub):
        u = cx.real("u", 0, 1)

        def gvec(self, shape):
            x = np.zeros(4)
            for i in range(4) if axis == 0 else (0, axis):
                x[i] = cx.real("g%d" % i, 0.5, 2)
            return x

    ff, mem = rotff(cx, "lebedev", inv, True, 0.0, fun, prng=Rnd())
    if grid == "two":
        ff._rotations = [(rotmat(j, np), 1.0 + j, None) for j in range(2)]
    a, c = structure(cx, 2, np.array([[3.0, 0.5, 0.0], [0.0, 2.0, 0.75], [0.0, 0.0, 4.0]]))
    U, F, V, X = evaluate(cx, ff, a, c)["result"]
    u, f, v, _ = fun(a, c)
    cx.eq(U, u, "energy")
    cx.eq(F, f, "forces")
    cx.eq(V.reshape(-1), v.reshape(-1), "virial")


@harness(params=[dict(mode=m, order=o) for m, o in (("lebedev", 1), ("lebedev", 3), ("lebedev", 5), ("legendre", 1), ("legendre", 2), ("legendre", 3))], bounds="tabulated grids up to order 5; any linear or quadratic function of the orientation", witnesses=1)
def grids(cx, mode, order):
    """grid points are proper rotations with positive weights, and average any
    linear (order > 1) or quadratic (order > 2) function of the orientation to
    its mean over all rotations"""
    np = cx.np
    mt = cx.mod("ipi.utils.mathtools")
    g = mt.get_rotation_quadrature_lebedev(order) if mode == "lebedev" else mt.get_rotation_quadrature_legendre(order)
    cx.check(len(g) >= 1, "the grid is not empty")
    tot = 0.0
    a, b = cx.reals("a", 3, -2, 2), cx.reals("b", 3, -2, 2)
    lin, quad = 0.0, 0.0
    for R, w, _ in g:
        R = np.array(R)
        cx.eq((R @ R.T).reshape(-1), np.identity(3).reshape(-1), "orthogonal")
        cx.eq(np.linalg.det(R), 1.0, "proper")
        cx.check(w > 0, "weights are positive")
        tot = tot + w
        x = (a * (R @ b)).sum()
        lin = lin + w * x
        quad = quad + w * x * x
    if order > 1:
        cx.eq(lin / tot, 0.0 * a[0], "vectors average to zero")
    if order > 2:
        cx.eq(quad / tot, (a * a).sum() * (b * b).sum() / 3, "tensors average to their isotropic part")


@harness(params=[dict()], bounds="all Gaussian numbers away from zero", witnesses=1, limit=240)
def random_rotations(cx):
    """random rotations are orthogonal"""
    np = cx.np
    mt = cx.mod("ipi.utils.mathtools")
    x = cx.reals("x", 4, 0.5, 2)
    q = x / np.sqrt((x**2).sum())
    R = mt.quat2rot(q)
    cx.eq((R @ R.T).reshape(-1), np.identity(3).reshape(-1), "orthogonal")
    cx.eq(np.linalg.det(R), 1.0, "proper")


# ---------------------------------------------------------------- cavity
class Sock(Stub):
    def __init__(self, cx, fun):
        self.cx, self.fun = cx, fun
        self.requests = None
        self.offset = 0.0
        self.batch_size = 1
        self.consolidate_messages = True

    def poll(self):
        for r in self.requests:
            if r["status"] == "Queued":
                u, f, v, x = self.fun(r["pos"], r["cell"][0])
                r["result"] = [u - self.offset, f, v, x]
                r["status"] = "Done"
                r._event_done.set()


@harness(params=[dict(rep=r, surf=s, natoms=n) for r in ("loose", "dense") for s in (False, True) for n in (1, 2)], bounds="one mode of any frequency and coupling, any charges or dipole derivatives", witnesses=1)
def cavity(cx, rep, surf, natoms):
    """light-matter energy and forces are consistent: the force is minus the
    gradient of the energy for photons and atoms"""
    np = cx.np
    ffm = cx.mod("ipi.engine.forcefields")
    dst = cx.mod("ipi.utils.depend").dstrip
    cx.silence()
    nph = 2 if rep == "loose" else 1
    n = natoms + nph
    Z = cx.reals("Z", natoms, -2, 2)
    eps = cx.real("eps", 0.1, 1)
    om = cx.real("omega", 0.5, 2)
    off = cx.real("offset", -1, 1)
    D = cx.reals("D", (natoms, 3, 3), -2, 2)  # d mu_i / d r_j of each atom

    a, c = structure(cx, n)
    q = dst(a.q).copy()
    u0, f0, v0 = pes(cx, list(q[: 3 * natoms]), dst(c.h))
    mu0 = cx.reals("mu", 3, -2, 2)
    xtra = {"raw": ""}
    if surf:
        xtra = {"raw": "", "dipole": list(mu0), "dipole_derivative": D.reshape(-1)}
    s = Sock(cx, lambda pos, h: (*[y.copy() if hasattr(y, "copy") else y for y in pes(cx, list(pos), h)], xtra))
    ff = ffm.FFCavPhSocket(interface=s, threaded=False, charge_array=Z, dipole_surface=surf, E0=eps, omega_c=om, ph_rep=rep, offset=off, dopbc=False)
    r = ff.queue(a, c, 0)
    cx.check(r["status"] == "Done", "the request is answered")
    U, F, V, X = r["result"]
    ph = q[3 * natoms :]
    # dipole along x and y and its derivatives
    if surf:
        mu = mu0
        dmu = D
    else:
        mu = [sum(Z[i] * q[3 * i + k] for i in range(natoms)) for k in range(3)]
        dmu = np.zeros((natoms, 3, 3))
        for i in range(natoms):
            for k in range(3):
                dmu[i, k, k] = Z[i]
    ix, iy = (0, 4) if rep == "loose" else (0, 1)
    E = u0 + om**2 / 2 * (ph * ph).sum() + eps * (mu[0] * ph[ix] + mu[1] * ph[iy]) + eps**2 / (2 * om**2) * (mu[0] ** 2 + mu[1] ** 2)
    cx.eq(U, E - off, "energy, with the offset subtracted once")
    for j in range(3 * nph):
        g = -(om**2) * ph[j]
        if j == ix:
            g = g - eps * mu[0]
        if j == iy:
            g = g - eps * mu[1]
        cx.eq(F[3 * natoms + j], g, "photon forces")
    ex, ey = eps * ph[ix] + eps**2 / om**2 * mu[0], eps * ph[iy] + eps**2 / om**2 * mu[1]
    for i in range(natoms):
        for j in range(3):
            cx.eq(F[3 * i + j], f0[3 * i + j] - ex * dmu[i, 0, j] - ey * dmu[i, 1, j], "forces on the atoms")
    cx.eq(V.reshape(-1), v0.reshape(-1), "virial of the atoms")
    cx.check(len(ff.requests) == 0, "the request leaves the queue")
