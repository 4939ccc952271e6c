"""Built-in potentials: forces are minus the gradient of the energy, virials the
strain derivative, batches equal to single evaluations, parameters as documented."""

import math

from symx.base import harness, Stub
from props.common import *

PRELOAD = PRE + ["ipi.engine.forcefields", "ipi.pes.harmonic", "ipi.pes.doublewell", "ipi.pes.doublewell_with_friction", "ipi.pes.doublewell_with_bath", "ipi.pes.doubledoublewell", "ipi.pes.morse", "ipi.pes.gas", "ipi.pes.spherical_LJ", "ipi.pes.dummy"]
BOUNDS = "1-4 atoms, all coordinates and most parameters symbolic"


def one(x):
    """the single number an energy must be"""
    if hasattr(x, "shape") and x.shape != ():
        return x.reshape(-1)[0]
    return x


def conservative(cx, drv, q, label, virial=False, h=None):
    np = cx.np
    nat = len(q) // 3
    cell = h if h is not None else np.identity(3) * 10.0

    def pot(y):
        return one(drv(cell.copy(), y.reshape(nat, 3).copy())[0])

    q0 = q.copy()
    arg = q.reshape(nat, 3).copy()
    u, f, v, x = drv(cell.copy(), arg)
    cx.eq(arg.reshape(-1), q0, label + ": positions are left alone")
    cx.check(not hasattr(u, "shape") or len(u.reshape(-1)) == 1, label + ": energy is a single number")
    cx.eq(np.asarray(f).reshape(-1), -cx.grad(pot, q), label + ": force is minus the gradient", tol=1e-6)
    cx.eq(np.asarray(v).shape, (3, 3), label + ": shape of the virial")
    if not virial:
        cx.eq(v, np.zeros((3, 3)), label + ": no virial")
    # the same structure again, on its own and in a batch
    u2, f2, v2, x2 = drv(cell.copy(), q.reshape(nat, 3).copy())
    cx.eq([one(u2)] + list(np.asarray(f2).reshape(-1)), [one(u)] + list(np.asarray(f).reshape(-1)), label + ": repeated evaluation")
    z = cx.reals("z", 3 * nat, 0.25, 1.5)
    w = drv(cell.copy(), z.reshape(nat, 3).copy())
    ref = [(u, f, v), (w[0], w[1], w[2]), (u, f, v)]
    b = drv([cell.copy() for i in range(3)], [q.reshape(nat, 3).copy(), z.reshape(nat, 3).copy(), q.reshape(nat, 3).copy()])
    cx.eq(len(b), 3, label + ": one result per structure of a batch")
    for i in range(3):
        cx.eq(one(b[i][0]), one(ref[i][0]), label + ": batched energy")
        cx.eq(np.asarray(b[i][1]).reshape(-1), np.asarray(ref[i][1]).reshape(-1), label + ": batched forces")
        cx.eq(np.asarray(b[i][2]).reshape(-1), np.asarray(ref[i][2]).reshape(-1), label + ": batched virial")
    for args in (([cell], q.reshape(nat, 3)), ([cell], [q.reshape(nat, 3)] * 2)):
        try:
            drv(*args)
            ok = False
        except ValueError:
            ok = True
        cx.check(ok, label + ": mismatched batch refused")
    return u, f, v, x


def pes(cx, name):
    return cx.mod("ipi.pes").load_pes(name, "")


@harness(params=[dict(kind=k, nat=n) for k in ("isotropic", "anisotropic") for n in (1, 2)], bounds="any positions and spring constants")
def harmonic(cx, kind, nat):
    q = cx.reals("q", 3 * nat, -2, 2)
    k = cx.reals("k", 3, 0.5, 2)
    cls = pes(cx, "harmonic")
    d = cls(k[0]) if kind == "isotropic" else cls(k[0], k[1], k[2])
    if kind == "isotropic":
        k = [k[0]] * 3
    u, f, v, x = conservative(cx, d, q, "harmonic")
    e = 0.0
    for i in range(3 * nat):
        e = e + 0.5 * k[i % 3] * q[i] * q[i]
    cx.eq(u, e, "harmonic energy")


@harness(params=[dict(kind=k, nat=n) for k in ("gas", "dummy") for n in (1, 2)], bounds="any positions")
def free(cx, kind, nat):
    q = cx.reals("q", 3 * nat, -2, 2)
    u, f, v, x = conservative(cx, pes(cx, kind)(), q, kind)
    cx.eq(u, 0.0, "no energy")


@harness(params=[dict(nat=n, default=d) for n in (1, 2, 3) for d in (False, True)], bounds="any positions and parameters")
def double_well(cx, nat, default):
    U = cx.mod("ipi.utils.units")
    q = cx.reals("q", 3 * nat, -2, 2)
    if default:
        p = [500.0, 2085.0, 1837.36223469, 0.0]
        d = pes(cx, "DW")()
    else:
        p = [cx.real("wb", 400, 600), cx.real("v0", 1500, 2500), cx.real("m", 1500, 2000), cx.real("delta", -0.25, 0.25)]
        d = pes(cx, "DW")(*p)
    u, f, v, x = conservative(cx, d, q, "double well")
    cx.eq(one(u), dw_energy(cx, q, p), "double well energy", tol=1e-6)


def dw_energy(cx, q, p, harm=True):
    U = cx.mod("ipi.utils.units")
    w = p[0] * U.unit_to_internal("frequency", "inversecm", 1.0)
    v0 = p[1] * U.unit_to_internal("frequency", "inversecm", 1.0)
    dl = p[3] * U.unit_to_internal("length", "angstrom", 1.0)
    kh = 1837.36223469 * (3800.0 / 219323.0) ** 2
    e = 0.0
    for i in range(len(q) // 3):
        e = e - 0.5 * p[2] * w**2 * (q[3 * i] - dl) ** 2 + p[2] ** 2 * w**4 / (16 * v0) * q[3 * i] ** 4
        e = e + 0.5 * kh * (q[3 * i + 1] ** 2 + q[3 * i + 2] ** 2)
    return e


@harness(params=[dict(how="positional"), dict(how="keywords")], bounds="any position and parameters of the well; fixed parameters of the friction")
def double_well_friction(cx, how):
    np = cx.np
    json = cx.mod("ipi.pes.doublewell_with_friction").json
    q = cx.reals("q", 3, -2, 2)
    p = [cx.real("wb", 400, 600), cx.real("v0", 1500, 2500), cx.real("m", 1500, 2000), cx.real("delta", -0.25, 0.25)]
    eta, e1, e2, dq = 1.5, -0.5, 0.25, 1.25
    cls = pes(cx, "DW_friction")
    if how == "positional":
        d = cls(*(p + [eta, e1, e2, dq]))
    else:
        d = cls(w_b=p[0], v0=p[1], m=p[2], delta=p[3], eta0=eta, eps1=e1, eps2=e2, deltaQ=dq)
    caught = []
    cx.patch(json, "dumps", lambda o, *a, **k: caught.append(o) or "{}")

    u, f, v, x = conservative(cx, d, q, "double well with friction")
    cx.eq(one(u), dw_energy(cx, q, p), "double well energy", tol=1e-6)
    fr = np.asarray(caught[0]["friction"])

    def S(y):
        # s(q) = q sd(q)
        t = y[0] / dq
        return y[0] * (1.0 + e1 * np.exp(-0.5 * t**2) + e2 * np.tanh(t))

    ds = cx.grad(S, q)[0]
    ref = np.zeros((3, 3))
    ref[0, 0] = eta * ds * ds
    cx.eq(fr.reshape(-1), ref.reshape(-1), "friction tensor", tol=1e-6)
    for i in range(8):
        try:
            cls(*([500.0, 2085.0, 1837.0, 0.0, 1.0, 0.0, 0.0, 1.0][:i]))
            ok = False
        except SystemExit:
            ok = True
        cx.check(ok, "missing parameters refused")


@harness(params=[dict(nat=n, eps=e) for n in (1, 2) for e in (False, True)], bounds="any positions, mass and depth of the well; fixed bath parameters", thorough=[dict(nat=3, eps=True)])
def double_well_bath(cx, nat, eps):
    q = cx.reals("q", 3 * nat, -2, 2)
    m, v0 = cx.real("m", 1500, 2000), cx.real("v0", 1500, 2500)
    e1, e2 = (-0.5, 0.25) if eps else (0.0, 0.0)
    d = pes(cx, "DW_bath")(500.0, v0, m, 0.125, 1.5, e1, e2, 1.25, 500.0)
    conservative(cx, d, q, "double well with bath")


@harness(params=[dict(nat=n, eps=e) for n in (2,) for e in (False, True)], bounds="any positions, coupling, mass and depth of the wells; fixed bath parameters", thorough=[dict(nat=4, eps=True)])
def double_double_well(cx, nat, eps):
    q = cx.reals("q", 3 * nat, -2, 2)
    m, v0, c = cx.real("m", 1500, 2000), cx.real("v0", 1500, 2500), cx.real("c", -1, 1)
    e1, e2 = (-0.5, 0.25) if eps else (0.0, 0.0)
    d = pes(cx, "double_double_well")(500.0, v0, 450.0, 2000.0, c, m, 0.125, 1.5, e1, e2, 1.25, 500.0)
    conservative(cx, d, q, "two double wells with baths")


@harness(params=[dict(nat=n, default=d) for n in (1, 2) for d in (False, True)], bounds="any positions and parameters")
def morse(cx, nat, default):
    np = cx.np
    q = cx.reals("q", 3 * nat, -2, 2)
    d = pes(cx, "MorseHarmonic")(*([] if default else [cx.real("De", 0.1, 1), cx.real("a", 0.5, 2), cx.real("z0", -1, 1), cx.real("k", 0.5, 2)]))
    u, f, v, x = conservative(cx, d, q, "Morse")
    p = d.potential(q.reshape(nat, 3))
    cx.eq(p.sum(), u, "separate and joint evaluation: energy")
    cx.eq(d.force(q.reshape(nat, 3)).reshape(-1), f.reshape(-1), "separate and joint evaluation: forces")


@harness(params=[dict(a=9, b=3, free=i) for i in range(3)] + [dict(a=12, b=6, free=0), dict(a=9, b=3, free=None)], bounds="one of two atoms inside the sphere, any value of one coordinate (or fixed position, in other units)", limit=60)
def spherical_lj(cx, a, b, free):
    np = cx.np
    units = free is None
    U = cx.mod("ipi.utils.units")
    cen = [-0.25, 0.125, 0.0625]
    l = e = 1.0
    ins = dict(center=list(cen), radius=4.0, sigma=1.5, epsilon=2.5, symbols=["O"], first_power=a, second_power=b)
    if units:
        ins.update(center_unit="angstrom", radius_unit="angstrom", sigma_unit="angstrom", epsilon_unit="electronvolt")
        l, e = U.unit_to_internal("length", "angstrom", 1.0), U.unit_to_internal("energy", "electronvolt", 1.0)
        q = np.asarray([0.0, 0.5, 0.25, 0.5, -0.5, 1.5])
    else:
        q = np.asarray([0.0, 0.5, 0.25, 0.5, -0.5, 1.5]) * np.ones(6)
        q[3 + free] = cx.real("q", 0.25, 0.75)
    d = pes(cx, "Spherical_LJ")("none", ins, symbols=["H", "O"])
    if units:
        u, f, v, x = d(np.identity(3) * 20, q.reshape(2, 3).copy())
    else:
        u, f, v, x = d(np.identity(3) * 20, q.reshape(2, 3).copy())

        def pot(y):
            z = q.copy()
            z[3 + free] = y[0]
            return d(np.identity(3) * 20, z.reshape(2, 3).copy())[0]

        cx.eq(np.asarray(f).reshape(-1)[3 + free], -cx.grad(pot, q[3 + free : 4 + free])[0], "spherical wall: force is minus the gradient", tol=1e-6)
    f = np.asarray(f).reshape(2, 3)
    cx.eq(f[0], [0.0, 0.0, 0.0], "other species feel nothing")
    cx.eq(v, np.zeros((3, 3)), "spherical wall: no virial")
    r2 = 0.0
    for k in range(3):
        r2 = r2 + (q[3 + k] - cen[k] * l) ** 2
    s = 1.5 * l / (4.0 * l - np.sqrt(r2))
    cx.eq(u, 2.5 * e * (2.0 / 15.0 * s**a - s**b), "energy of the wall in the stated units", tol=1e-6)


# ------------------------------------------------------------ force fields
def evaluator(cx, ff, cell):
    """queue a structure with a (non threaded) force field and collect the result"""
    A = cx.mod("ipi.engine.atoms").Atoms

    def run(q, keep=False):
        at = A(len(q) // 3)
        at.q = q
        r = ff.queue(at, cell, 3)
        cx.check(r["status"] == "Done", "evaluation completes")
        ff.release(r)
        return r["result"]

    return run


def check_ff(cx, ff, q, cell, label, off):
    np = cx.np
    run = evaluator(cx, ff, cell)
    u, f, v, x = run(q)
    cx.eq(np.asarray(f).reshape(-1), -cx.grad(lambda y: run(y)[0], q), label + ": force is minus the gradient", tol=1e-6)
    off0 = ff.offset
    ff.offset = 0.0
    cx.eq(run(q)[0] - off, u, label + ": offset subtracted once")
    ff.offset = off0
    return u, f, v, x


@harness(params=[dict(nat=2), dict(nat=3)], bounds="separated atoms at any positions, any parameters", thorough=[dict(nat=4)], limit=200)
def lennard_jones(cx, nat):
    np = cx.np
    FF = cx.mod("ipi.engine.forcefields").FFLennardJones
    off = cx.real("off", -1, 1)
    eps = cx.real("eps", 0.5, 2)
    q0 = cx.reals("x", 3 * nat, 0, 0.25)
    base = np.asarray([1.5 * (i // 3 if i % 3 == 0 else (i // 3) % 2) for i in range(3 * nat)])
    ff = FF(pars=dict(eps=eps, sigma=1.25), dopbc=False, threaded=False, offset=off)
    run0 = evaluator(cx, ff, make_cell(cx))
    run = lambda y: run0(y + base)
    u, f, v, x = run(q0)
    cx.eq(f, -cx.grad(lambda y: run(y)[0], q0), "Lennard-Jones: force is minus the gradient", tol=1e-6)
    y = q0 + base
    ref = 0.0
    for i in range(nat):
        for j in range(i):
            r2 = ((y[3 * i : 3 * i + 3] - y[3 * j : 3 * j + 3]) ** 2).sum()
            s = (1.25**2 / r2) ** 3
            ref = ref + 4 * eps * (s * s - s)
    cx.eq(u, ref - off, "Lennard-Jones energy, less the offset", tol=1e-6)


@harness(params=[dict(nat=1), dict(nat=2)], bounds="any positions, reference, offset and symmetric Hessian")
def debye(cx, nat):
    np = cx.np
    FF = cx.mod("ipi.engine.forcefields").FFDebye
    n = 3 * nat
    q, x0 = cx.reals("q", n, -2, 2), cx.reals("x", n, -1, 1)
    H = np.zeros((n, n), float)
    for i in range(n):
        for j in range(i, n):
            H[i, j] = H[j, i] = cx.real("H%d_%d" % (i, j), 1, 2) if i == j else cx.real("H%d_%d" % (i, j), -0.25, 0.25)
    off, v0 = cx.real("off", -1, 1), cx.real("v0", -1, 1)
    cx.patch(np.linalg, "eigh", lambda a: (np.ones(len(a)), a))
    ff = FF(H=H, xref=x0, vref=v0, offset=off)
    u, f, v, x = check_ff(cx, ff, q, make_cell(cx), "Debye crystal", off)
    d = q - x0
    cx.eq(u, v0 - off + 0.5 * (d * np.dot(H, d)).sum(), "Debye crystal energy")


@harness(params=[dict(nat=n, move=i, wrap=w) for n in (2, 3) for i in range(n) for w in (False, True)], bounds="one atom anywhere in a box, the others fixed, any couplings and offset, fixed phases", limit=100)
def driven(cx, nat, move, wrap):
    """oscillating pair potential: force, virial and energy"""
    np = cx.np
    FF = cx.mod("ipi.engine.forcefields").FFdmd
    base = np.asarray([1.5 * (i // 3 if i % 3 == 0 else (i // 3) % 2) for i in range(3 * nat)])
    q = cx.reals("q", 3, 0, 0.25)
    npair = nat * (nat - 1) // 2
    c = cx.reals("c", npair, 0.5, 2)
    off = cx.real("off", -1, 1)
    cell = make_cell(cx, np.asarray([[16.0, 2.0, -1.0], [0.0, 16.0, 4.0], [0.0, 0.0, 16.0]]))

    image = np.zeros(3 * nat)
    if wrap:
        # the first atom enters as another periodic image
        image[:3] = np.asarray([16.0 + 2.0, 16.0, 0.0])

    def full(y):
        r = base * np.ones(3 * nat)
        r[3 * move : 3 * move + 3] = y + base[3 * move : 3 * move + 3]
        return r

    for step in (0, 3):
        ff = FF(coupling=c, freq=0.5, dtdmd=0.25, dmdstep=step, offset=off)
        run = evaluator(cx, ff, cell)
        u, f, v, x = run(full(q) + image)
        cx.eq(f[3 * move : 3 * move + 3], -cx.grad(lambda y: run(full(y) + image)[0], q), "driven: force is minus the gradient", tol=1e-6)
        y = full(q).reshape(-1, 3)
        ref = 0.0
        for i in range(nat):
            for j in range(i):
                ref = ref + c[i * (i - 1) // 2 + j] * np.sqrt(((y[i] - y[j]) ** 2).sum())
        cx.eq(u, ref * np.sin(step * 0.125) - off, "driven: energy at this time")
        w = np.zeros((3, 3), float)
        ff3 = f.reshape(-1, 3)
        for i in range(nat):
            for a in range(3):
                for b in range(3):
                    w[a, b] += y[i][a] * ff3[i][b]
        cx.eq(v, w, "driven: virial")
        cx.eq(ff3.sum(axis=0), np.zeros(3), "driven: no net force")
        ff.dmd_update()
        cx.eq(ff.dmdstep, step + 1, "driven: time advances by a step")


@harness(params=[dict(rep=r, surf=s, ev=e) for r in ("loose", "dense") for s in (False, True) for e in (True, False)], bounds="2 atoms and the photons; any positions, charges, coupling and frequency; the dipole surface is any linear function", limit=120)
def cavity(cx, rep, surf, ev):
    np = cx.np
    FFm = cx.mod("ipi.engine.forcefields")
    nat, nph = 2, 2 if rep == "loose" else 1
    n = 3 * nat
    q = cx.reals("q", n + 3 * nph, -2, 2)
    ch = cx.reals("ch", nat, -1, 1)
    E0, om, off = cx.real("E0", 0.1, 1), cx.real("om", 0.5, 2), cx.real("off", -1, 1)
    D = cx.reals("D", (3, n), -1, 1)
    k = cx.real("k", 0.5, 2)

    class Itf(Stub):
        requests = None

        def poll(self):
            for r in ff.requests:
                if r["status"] == "Queued":
                    p = r["pos"]
                    x = {"raw": ""}
                    if surf:
                        x["dipole"] = list(np.dot(D, p))
                        # atom by atom: d mu_x / d(x,y,z), d mu_y / ..., d mu_z / ...
                        x["dipole_derivative"] = np.asarray([D[a, 3 * i + b] for i in range(nat) for a in range(3) for b in range(3)])
                    # (the socket interface subtracts the offset it was given)
                    r["result"] = [0.5 * k * (p * p).sum() - ff.offset, -(k * p), np.zeros((3, 3), float), x]
                    r["status"] = "Done"
                    r._event_done.set()

    ff = FFm.FFCavPhSocket(threaded=False, interface=Itf(), charge_array=ch, dipole_surface=surf, evaluate_photon=ev, E0=E0, omega_c=om, ph_rep=rep, offset=off)
    u, f, v, x = check_ff(cx, ff, q, make_cell(cx), "cavity", off)
    e = 0.5 * k * (q[:n] * q[:n]).sum() - off
    if ev:
        if surf:
            mu = np.dot(D, q[:n])
        else:
            mu = [sum(ch[i] * q[3 * i + a] for i in range(nat)) for a in range(3)]
        ph = q[n:]
        iy = 4 if rep == "loose" else 1
        # 1/2 om^2 q^2 + E0 mu q + E0^2 mu^2 / (2 om^2) for both polarizations
        e = e + 0.5 * om**2 * (ph * ph).sum() + E0 * (mu[0] * ph[0] + mu[1] * ph[iy]) + E0**2 / (2 * om**2) * (mu[0] ** 2 + mu[1] ** 2)
    cx.eq(u, e, "cavity: energy")
