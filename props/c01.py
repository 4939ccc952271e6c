"""Dependency-tracked quantities never go stale."""

from symx.base import harness, Stub
from props.common import *

PRELOAD = PRE + ["ipi.engine.motion.constrained_dynamics"]
BOUNDS = "one representative graph (2 roots, 2 synchronised arrays, 3 computed nodes, 2 pipes, row/flat/reshaped views); histories of 2-4 reads and writes of symbolic values; full simulations of 24 kinds with 2-3 atoms and 1-4 beads: one change of one state variable to an arbitrary value after everything has been read."

OPS = ["wa", "wb", "wb_el", "wb_iadd", "wrow", "wrow_el", "wx", "wy", "wx_el", "wy_slice", "wy_row", "wy_flat_set", "wx_row_set", "imul_x", "wk",
       "rc", "rd", "rx", "ry", "re", "rp", "rb", "rrow", "rall"]


class Obj:
    pass


def make(cx):
    D = cx.mod("ipi.utils.depend")
    np = cx.np

    class O:
        pass

    class H:
        pass

    D.dproperties(O, ["a", "b", "c", "d", "e", "x", "y", "p", "q", "k", "pk"])
    D.dproperties(H, ["v", "w", "r"])
    o, h = O(), H()
    m = Obj()
    m.a = cx.real("a", -2, 2)
    m.b = cx.reals("b", (2, 2), -2, 2)
    m.x = cx.reals("x", (2, 2), -2, 2)
    m.k = cx.reals("k", 2, 0.5, 2)
    m.src = "x"
    S = np.array([[1.0, 1.0], [1.0, -1.0]])
    o.n = [0]

    def cnt(f):
        def g():
            o.n[0] += 1
            return f()

        return g

    fc = lambda: cx.ufunc("c", [o.a] + list(D.dstrip(o.b).reshape(-1)), 1)[0]
    fd = lambda: cx.ufunc("d", [o.c] + list(D.dstrip(o.b).reshape(-1)), 2)
    fe = lambda: cx.ufunc("e", list(D.dstrip(o.d)) + list(D.dstrip(o.y).reshape(-1)), 1)[0]
    o._a = D.depend_value(name="a", value=m.a)
    o._b = D.depend_array(name="b", value=m.b.copy())
    o._k = D.depend_array(name="k", value=m.k.copy())
    # dependants that do not live as long as what they observe
    drop = [D.depend_value(name="tmp", func=lambda: 0.0, dependencies=[z]) for z in (o._a, o._b, o._k)]
    [z.get() for z in drop]
    del drop
    o._c = D.depend_value(name="c", func=cnt(fc), dependencies=[o._a, o._b])
    o._d = D.depend_array(name="d", value=np.zeros(2, float), func=cnt(fd), dependencies=[o._c, o._b])
    sy = D.synchronizer()
    o._x = D.depend_array(name="x", value=m.x.copy(), func={"y": cnt(lambda: np.dot(S, D.dstrip(o.y)) * 0.5)}, synchro=sy)
    o._y = D.depend_array(name="y", value=np.zeros((2, 2), float), func={"x": cnt(lambda: np.dot(S, D.dstrip(o.x)))}, synchro=sy)
    o.x = m.x
    drop = [D.depend_value(name="tmp", func=lambda: 0.0, dependencies=[z]) for z in (o._x, o._y, o._d)]
    [z.get() for z in drop]
    del drop
    o._e = D.depend_value(name="e", func=cnt(fe), dependencies=[o._y, o._d])
    o._p = D.depend_value(name="p", value=0.0)
    D.dpipe(o._a, o._p)
    o._q = D.depend_value(name="q", func=cnt(lambda: o.p * 2.0), dependencies=[o._p])
    o._pk = D.depend_value(name="pk", value=0.0)
    D.dpipe(o._k, o._pk, item=1)
    h._r = o._b[1]
    h._v = o._y.flatten()
    h._w = o._x[1, :]
    h.hy = o._y[0:2, 1]
    h.hx = o._x[0]
    h.rs = o._b.reshape((4,))
    m.S = S
    return D, o, h, m


def mx(m, np):
    return m.x if m.src == "x" else np.dot(m.S, m.y) * 0.5


def my(m, np):
    return m.y if m.src == "y" else np.dot(m.S, m.x)


def apply(cx, D, o, h, m, op, i):
    np = cx.np
    r = lambda: cx.real("w%d" % i, -2, 2)
    R = lambda n: cx.reals("w%d" % i, n, -2, 2)
    if op == "wa":
        m.a = r()
        o.a = m.a
    elif op == "wb":
        m.b = R((2, 2))
        o.b = m.b
        m.b = m.b.copy()
    elif op == "wb_el":
        v = r()
        m.b = m.b.copy()
        m.b[0, 1] = v
        o.b[0, 1] = v
    elif op == "wb_iadd":
        v = r()
        m.b = m.b + v
        o.b += v
    elif op == "wrow":
        v = R(2)
        m.b = m.b.copy()
        m.b[1] = v
        h.r = v
    elif op == "wrow_el":
        v = r()
        m.b = m.b.copy()
        m.b[1, 0] = v
        h.rs[2] = v
    elif op in ("wx", "imul_x", "wx_el", "wx_row_set"):
        x = mx(m, np).copy()
        if op == "wx":
            x = R((2, 2))
            o.x = x
            x = x.copy()
        elif op == "imul_x":
            x = x * 3.0
            o.x *= 3.0
        elif op == "wx_el":
            v = r()
            x[0, 0] = v
            o.x[0, 0] = v
        else:
            v = R(2)
            x[1] = v
            h.w = v
        m.src, m.x = "x", x
    elif op in ("wy", "wy_slice", "wy_row", "wy_flat_set"):
        y = my(m, np).copy()
        if op == "wy":
            y = R((2, 2))
            o.y = y
            y = y.copy()
        elif op == "wy_slice":
            v = r()
            y[0, 1] = v
            h.hy[0] = v
        elif op == "wy_row":
            v = R(2)
            y[1] = v
            o.y[1] = v
        else:
            v = R(4)
            y = v.reshape((2, 2)).copy()
            h.v = v
        m.src, m.y = "y", y
    elif op == "wk":
        m.k = m.k.copy()
        m.k[1] = r()
        o.k[1] = m.k[1]
    elif op == "rall":
        o.e, o.q, o.pk, o.x
    elif op == "rrow":
        h.r[0]
    elif op == "rp":
        o.p
    else:
        getattr(o, op[1:])


def compare(cx, D, o, h, m, order):
    np = cx.np
    c = cx.ufunc("c", [m.a] + list(m.b.reshape(-1)), 1)[0]
    d = cx.ufunc("d", [c] + list(m.b.reshape(-1)), 2)
    e = cx.ufunc("e", list(d) + list(my(m, np).reshape(-1)), 1)[0]
    x, y = mx(m, np), my(m, np)
    tests = [
        ("computed from computed and synchronised", lambda: o.e, e),
        ("computed array", lambda: D.dstrip(o.d), d),
        ("computed value", lambda: o.c, c),
        ("synchronised array x", lambda: D.dstrip(o.x), x),
        ("synchronised array y", lambda: D.dstrip(o.y), y),
        ("piped value", lambda: o.p, m.a),
        ("computed from piped", lambda: o.q, m.a * 2.0),
        ("piped item", lambda: o.pk, m.k[1]),
        ("array", lambda: D.dstrip(o.b), m.b),
        ("row view", lambda: np.asarray(h.r) + 0.0, m.b[1]),
        ("reshaped view", lambda: h.rs + 0.0, m.b.reshape(-1)),
        ("flat view of synchronised", lambda: h.v * 1.0, y.reshape(-1)),
        ("column view of synchronised", lambda: np.asarray(h.hy) + 0.0, y[:, 1]),
        ("row view of synchronised", lambda: np.asarray([h.hx[0], h.hx[1]]), x[0]),
        ("descriptor row view", lambda: D.dstrip(h.w), x[1]),
    ]
    if order:
        tests = tests[::-1]
    for lab, f, ref in tests:
        cx.eq(f(), ref, lab)
    n = o.n[0]
    for lab, f, ref in tests:
        f()
    cx.check(o.n[0] == n, "reading twice does not recompute")


@harness(params=[dict(first=f, order=r, n=2) for f in OPS for r in (0, 1)] + [dict(first=f, order=0, n=3) for f in OPS], thorough=[dict(first=f, order=0, n=4) for f in OPS],
         bounds="first operation fixed per instance, the rest chosen freely; read-back in both orders", limit=60, tlimit=600, max_paths=20000, witnesses=1)
def history(cx, first, order, n):
    D, o, h, m = make(cx)
    apply(cx, D, o, h, m, first, 0)
    for i in range(1, n):
        op = cx.choice("op%d" % i, OPS)
        apply(cx, D, o, h, m, op, i)
    compare(cx, D, o, h, m, order)


HELD = ["T", "flat", "sum", "real", "copy", "iter", "neg", "abs", "rsub", "ufunc", "setitem", "matmul", "idx"]


@harness(params=[dict(how=k) for k in HELD], bounds="a reference obtained before the change, read in each supported way after it", max_paths=2000)
def held_reference(cx, how):
    """a reference obtained before an upstream change shows the new value"""
    D, o, h, m = make(cx)
    np = cx.np
    o.e
    ref = o.d
    y = o.y
    what = cx.choice("what", ["a", "b", "x"])
    if what == "a":
        m.a = cx.real("na", -2, 2)
        o.a = m.a
    elif what == "b":
        m.b = cx.reals("nb", (2, 2))
        o.b = m.b.copy()
    else:
        m.src, m.x = "x", cx.reals("nx", (2, 2))
        o.x = m.x.copy()
    c = cx.ufunc("c", [m.a] + list(m.b.reshape(-1)), 1)[0]
    d = cx.ufunc("d", [c] + list(m.b.reshape(-1)), 2)
    yy = my(m, np)
    if how == "T":
        cx.eq(y.T, yy.T, "transpose of a held reference")
        cx.eq(ref.T, d, "transpose of a held reference")
    elif how == "flat":
        cx.eq([v for v in y.flat], list(yy.reshape(-1)), "flat iterator of a held reference")
    elif how == "sum":
        cx.eq(y.sum(), yy.sum(), "sum of a held reference")
        cx.eq(ref.sum(), d.sum(), "sum of a held reference")
    elif how == "real":
        cx.eq(ref.real, d, "real part of a held reference")
    elif how == "copy":
        cx.eq(ref.copy(), d, "copy of a held reference")
    elif how == "iter":
        cx.eq([v for v in ref], d, "iteration over a held reference")
    elif how == "neg":
        cx.eq(-ref, -d, "negation of a held reference")
    elif how == "abs":
        cx.eq(abs(y), abs(yy), "absolute value of a held reference")
    elif how == "rsub":
        cx.eq(1.0 - y, 1.0 - yy, "arithmetic on a held reference")
        cx.eq(y - ref, yy - d, "arithmetic on two held references")
    elif how == "ufunc":
        cx.eq(np.multiply(ref, 2.0), d * 2.0, "numpy function of a held reference")
    elif how == "matmul":
        cx.eq(np.dot(y, ref), np.dot(yy, d), "product of held references")
    elif how == "idx":
        cx.eq(y[1, 0], yy[1, 0], "element of a held reference")
        cx.eq(D.dstrip(y[1]) + 0.0, yy[1], "row of a held reference")
        cx.eq(D.dstrip(y[:, 0]) + 0.0, yy[:, 0], "column of a held reference")
    elif how == "setitem":
        v = cx.real("v")
        y[0, 0] = v
        yy = yy.copy()
        yy[0, 0] = v
        cx.eq(D.dstrip(o.y) + 0.0, yy, "partial write through a held reference keeps the rest current")
        cx.eq(D.dstrip(o.x), np.dot(m.S, yy) * 0.5, "partial write through a held reference reaches the synchronised array")


@harness(bounds="each kind of computed quantity", params=[dict(kind=k) for k in ("value", "array", "element", "pipe")])
def computed_not_writable(cx, kind):
    """assigning to a quantity that is computed from others is refused"""
    D, o, h, m = make(cx)
    o.e
    v = cx.real("v", -2, 2)
    try:
        if kind == "value":
            o.c = v
        elif kind == "array":
            o.d = cx.reals("vv", 2)
        elif kind == "element":
            o.d[1] = v
        else:
            o.p = v
    except NameError:
        cx.check(True, "refused")
        return
    cx.check(False, "assignment to a computed quantity is refused")


@harness(bounds="a dependency added after creation, then changed")
def late_dependency(cx):
    """a dependency declared later still invalidates what is downstream"""
    D, o, h, m = make(cx)
    np = cx.np
    z = D.depend_value(name="z", value=cx.real("z0"))
    w = D.depend_value(name="w", func=lambda: cx.ufunc("w", [z.get(), o.a], 1)[0])
    u = D.depend_value(name="u", func=lambda: cx.ufunc("u", [w.get()], 1)[0], dependencies=[w])
    if cx.bool("readfirst"):
        u.get()
    w.add_dependency(z)
    w.add_dependency(o._a)
    if cx.bool("readmid"):
        u.get()
    za = cx.real("z1")
    a = m.a
    if cx.bool("wz"):
        z.set(za)
    else:
        za = z.get()
    if cx.bool("wa"):
        a = cx.real("a1")
        o.a = a
    cx.eq(u.get(), cx.ufunc("u", [cx.ufunc("w", [za, a], 1)[0]], 1)[0], "late dependency reaches downstream values")


# ---------------------------------------------------------------- the engine's own quantities


def tracked(cx, roots):
    """every dependency-tracked quantity of the objects reachable from the roots: (path, owner, attribute, object)"""
    D = cx.mod("ipi.utils.depend")
    seen, out, todo = set(), [], list(roots)
    while todo:
        path, ob = todo.pop(0)
        if id(ob) in seen:
            continue
        seen.add(id(ob))
        if isinstance(ob, (list, tuple)):
            todo += [("%s[%d]" % (path, i), v) for i, v in enumerate(ob)]
        elif isinstance(ob, dict):
            todo += [("%s[%s]" % (path, k), v) for k, v in ob.items()]
        elif type(ob).__module__.startswith("ipi.") and not isinstance(ob, D.depend_base) and type(ob).__module__ != "ipi.utils.depend":
            for k, v in list(ob.__dict__.items()):
                if isinstance(v, D.depend_base):
                    if id(v) not in seen:
                        seen.add(id(v))
                        out.append((path + "." + k.lstrip("_"), ob, k.lstrip("_"), v))
                else:
                    todo.append((path + "." + k, v))
    return out


def plain(cx, v):
    """the value as a flat list of comparable numbers"""
    np = cx.np
    D = cx.mod("ipi.utils.depend")
    if isinstance(v, D.depend_base):
        v = D.dstrip(v)
    if isinstance(v, np.ndarray):
        return [x for y in v.reshape(-1).tolist() for x in plain(cx, y)]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in plain(cx, y)]
    if isinstance(v, dict):
        return [x for k in sorted(v, key=str) for x in plain(cx, v[k])]
    if v is None or isinstance(v, (str, bytes, bool)):
        return []
    if isinstance(v, complex):
        return [v.real, v.imag]
    if isinstance(v, (int, float)) or type(v).__name__ == "Sym" or hasattr(v, "__float__"):
        return [v]
    return []


def read_all(cx, nodes, sc):
    res = {}
    for path, owner, attr, d in nodes:
        if not sc and ("sc" in attr.split("_")[-1] or "4th" in attr or "coeffsc" in attr or attr.startswith(("fsc", "virssc"))) and attr != "pilescale":
            continue  # Suzuki-Chin terms are only defined for that mode
        if "mbeads" in path and attr not in ("q", "qc"):
            continue  # the structures sent to the force providers only have positions
        if path.startswith(("ensemble.bias.mts_forces", "ensemble.bias.nmtslevels")):
            continue  # a bias is not split in levels
        try:
            res[path] = plain(cx, getattr(owner, attr))
        except (AttributeError, NotImplementedError, ValueError, TypeError, KeyError, IndexError, ArithmeticError, SystemExit) as e:
            res[path] = type(e).__name__
    return res


def poly_ff(cx, na, name, k):
    """a potential of positions and cell with given coefficients"""
    np = cx.np

    def fun(q, h):
        c = k * (1.0 + 0.125 * h[0, 1])
        f = -c * q
        f[0] = f[0] - 0.5 * k
        u = 0.5 * c * (q * q).sum() + 0.5 * k * q[0]
        w = np.zeros((3, 3), float)
        for i in range(na):
            for a in range(3):
                for b in range(a, 3):
                    w[a, b] += q[3 * i + a] * f[3 * i + b]
        return u, f, w, {"raw": ""}

    return FF(cx, fun, name)


THERMO = ["langevin", "svr", "pile_l", "pile_g", "pile_l_ct", "cl", "ffl_rescale", "gle", "gle_eq", "nm_gle", "nm_gleg", "multi"]
BARO = ["bzp", "scbzp", "rgb", "mtk"]


def engine(cx, kind):
    """a complete system with concrete values; everything that can be written is written later"""
    np = cx.np
    M = cx.mod("ipi.engine.motion")
    T = cx.mod("ipi.engine.thermostats")
    B = cx.mod("ipi.engine.barostats")
    FC = cx.mod("ipi.engine.forces").ForceComponent
    nb, na = 4, 2
    q = np.asarray([[0.25 * b - 0.5 * i + 0.125 * b * i for i in range(3 * na)] for b in range(nb)], float)
    p = np.asarray([[0.5 * b + 0.25 * i - 0.125 * b * i for i in range(3 * na)] for b in range(nb)], float)
    nm_kw, ek, kw, comps = {}, {}, dict(mode="nvt"), None
    ffs = {"a": poly_ff(cx, na, "a", 1.0), "b": poly_ff(cx, na, "b", 0.5)}
    comps = [FC("a", nbeads=0, weight=1.0, epsilon=0.01, name="a", mts_weights=np.asarray([0.25, 0.75])), FC("b", nbeads=0 if "sc" in kind else 2, weight=1.5, epsilon=0.01, name="b", mts_weights=np.asarray([1.0, 0.0]))]
    th = T.Thermostat(temp=0.5, dt=0.5)
    if kind in THERMO:
        e = dict(temp=0.5, dt=0.5, ethermo=0.25)
        A = np.array([[[1.0 + b, 0.3], [-0.2, 0.7]] for b in range(nb)])
        C = np.array([[[1.5 + b, 0.1], [0.1, 0.8]] for b in range(nb)])
        th = {
            "langevin": lambda: T.ThermoLangevin(tau=2.0, **e),
            "svr": lambda: T.ThermoSVR(tau=2.0, **e),
            "pile_l": lambda: T.ThermoPILE_L(tau=2.0, scale=0.75, **e),
            "pile_g": lambda: T.ThermoPILE_G(tau=2.0, scale=0.75, **e),
            "pile_l_ct": lambda: T.ThermoPILE_L(tau=2.0, scale=0.75, pilect=0.75, **e),
            "cl": lambda: T.ThermoCL(tau=2.0, intau=1.5, idtau=1.25, **e),
            "ffl_rescale": lambda: T.ThermoFFL(tau=2.0, flip="rescale", **e),
            "gle": lambda: T.ThermoGLE(A=A[0].copy(), C=C[0].copy(), **e),
            "gle_eq": lambda: T.ThermoGLE(A=np.array([[1.0, 0.3], [-0.3, 0.7]]), **e),
            "nm_gle": lambda: T.ThermoNMGLE(A=A, C=C, **e),
            "nm_gleg": lambda: T.ThermoNMGLEG(A=A, C=C, tau=2.0, **e),
            "multi": lambda: T.MultiThermo(temp=0.5, dt=0.5, thermolist=[T.ThermoLangevin(tau=2.0, **e), T.ThermoSVR(tau=1.0, **e)]),
        }[kind]()
        if "gle" in kind:
            th.s = np.zeros(0)
        kw["thermostat"] = th
    if kind in BARO:
        bt = T.ThermoLangevin(temp=0.5, dt=0.5, tau=3.0)
        P3 = np.asarray([[0.5, 0.25, -0.5], [0, -0.25, 0.75], [0, 0, 0.5]])
        h0 = cx.mod("ipi.engine.cell").Cell(h=np.asarray([[4.0, 0.5, -0.25], [0, 4.5, 0.5], [0, 0, 3.5]]))
        bar = {
            "bzp": lambda: B.BaroBZP(p=np.atleast_1d(0.5), tau=2.0, thermostat=bt),
            "scbzp": lambda: B.BaroSCBZP(p=np.atleast_1d(0.5), tau=2.0, thermostat=bt),
            "rgb": lambda: B.BaroRGB(p=P3, h0=h0, tau=2.0, thermostat=bt),
            "mtk": lambda: B.BaroMTK(p=P3, tau=2.0, thermostat=bt),
        }[kind]()
        kw.update(mode={"rgb": "nst", "scbzp": "scnpt"}.get(kind, "npt"), barostat=bar)
        if kind == "rgb":
            ek["stressext"] = np.asarray([[0.5, 0.25, 0.0], [0.25, -0.5, 0.125], [0.0, 0.125, 0.25]])
        else:
            ek["pext"] = 0.5
        kw["thermostat"] = T.ThermoLangevin(temp=0.5, dt=0.5, tau=2.0)
    if kind == "bias":
        ffs["c"] = poly_ff(cx, na, "c", 0.75)
        ffs["d"] = poly_ff(cx, na, "d", 0.25)
        ek.update(bcomponents=[FC("c", epsilon=0.01, name="c", mts_weights=np.asarray([1.0])), FC("d", epsilon=0.01, name="d", nbeads=2, mts_weights=np.asarray([1.0]))], bweights=np.asarray([0.5, 1.5]), hweights=np.asarray([0.5, 0.25]))
    if kind == "open":
        nm_kw = dict(open_paths=[1], transform_method="matrix")
    if kind == "pacmd":
        nm_kw = dict(mode="pa-cmd", freqs=np.asarray([8.0]))
    if kind == "wmaxcmd":
        nm_kw = dict(mode="wmax-cmd", freqs=np.asarray([2.0, 8.0]))
    if kind == "manual":
        nm_kw = dict(mode="manual", freqs=np.asarray([2.0, 3.0, 4.0]))
    if kind == "cayley":
        nm_kw = dict(propagator="cayley")
    if kind == "sc":
        kw["mode"] = "sc"
    if kind == "constrained":
        C = cx.mod("ipi.utils.constrtools")
        nb, na = 1, 4
        q = np.asarray([[0.5, -0.25, 0.125, 1.75, 0.5, -0.25, -0.5, 1.0, 0.75, 0.25, 0.5, 2.0]], float)
        p = np.asarray([[0.5 - 0.25 * i for i in range(12)]], float)
        ids, none = (lambda *x: np.asarray(x, int)), np.zeros(0)
        cons = [C.RigidBondConstraint(ids([0, 1]), none), C.EckartConstraint(ids(0, 1, 2), none), C.ConstraintList([C.RigidBondConstraint(ids([3, 1], [0, 1]), none), C.AngleConstraint(ids([1, 3, 0]), none)])]
        comps = [comps[0]]
        ffs = {"a": poly_ff(cx, na, "a", 1.0)}
        mot = cx.mod("ipi.engine.motion.constrained_dynamics").ConstrainedDynamics(timestep=0.5, mode="nvt", thermostat=T.ThermoLangevin(temp=0.5, dt=0.5, tau=2.0), nmts=np.asarray([2, 3]), constraint_list=cons, nsteps_o=2, nsteps_geo=3)
        beads = make_beads(cx, nb, na, masses=np.asarray([1.25, 2.0, 0.75, 1.5]), q=q, p=p, names=["H"] * na)
        return build(cx, nb, na, ffs=ffs, comps=comps, temp=0.5, motion=mot, beads=beads, cell=make_cell(cx, np.asarray([[6.0, 0.5, -0.25], [0, 5.0, 0.5], [0, 0, 4.0]])))
    mot = M.Dynamics(timestep=0.5, fixatoms_dof=np.zeros(0, int), nmts=np.asarray([2, 3]), **kw)
    beads = make_beads(cx, nb, na, masses=np.asarray([1.25, 2.0]), q=q, p=p, names=["H", "C"])
    cell = make_cell(cx, np.asarray([[6.0, 0.5, -0.25], [0, 5.0, 0.5], [0, 0, 4.0]]))
    s = build(cx, nb, na, ffs=ffs, comps=comps, temp=0.5, motion=mot, nm_kw=nm_kw, beads=beads, cell=cell, ens_kw=ek)
    return s


KINDS = ["constrained", "core", "bias", "open", "pacmd", "wmaxcmd", "manual", "cayley", "sc"] + BARO + THERMO



STATE = {
    "beads.q": (-2, 2), "beads.p": (-2, 2), "beads.m": (0.5, 2), "beads[1].q": (-2, 2), "beads[2].p": (-2, 2), "nm.qnm": (-2, 2), "nm.pnm": (-2, 2), "cell.h": (3, 5), "ensemble.temp": (0.25, 1), "motion.dt": (0.25, 1),
    "ensemble.pext": (-1, 1), "ensemble.stressext": (-1, 1), "ensemble.eens": (-1, 1), "ensemble.bweights": (0.5, 2), "ensemble.hweights": (0.5, 2), "nm.nm_freqs": (1, 2), "forces.alpha": (0.25, 0.75),
    "motion.thermostat.tau": (0.5, 2), "motion.thermostat.intau": (0.5, 2), "motion.thermostat.idtau": (0.5, 2), "motion.thermostat.pilescale": (0.5, 2), "motion.thermostat.pilect": (0.25, 1), "motion.thermostat.ethermo": (-1, 1), "motion.thermostat.C": (0, 0.25),
    "motion.constraint_list[0].q": (-0.25, 0.25), "motion.constraint_list[1].qprev": (-0.25, 0.25), "motion.constraint_list[1].qref": (-0.25, 0.25), "motion.constraint_list[2].q": (-0.25, 0.25), "motion.constraint_list[2].qprev": (-0.25, 0.25),
    "motion.barostat.tau": (0.5, 2), "motion.barostat.p": (-1, 1), "motion.barostat.thermostat.tau": (0.5, 2), "motion.barostat.thermostat.ethermo": (-1, 1),
}  # fmt: skip
COMMON = ["beads.q", "beads.p", "beads.m", "beads[1].q", "beads[2].p", "nm.qnm", "nm.pnm", "cell.h", "ensemble.temp", "motion.dt", "ensemble.eens"]
EXTRA = {
    "constrained": ["motion.constraint_list[0].q", "motion.constraint_list[1].qprev", "motion.constraint_list[1].qref", "motion.constraint_list[2].q", "motion.constraint_list[2].qprev"], "core": [], "bias": ["ensemble.bweights", "ensemble.hweights"], "open": [], "pacmd": ["nm.nm_freqs"], "wmaxcmd": ["nm.nm_freqs"], "manual": ["nm.nm_freqs"], "cayley": [], "sc": ["forces.alpha"],
    "bzp": ["ensemble.pext"], "scbzp": ["ensemble.pext"], "mtk": ["ensemble.pext"], "rgb": ["ensemble.stressext"],
}  # fmt: skip
for _k in BARO:
    EXTRA[_k] = EXTRA[_k] + ["motion.barostat.tau", "motion.barostat.p", "motion.barostat.thermostat.tau", "motion.barostat.thermostat.ethermo", "motion.thermostat.tau"]
TX = {"cl": ["tau", "intau", "idtau"], "pile_l": ["tau", "pilescale"], "pile_g": ["tau", "pilescale"], "pile_l_ct": ["tau", "pilescale", "pilect"], "gle": [], "gle_eq": [], "nm_gle": [], "nm_gleg": ["tau"], "multi": []}
for _k in THERMO:
    EXTRA[_k] = ["motion.thermostat." + x for x in TX.get(_k, ["tau"])] + (["motion.thermostat.ethermo"] if _k in ("langevin", "svr", "cl", "ffl_rescale", "gle") else [])


def walk(s, path):
    ob = s
    parts = path.replace("[", ".[").split(".")
    for x in parts[:-1]:
        ob = ob[int(x[1:-1])] if x[0] == "[" else getattr(ob, x)
    return ob, parts[-1]


def change(cx, s, what):
    """a new value, entirely or in one element"""
    np = cx.np
    dep = cx.mod("ipi.utils.depend")
    ob, name = walk(s, what)
    lo, hi = STATE[what]
    old = dep.dstrip(getattr(ob, name))
    if isinstance(old, np.ndarray) and old.size > 1:
        old = old.copy()
        if what in ("cell.h", "motion.barostat.p"):
            new = old.copy()
            for i in range(3):
                for j in range(i, 3):
                    new[i, j] = cx.real("n%d%d" % (i, j), *((lo, hi) if i == j or what != "cell.h" else (-0.5, 0.5)))
        elif what == "ensemble.stressext":
            new = old.copy()
            for i in range(3):
                for j in range(i, 3):
                    new[i, j] = new[j, i] = cx.real("n%d%d" % (i, j), lo, hi)
        elif old.size >= 6:
            x = cx.real("n", lo, hi)
            new = old + x * np.asarray([1.0 - 0.25 * i + 0.03125 * i * i for i in range(old.size)]).reshape(old.shape)
        else:
            new = cx.reals("n", old.shape, lo, hi)
        how = cx.choice("how", ["whole", "element", "row"] if old.ndim > 1 and len(old) > 1 else ["whole", "element"])
        if how == "whole":
            setattr(ob, name, new)
        elif how == "row":
            getattr(ob, name)[1] = new[1]
        else:
            i = tuple(min(1, n - 1) for n in old.shape)
            getattr(ob, name)[i] = new[i]
    else:
        n = cx.real("n", lo, hi)
        setattr(ob, name, np.atleast_1d(n) if isinstance(old, np.ndarray) else n)


@harness(params=[dict(kind=k, what=w) for k in KINDS for w in (COMMON if k not in THERMO else ["beads.m", "beads.p", "ensemble.temp", "motion.dt"]) + EXTRA[k] if not ("gle" in k and w == "motion.dt") and not (k == "constrained" and w in ("beads[1].q", "beads[2].p", "nm.qnm", "nm.pnm"))],
         bounds="one change of one state variable (all of it along one direction, a row, an element; arbitrary new value) after everything has been read", max_paths=64)
def engine_current(cx, kind, what):
    """after a change, every quantity of the simulation objects has the value that recomputing everything gives"""
    s = engine(cx, kind)
    nodes = tracked(cx, [(k, getattr(s, k)) for k in ("beads", "cell", "nm", "ensemble", "forces", "motion")])
    sc = kind in ("sc", "scbzp")
    read_all(cx, nodes, sc)
    change(cx, s, what)
    got = read_all(cx, nodes, sc)
    for path, owner, attr, d in nodes:
        if getattr(d, "_func", None) is not None and getattr(d, "_synchro", None) is None:
            d.taint(taintme=True)
    for path, owner, attr, d in nodes:
        if getattr(d, "_func", None) is not None and getattr(d, "_synchro", None) is None:
            d.taint(taintme=True)
    want = read_all(cx, nodes, sc)
    for k in got:
        if isinstance(got[k], str) or isinstance(want[k], str):
            cx.check(got[k] == want[k], k + " can still be computed")
        else:
            cx.eq(got[k], want[k], k + " is current")
