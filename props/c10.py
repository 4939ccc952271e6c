"""Assembly of potential, forces, virial and extras from force components."""

from symx.base import harness, Stub
from props.common import *

PRELOAD = PRE
BOUNDS = "2 atoms, 1-4 beads, 1-3 components with any weights and level coefficients, contraction as listed; provider results are uninterpreted functions of positions and cell; histories of up to 3 changes interleaved with reads."

CFG = {
    # name: (beads, [(beads of the component, level coefficients)])
    "one": (2, [(0, [1.0])]),
    "two": (2, [(0, [1.0]), (0, [1.0])]),
    "mts": (2, [(0, [1.0, 0.0]), (0, [0.25, 0.75])]),
    "mts3": (1, [(0, [1.0, 0.0, 0.0]), (0, [0.5, 0.0, 0.5]), (0, [0.0, -1.0, 1.0])]),
    "rpc": (3, [(0, [1.0]), (1, [0.5])]),
    "rpc2": (4, [(2, [1.0, 0.0]), (3, [0.5, 1.0])]),
}


def ff_with_extras(cx, name, natoms, kind):
    np = cx.np

    def fun(q, h):
        n = 3 * natoms
        v = cx.ufunc(name, list(q) + list(h.reshape(-1)), n + 1 + 9 + 2, -2, 2)
        x = {"raw": "<%s>" % name, "dip": v[n + 10 :].copy()}
        if kind == 1:
            x["note_" + name] = name
        return v[0], v[1 : n + 1].copy(), v[n + 1 : n + 10].reshape(3, 3).copy(), x

    return FF(cx, fun, name)


def sysm(cx, cfg, open_paths=(), weights=None, kind=1, zero=None, na=2):
    np = cx.np
    nb, cs = CFG[cfg]
    ffs, comps, w = {}, [], []
    for i, (b, mts) in enumerate(cs):
        ffs["f%d" % i] = ff_with_extras(cx, "f%d" % i, na, kind)
        w.append(weights[i] if weights else cx.real("w%d" % i, 0.5, 2))
        comps.append(component(cx, "f%d" % i, nbeads=b, mts=mts, weight=w[-1], interp=["dip"]))
    h = np.zeros((3, 3), float)
    for i in range(3):
        h[i, i] = 10.0
    h[0, 1] = cx.real("hxy", -1, 1)
    s = build(cx, nb, na, ffs=ffs, comps=comps, cell=make_cell(cx, h), nm_kw=dict(open_paths=list(open_paths)))
    s.w, s.cs, s.nb, s.zero = w, cs, nb, zero
    s.h, s.na = h, na
    s.q = cx.mod("ipi.utils.depend").dstrip(s.beads.q).copy()
    s.open = list(open_paths)
    return s


def contract(cx, s, q, nb2, up=False):
    """reference: path contraction/expansion per atom (C04 decides it)"""
    T = cx.mod("ipi.utils.nmtransform")
    np = cx.np
    n1, n2 = (s.nb, nb2) if not up else (nb2, s.nb)
    M = T.mk_rs_matrix(n1, n2)
    r = np.dot(M, q)
    if s.open and q.ndim == 2 and q.shape[1] == 3 * s.na:
        O = T.mk_o_rs_matrix(n1, n2)
        for i in s.open:
            r[:, 3 * i : 3 * i + 3] = np.dot(O, q[:, 3 * i : 3 * i + 3])
    return r


def expected(cx, s, level=None):
    np = cx.np
    nb, n = s.nb, 3 * s.na
    P, F, V, X = np.zeros(nb, float), np.zeros((nb, n), float), np.zeros((nb, 9), float), np.zeros((nb, 2), float)
    per = []
    for i, (b, mts) in enumerate(s.cs):
        n2 = b or nb
        qc = contract(cx, s, s.q, n2) if n2 != nb else s.q
        rows = [cx.ufunc("f%d" % i, list(qc[k]) + list(s.h.reshape(-1)), n + 12, -2, 2) for k in range(n2)]
        A = np.zeros((n2, n + 12), float)
        for k in range(n2):
            A[k] = rows[k]
        A[:, n + 4] = 0.0  # lower triangle of the virial is not kept
        A[:, n + 7 : n + 9] = 0.0
        per.append(A)
        c = s.w[i] * (sum(mts) if level is None else mts[level])
        up = lambda z: z if n2 == nb else contract(cx, s, z, n2, True)
        P = P + c * up(A[:, 0])
        F = F + c * up(A[:, 1 : n + 1])
        V = V + c * up(A[:, n + 1 : n + 10])
        X = X + c * up(A[:, n + 10 :])
    return P, F, V, X, per


def compare(cx, s, what):
    D = cx.mod("ipi.utils.depend").dstrip
    np = cx.np
    P, F, V, X, per = expected(cx, s)
    f = s.forces
    n = 3 * s.na
    if s.open and what in ("pots", "virs", "extras", "comp"):
        return  # per-replica scalars of contracted open paths are not defined, only their sum
    if what == "pot":
        cx.eq(f.pot, P.sum(), "total potential", tol=1e-9)
    elif what == "pots":
        cx.eq(D(f.pots), P, "potential of each replica", tol=1e-9)
    elif what == "f":
        cx.eq(D(f.f), F, "force on each replica", tol=1e-9)
    elif what == "virs":
        cx.eq(D(f.virs).reshape(-1, 9), V, "virial of each replica", tol=1e-9)
    elif what == "vir":
        cx.eq(D(f.vir).reshape(-1), V.sum(axis=0), "total virial", tol=1e-9)
    elif what == "extras":
        x = f.extras
        cx.eq(D(x["dip"]), X, "interpolated extra of each replica", tol=1e-9)
        full = [i for i, (b, m) in enumerate(s.cs) if (b or s.nb) == s.nb and i != s.zero]
        if full:
            want = "".join("<f%d>" % i for i in full)
            for b in range(s.nb):
                cx.check(x["raw"][b] == want, "raw outputs concatenated per replica")
            for i in full:
                cx.check(list(x["note_f%d" % i]) == ["f%d" % i] * s.nb, "component extras kept")
    elif what.startswith("mts"):
        lev = int(what[3:])
        p, g, v, _, _ = expected(cx, s, lev)
        cx.eq(D(f.mts_forces[lev].f), g, "force of a level", tol=1e-9)
        if not s.open:
            cx.eq(D(f.mts_forces[lev].virs).reshape(-1, 9), v, "virial of a level", tol=1e-9)
        cx.eq(D(f.mts_forces[lev].vir).reshape(-1), v.sum(axis=0), "total virial of a level", tol=1e-9)
    elif what == "comp":
        for i, A in enumerate(per):
            n2 = A.shape[0]
            up = lambda z: z if n2 == s.nb else contract(cx, s, z, n2, True)
            cx.eq(f.pots_component(i, False, False), A[:, 0], "component potential", tol=1e-9)
            cx.eq(f.pots_component(i), s.w[i] * up(A[:, 0]), "weighted component potential", tol=1e-9)
            cx.eq(f.forces_component(i, False, False), A[:, 1 : n + 1], "component force", tol=1e-9)
            cx.eq(f.forces_component(i), s.w[i] * up(A[:, 1 : n + 1]), "weighted component force", tol=1e-9)
            cx.eq(f.virs_component(i, False, False).reshape(-1, 9), A[:, n + 1 : n + 10], "component virial", tol=1e-9)
            cx.eq(f.virs_component(i).reshape(-1, 9), s.w[i] * up(A[:, n + 1 : n + 10]), "weighted component virial", tol=1e-9)
            x = f.extras_component(i)
            cx.eq(D(x["dip"]), A[:, n + 10 :], "component extra", tol=1e-9)
            cx.check(list(x["raw"]) == ["<f%d>" % i] * n2, "component raw output is its own")


ALL = ["pot", "pots", "f", "virs", "vir", "extras", "comp"]


@harness(params=[dict(cfg=c, open_paths=o) for c in CFG for o in ([[]] if "rpc" not in c else [[], [1]])], bounds="one configuration, everything read", witnesses=1)
def assembled(cx, cfg, open_paths):
    """every aggregate is the weighted (contracted and expanded) sum over the
    components; the levels add up to the total; nothing is computed twice"""
    s = sysm(cx, cfg, open_paths)
    lv = ["mts%d" % i for i in range(len(s.cs[0][1]))]
    for w in ALL + lv + ["extras", "comp", "extras"]:
        compare(cx, s, w)
    D = cx.mod("ipi.utils.depend").dstrip
    tot = s.forces.mts_forces[0].f * 1.0
    for l in range(1, len(lv)):
        tot = tot + D(s.forces.mts_forces[l].f)
    cx.eq(D(tot), D(s.forces.f), "levels add up to the total force", tol=1e-9)
    for i, (b, mts) in enumerate(s.cs):
        cx.check(len(s.fflist["f%d" % i].calls) == (b or s.nb), "each replica evaluated exactly once")
        cx.check(len(s.fflist["f%d" % i].released) == (b or s.nb), "each request released exactly once")


def change(cx, s, what, k):
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    if what == "q":
        s.q = cx.reals("q%d" % k, (s.nb, 3 * s.na))
        s.beads.q = s.q
    elif what == "qel":
        s.q = s.q.copy()
        s.q[s.nb - 1, 3 * s.na - 2] = cx.real("qe%d" % k, -2, 2)
        s.beads.q[s.nb - 1, 3 * s.na - 2] = s.q[s.nb - 1, 3 * s.na - 2]
    elif what == "qbead":
        s.q = s.q.copy()
        s.q[0] = cx.reals("qb%d" % k, 3 * s.na)
        s.beads[0].q = s.q[0]
    elif what == "nm":
        z = cx.reals("qn%d" % k, (s.nb, 3 * s.na))
        s.nm.qnm = z
        s.q = s.nm.transform.nm2b(z.copy())
    elif what == "h":
        s.h = s.h.copy()
        s.h[0, 2] = cx.real("h%d" % k, -1, 1)
        s.cell.h = s.h
    elif what == "w":
        i = len(s.cs) - 1
        s.w[i] = cx.real("wn%d" % k, 0.5, 2)
        s.forces.mforces[i].weight = s.w[i]


CH = ["q", "qel", "qbead", "nm", "h", "w"]


@harness(params=[dict(cfg=c, first=f) for c in ("two", "mts", "rpc") for f in CH], thorough=[dict(cfg=c, first=f, n=3) for c in ("mts", "rpc") for f in CH], bounds="2 (thorough 3) changes of positions (whole, one coordinate, one bead, in normal modes), cell or weight, a read of any one aggregate after each, everything at the end", witnesses=1, max_paths=4000, limit=200)
def history(cx, cfg, first, n=2):
    """after any sequence of changes and reads every aggregate is that of the
    present configuration"""
    s = sysm(cx, cfg, na=1)
    lv = ["mts%d" % i for i in range(len(s.cs[0][1]))]
    reads = ["none", "pot", "f", "vir", "extras"] + lv[-1:]
    for k in range(n):
        r = cx.choice("r%d" % k, reads if k else ["none", "f", "extras"])
        if r != "none":
            compare(cx, s, r)
        change(cx, s, first if k == 0 else cx.choice("c%d" % k, CH), k)
    for w in ["extras", "virs", "f", "pot", "comp"] + lv:
        compare(cx, s, w)


@harness(params=[dict(cfg=c, zero=z) for c, z in (("two", 0), ("two", 1), ("mts", 0), ("rpc", 1), ("mts3", 2))], bounds="a component switched off (zero weight), then on again", witnesses=1)
def switched_off(cx, cfg, zero):
    """a component with zero weight is not evaluated and contributes nothing,
    and contributes again once its weight is restored"""
    w = [cx.real("w%d" % i, 0.5, 2) for i in range(len(CFG[cfg][1]))]
    w[zero] = 0.0
    s = sysm(cx, cfg, weights=w, zero=zero)
    D = cx.mod("ipi.utils.depend").dstrip
    lv = ["mts%d" % i for i in range(len(s.cs[0][1]))]
    for x in ["pot", "f", "virs", "vir"] + lv:
        compare(cx, s, x)
    cx.check(len(s.fflist["f%d" % zero].calls) == 0, "component with zero weight is not evaluated")
    on = cx.real("on", 0.5, 2)
    s.w[zero], s.zero = on, None
    s.forces.mforces[zero].weight = on
    for x in ["pot", "f", "virs", "vir", "extras"] + lv:
        compare(cx, s, x)


@harness(params=[dict(cfg=c, zero=z, read=r) for c in ("two", "rpc") for z in (None, 1) for r in ("f", "pot")], bounds="evaluation on a copy, transfer to the system, then another move", witnesses=1)
def transferred(cx, cfg, zero, read):
    """results computed on a copy and handed over are those of the new
    configuration, without a new evaluation, and the next move is evaluated"""
    w = [cx.real("w%d" % i, 0.5, 2) for i in range(len(CFG[cfg][1]))]
    if zero is not None:
        w[zero] = 0.0
    s = sysm(cx, cfg, weights=w, zero=zero)
    D = cx.mod("ipi.utils.depend").dstrip
    dbeads, dcell = s.beads.clone(), s.cell.clone()
    df = s.forces.clone(dbeads, dcell)
    compare(cx, s, "f")
    qn = cx.reals("qn", (s.nb, 3 * s.na))
    dbeads.q = qn
    if read == "f":
        df.f
    else:
        df.pot
    n0 = [len(x.calls) for x in s.fflist.values()]
    s.q = qn
    s.beads.q = dbeads.q
    s.forces.transfer_forces(df)
    for x in ("pot", "f", "virs", "extras"):
        compare(cx, s, x)
    cx.check([len(x.calls) for x in s.fflist.values()] == n0, "no new evaluation after handing results over")
    compare(cx, s, "comp")
    change(cx, s, "q", 9)
    for x in ("pot", "f", "comp"):
        compare(cx, s, x)
    # and back to a saved state
    qo = s.q
    st = s.forces.dump_state()
    change(cx, s, "q", 10)
    compare(cx, s, "f")
    s.q = qo
    s.beads.q = qo
    s.forces.load_state(st)
    for x in ("pot", "f", "virs", "comp"):
        compare(cx, s, x)
