"""Ring-polymer contraction and expansion."""

from symx.base import harness
from props.common import *

PRELOAD = PRE
BOUNDS = "2 atoms, bead numbers up to 8; any path."

PAIRS = [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 3), (6, 4), (3, 3), (1, 1)]


@harness(params=[dict(n1=a, n2=b, open_paths=o) for a, b in PAIRS for o in ([], [1], [0, 1])], thorough=[dict(n1=a, n2=b, open_paths=o) for a, b in [(8, 4), (8, 3), (7, 5), (6, 3), (16, 4)] for o in ([], [0])], bounds="any path and any forces on the contracted beads", witnesses=1)
def contraction(cx, n1, n2, open_paths):
    T = cx.mod("ipi.utils.nmtransform")
    np = cx.np
    r = T.nm_rescale(n1, n2, open_paths)
    q = cx.reals("q", (n1, 6), -2, 2)
    c = r.b1tob2(q)
    cx.eq(c.shape, (n2, 6), "shape of the contracted path")
    cx.eq(c.mean(axis=0), q.mean(axis=0), "contraction keeps the centroid")
    # expansion followed by contraction is the identity
    z = cx.reals("z", (n2, 6), -2, 2)
    e = r.b2tob1(z)
    cx.eq(e.shape, (n1, 6), "shape of the expanded path")
    cx.eq(r.b1tob2(e), z, "expanding and contracting restores the path")
    cx.eq(e.mean(axis=0), z.mean(axis=0), "expansion keeps the centroid")
    # adjoint: work done by the expanded forces is the contracted work
    cx.eq((e * q).sum(axis=0) * (float(n2) / n1), (z * c).sum(axis=0), "forces on contracted beads map back as the adjoint")
    # only the slow modes survive
    tr1 = T.nm_trans(n1, open_paths=open_paths).b2nm(q) if n1 > 1 else q
    tr2 = T.nm_trans(n2, open_paths=open_paths).b2nm(c) if n2 > 1 else c
    sc = (float(n2) / n1) ** 0.5
    for i in range(2):
        for k in range(n2):
            if i in open_paths:
                src = k
            else:
                src = k if k <= n2 // 2 else n1 - (n2 - k)
            for a in range(3 * i, 3 * i + 3):
                cx.eq(tr2[k, a], sc * tr1[src, a], "slow normal modes are kept, fast ones dropped")
    # opposite construction
    if n1 != n2:
        r2 = T.nm_rescale(n2, n1, open_paths)
        cx.eq(r2.b1tob2(z), e, "expansion built either way round")
        cx.eq(r2.b2tob1(q), c, "contraction built either way round")


@harness(params=[dict(n1=a, n2=b, open_paths=o) for a, b in [(2, 1), (3, 2), (4, 2), (4, 3), (2, 2)] for o in ([], [0])], thorough=[dict(n1=a, n2=b, open_paths=o) for a, b in [(5, 3), (6, 4)] for o in ([], [0])], bounds="any path, quadratic potential with arbitrary curvature on each bead", witnesses=1)
def contracted_forces(cx, n1, n2, open_paths):
    """forces of a contracted component are minus the gradient of its energy
    on the full path; energies and virials are weighted consistently"""
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    k = cx.reals("k", 6, 0.5, 2)
    w = cx.real("w", 0.5, 2)
    comps = [component(cx, "ff", nbeads=n2, weight=w)]
    s = build(cx, n1, 2, temp=1.0, nm_kw=dict(open_paths=open_paths), ffs={"ff": harm_ff(cx, 2, k)}, comps=comps)
    x = D(s.beads.q).copy()

    def pot(y):
        s.beads.q = y
        return s.forces.pot

    f = D(s.forces.f).copy()
    v = s.forces.pot
    vir = D(s.forces.vir).copy()
    r = cx.mod("ipi.utils.nmtransform").nm_rescale(n1, n2, open_paths)
    c = r.b1tob2(x)
    cx.eq(v, w * (c * c * k).sum() * 0.5 * (float(n1) / n2), "energy of the contracted path, per full bead number")
    if n1 != n2:
        g = cx.grad(pot, x)
        cx.eq(f.reshape(-1), -g, "force is minus the energy gradient", tol=1e-6)
    ref = np.zeros((3, 3), float)
    for b in range(n2):
        for i in range(2):
            for a in range(3):
                for d in range(a, 3):
                    ref[a, d] -= c[b, 3 * i + a] * k[3 * i + d] * c[b, 3 * i + d] * w * (float(n1) / n2)
    cx.eq(vir, ref, "virial of the contracted path")
