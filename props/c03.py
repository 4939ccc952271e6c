"""Normal-mode representation: lossless, orthogonal, physically faithful."""

from symx.base import harness
from props.common import *

PRELOAD = PRE
BOUNDS = "2 atoms, 1-8 beads, any open-path subset listed; coordinates, momenta, masses, temperature symbolic in O(1) boxes."

OPEN = [[], [0], [1], [0, 1]]


def system(cx, nb, method, open_paths, mode="rpmd", freqs=None, ff=None, na=2):
    return build(cx, nb, na, nm_kw=dict(transform_method=method, open_paths=open_paths, mode=mode, freqs=freqs), ffs=ff)


@harness(params=[dict(nb=b, method=m, open_paths=o) for b in (1, 2, 3, 4, 5) for m in ("fft", "matrix") for o in (OPEN if b in (3, 4) else [[], [1]])],
         thorough=[dict(nb=b, method=m, open_paths=o) for b in (6, 7, 8, 12) for m in ("fft", "matrix") for o in ([], [0])], bounds="any path", witnesses=1)
def lossless(cx, nb, method, open_paths):
    s = system(cx, nb, method, open_paths)
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    q = D(s.beads.q).copy()
    p = D(s.beads.p).copy()
    qn = D(s.nm.qnm).copy()
    pn = D(s.nm.pnm).copy()
    s.nm.qnm = qn
    s.nm.pnm = pn
    cx.eq(D(s.beads.q), q, "positions survive the round trip")
    cx.eq(D(s.beads.p), p, "momenta survive the round trip")
    cx.eq((qn * qn).sum(axis=0), (q * q).sum(axis=0), "norm preserved")
    cx.eq((pn * qn).sum(axis=0), (p * q).sum(axis=0), "inner product preserved")
    cx.eq(qn[0], q.sum(axis=0) / nb**0.5, "first mode is the scaled centroid")
    cx.eq(D(s.beads.qc), q.sum(axis=0) / nb, "centroid")
    # the other way round
    z = cx.reals("z", q.shape, -2, 2)
    s.nm.qnm = z
    b = D(s.beads.q).copy()
    s.beads.q = b
    cx.eq(D(s.nm.qnm), z, "modes survive the round trip")
    cx.eq(D(s.beads[nb - 1].q), b[nb - 1], "single-bead view follows")


@harness(params=[dict(nb=b, open_paths=o) for b in (2, 3, 4, 5, 6) for o in ([], [0])], thorough=[dict(nb=b, open_paths=[1]) for b in (7, 8, 9, 16)], bounds="any path", witnesses=1)
def methods_agree(cx, nb, open_paths):
    """both transform implementations give the same modes"""
    T = cx.mod("ipi.utils.nmtransform")
    q = cx.reals("q", (nb, 6), -2, 2)
    a = T.nm_fft(nb, 2, open_paths=open_paths)
    b = T.nm_trans(nb, open_paths=open_paths)
    cx.eq(a.b2nm(q.copy()), b.b2nm(q.copy()), "forward transforms agree")
    cx.eq(a.nm2b(q.copy()), b.nm2b(q.copy()), "backward transforms agree")
    # a second use gives the same answer (no state carried over)
    q2 = cx.reals("r", (nb, 6), -2, 2)
    cx.eq(a.b2nm(q2.copy()), b.b2nm(q2.copy()), "forward transforms agree on reuse")
    cx.eq(a.nm2b(q2.copy()), b.nm2b(q2.copy()), "backward transforms agree on reuse")


@harness(params=[dict(nb=b, open_paths=o, mode=m) for b in (1, 2, 3, 4) for o in (OPEN if b == 3 else [[], [1]]) for m in ("rpmd", "pa-cmd")], thorough=[dict(nb=b, open_paths=o, mode="rpmd") for b in (5, 6) for o in ([], [0])],
         bounds="any path, masses and temperature", witnesses=1)
def springs(cx, nb, open_paths, mode):
    """the internal energy of the path is that of harmonic springs between
    neighbours, cyclic or open, and the spring force is minus its gradient"""
    s = system(cx, nb, "fft", open_paths, mode=mode, freqs=[cx.real("wt", 0.5, 2)] if mode != "rpmd" else None)
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    C = cx.mod("ipi.utils.units").Constants
    q, m = D(s.beads.q), D(s.beads.m)
    w2 = (C.kb * s.temp * nb / C.hbar) ** 2
    v = 0.0
    f = np.zeros(q.shape, float)
    for i in range(2):
        for b in range(nb):
            if b == nb - 1 and i in open_paths:
                continue
            c = (b + 1) % nb
            if c == b:
                continue
            for k in range(3 * i, 3 * i + 3):
                d = q[c, k] - q[b, k]
                v = v + 0.5 * m[i] * w2 * d * d
                f[c, k] -= m[i] * w2 * d
                f[b, k] += m[i] * w2 * d
    cx.eq(s.nm.vspring, v, "spring energy")
    cx.eq(D(s.nm.fspring), f, "spring force")
    # and again after everything it depends on has changed
    s.beads.q = -2.0 * q[::-1].copy()
    s.ensemble.temp = 2.0 * s.temp
    cx.eq(s.nm.vspring, 16.0 * v, "spring energy after moving and heating", scale=10.0)


@harness(params=[dict(nb=b, mode=m, open_paths=o) for b in (2, 3) for m in ("rpmd", "pa-cmd", "manual", "wmax-cmd") for o in ([], [1])], bounds="any momenta, masses, frequencies", witnesses=1)
def kinetic(cx, nb, mode, open_paths):
    """kinetic energy and kinetic stress are those of the dynamical masses"""
    fr = None
    if mode == "pa-cmd":
        fr = [cx.real("w0", 0.5, 2)]
    elif mode == "manual":
        fr = list(cx.reals("w", nb - 1, 0.5, 2))
    elif mode == "wmax-cmd":
        fr = list(cx.reals("w", 2, 0.5, 2)) if nb < 3 and not open_paths else [0.7, 1.3]
    s = build(cx, nb, 2, temp=1.0, nm_kw=dict(open_paths=open_paths, mode=mode, freqs=fr))
    np = cx.np
    D = cx.mod("ipi.utils.depend").dstrip
    pn = D(s.nm.pnm)
    mm = D(s.nm.dynm3)
    cx.eq(s.nm.kin, (pn * pn / mm).sum() * 0.5, "kinetic energy")
    ks = np.zeros((3, 3), float)
    for b in range(nb):
        for i in range(2):
            for a in range(3):
                for c in range(3):
                    ks[a, c] += pn[b, 3 * i + a] * pn[b, 3 * i + c] / np.sqrt(mm[b, 3 * i + a] * mm[b, 3 * i + c])
    cx.eq(D(s.nm.kstress), ks, "kinetic stress")
    m3 = D(s.beads.m3)
    cx.eq(mm[0], m3[0], "centroid keeps the physical mass")
    if mode == "rpmd":
        p = D(s.beads.p)
        cx.eq(s.nm.kin, (p * p / m3).sum() * 0.5, "kinetic energy in the bead representation")
        cx.eq(mm, m3, "physical masses in ring-polymer dynamics")
    else:
        # target frequencies of the internal modes: springs/dynamical mass
        ev = cx.mod("ipi.utils.nmtransform")
        for i in range(2):
            lam = ev.o_nm_eva(nb) if i in open_paths else ev.nm_eva(nb)
            for k in range(1, nb):
                wk2 = (s.nm.omegan * lam[k]) ** 2
                ratio = mm[k, 3 * i] / m3[k, 3 * i]
                if mode == "wmax-cmd":
                    w1 = (s.nm.omegan * lam[1]) ** 2
                    t = (fr[1] ** 2) * (1 + fr[0] ** 2 / w1) / (fr[0] ** 2 + wk2)
                    cx.eq(ratio * t, 1.0, "mass scaling of the adiabatic mode")
                else:
                    t = (fr[0] if mode == "pa-cmd" else fr[k - 1]) ** 2
                    cx.eq(wk2, ratio * t, "dynamical frequency equals the requested one")


@harness(params=[dict(nb=b, open_paths=o) for b in (1, 2, 3) for o in ([], [0])], bounds="any forces", witnesses=1)
def force_modes(cx, nb, open_paths):
    s = system(cx, nb, "fft", open_paths)
    T = cx.mod("ipi.utils.nmtransform")
    D = cx.mod("ipi.utils.depend").dstrip
    f = D(s.forces.f).copy()
    ref = T.nm_trans(nb, open_paths=open_paths).b2nm(f) if nb > 1 else f
    cx.eq(D(s.nm.fnm), ref, "forces in the normal-mode representation")
