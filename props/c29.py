"""Property and trajectory estimators."""

import threading

from symx.base import harness
from props.common import *

PRELOAD = PRE + ["ipi.engine.properties"]
BOUNDS = "3 atoms of 2 species (2 of the same), 1-4 beads; any positions, momenta and forces (a few coordinates symbolic, the rest fixed), any potential and virial, any temperature."
NAMES = ["H", "O", "H"]
MASS = [1.0, 4.0, 2.25]


def system(cx, nb, nat=3, nsym=2, ffs=None, comps=None, nm_kw=None, motion=None, vir=True, cell=None, masses=None, sp=True):
    np = cx.np
    q = np.zeros((nb, 3 * nat), float)
    p = np.zeros((nb, 3 * nat), float)
    for b in range(nb):
        for i in range(3 * nat):
            q[b, i] = 0.25 * ((3 * i + 5 * b + i * b) % 7) - 0.75 + i // 3
            p[b, i] = 0.25 * ((5 * i + 3 * b + i * b) % 9) - 1.0
    for k in range(nsym):
        q[(k + 1) % nb, (4 * k + 1) % (3 * nat)] = cx.real("x%d" % k, -1, 1)
        if sp:
            p[k % nb, (4 * k + 2) % (3 * nat)] = cx.real("p%d" % k, -1, 1)
    if ffs is None:
        ffs = {"ff": uf_ff(cx, nat, vir=vir)}
    s = build(cx, nb, nat, ffs=ffs, comps=comps, motion=motion, nm_kw=nm_kw, cell=cell, temp=cx.real("temp", 0.25, 2.0), beads=make_beads(cx, nb, nat, masses=np.asarray(masses or MASS[:nat]), q=q, p=p, names=NAMES[:nat]))
    s.simul = Stub()
    s.simul.step = 4
    s._propertylock = threading.Lock()
    P = cx.mod("ipi.engine.properties")
    s.prop = P.Properties()
    s.prop.bind(s)
    s.traj = P.Trajectories()
    s.traj.bind(s)
    s.q0, s.p0, s.nb, s.nat = q, p, nb, nat
    s.m = [masses[i] if masses else MASS[i] for i in range(nat)]
    return s


def get(s, key):
    return s.prop[key][0]


def vec(cx, v):
    np = cx.np
    return [x for x in np.asarray(v).reshape(-1)]


def same(cx, lab, a, b):
    a, b = vec(cx, a), vec(cx, b)
    cx.check(len(a) == len(b), lab + " size")
    cx.eq(cx.np.asarray(a), cx.np.asarray(b), lab)


@harness(params=[dict(nb=1), dict(nb=2), dict(nb=3)], thorough=[dict(nb=4)])
def kinetic(cx, nb):
    """the kinetic energies of atoms, species, beads and normal modes add up to the total"""
    s = system(cx, nb, vir=False)
    p = s.p0
    at = [[sum(p[b, 3 * i + c] * p[b, 3 * i + c] for c in range(3)) / (2 * s.m[i]) for b in range(nb)] for i in range(3)]
    tot = sum(sum(a) for a in at)
    same(cx, "kinetic_md", get(s, "kinetic_md"), tot / nb)
    for i in range(3):
        same(cx, "kinetic_md of an atom", get(s, "kinetic_md(%d)" % i), sum(at[i]) / nb)
    same(cx, "kinetic_md of a species", get(s, "kinetic_md(atom=H)"), (sum(at[0]) + sum(at[2])) / nb)
    for b in range(nb):
        same(cx, "kinetic_md of a bead", get(s, "kinetic_md(bead=%d)" % b), sum(at[i][b] for i in range(3)))
        same(cx, "kinetic_md of a species in a bead", get(s, "kinetic_md(O;%d)" % b), at[1][b])
    same(cx, "kinetic_md of the modes adds up", sum(get(s, "kinetic_md(nm=%d)" % k) for k in range(nb)), tot)
    for i in range(3):
        same(cx, "kinetic_md of the modes of an atom adds up", sum(get(s, "kinetic_md(%d;nm=%d)" % (i, k)) for k in range(nb)), sum(at[i]))
    pc = [sum(p[b, i] for b in range(nb)) for i in range(9)]
    same(cx, "kinetic_md of the centroid", get(s, "kinetic_md(nm=0)"), sum(pc[i] * pc[i] / (2 * s.m[i // 3] * nb) for i in range(9)))
    same(cx, "temperature", get(s, "temperature"), 2 * tot / nb / (9 * nb))
    same(cx, "temperature of an atom", get(s, "temperature(1)"), 2 * sum(at[1]) / nb / (3 * nb))
    same(cx, "temperature of a species", get(s, "temperature(H)"), 2 * (sum(at[0]) + sum(at[2])) / nb / (6 * nb))
    for b in range(nb):
        same(cx, "temperature of a bead", get(s, "temperature(bead=%d)" % b), 2 * sum(at[i][b] for i in range(3)) / (9 * nb))
    same(cx, "temperature of the modes averages", sum(get(s, "temperature(nm=%d)" % k) for k in range(nb)) / nb, 2 * tot / nb / (9 * nb))
    ks = get(s, "kstress_md")
    V = s.cell.V
    ij = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
    same(cx, "kstress_md", ks, [sum(p[b, 3 * i + a] * p[b, 3 * i + c] / s.m[i] for b in range(nb) for i in range(3)) / V for a, c in ij])


@harness(params=[dict(nb=2, mode="pa-cmd"), dict(nb=3, mode="wmax-cmd"), dict(nb=3, mode="manual")])
def scaled_mass(cx, nb, mode):
    """with scaled path masses, the kinetic energies follow the modes' masses"""
    np = cx.np
    f = {"pa-cmd": [4.0], "wmax-cmd": [0.5, 4.0], "manual": [1.0, 1.5][: nb - 1]}[mode]
    s = system(cx, nb, vir=False, nm_kw=dict(mode=mode, freqs=np.asarray(f)))
    nm = s.nm
    pnm = cx.mod("ipi.utils.depend").dstrip(nm.pnm)
    dm = cx.mod("ipi.utils.depend").dstrip(nm.dynm3)
    k = [[sum(pnm[b, 3 * i + c] * pnm[b, 3 * i + c] / (2 * dm[b, 3 * i]) for c in range(3)) for b in range(nb)] for i in range(3)]
    tot = sum(sum(a) for a in k)
    same(cx, "kinetic_md", get(s, "kinetic_md"), tot / nb)
    same(cx, "kinetic_md of the atoms adds up", sum(get(s, "kinetic_md(%d)" % i) for i in range(3)), tot / nb)
    same(cx, "kinetic_md of the species adds up", get(s, "kinetic_md(H)") + get(s, "kinetic_md(O)"), tot / nb)
    for b in range(nb):
        same(cx, "kinetic_md of a mode", get(s, "kinetic_md(nm=%d)" % b), sum(k[i][b] for i in range(3)))
    try:
        get(s, "kinetic_md(bead=0)")
        ok = False
    except ValueError:
        ok = True
    cx.check(ok, "the kinetic energy of a bead is refused when the masses differ between modes")


class Mot(Stub):
    pass


@harness(params=[dict(nb=2, con="com"), dict(nb=2, con="atoms"), dict(nb=3, con="cc"), dict(nb=2, con="cc+atoms")])
def temperature(cx, nb, con):
    """the kinetic temperature accounts for the constrained degrees of freedom, for each selection"""
    np = cx.np
    mot = cx.mod("ipi.engine.motion").Motion(fixcom=con == "com", fixatoms_dof=np.asarray([3, 5]) if "atoms" in con else None)
    mot.enstype = "nvt-cc" if "cc" in con else "nvt"
    s = system(cx, nb, vir=False, motion=mot)
    T, M = s.temp, sum(s.m)

    def missing(atoms, what):
        """share of the degrees of freedom that carry no kinetic energy"""
        n = 0.0
        for i in atoms:
            for c in range(3):
                frac = [0.0] * nb  # of each mode
                if con == "com":
                    frac[0] = s.m[i] / M
                if "cc" in con:
                    frac[0] = 1.0
                if "atoms" in con and 3 * i + c in (3, 5):
                    frac = [1.0] * nb
                n += sum(frac) / nb if what == "" else frac[what]
        return n / (3.0 * len(atoms))

    for lab, atoms in (("", [0, 1, 2]), ("1", [1]), ("H", [0, 2]), ("O", [1])):
        for what in [""] + list(range(nb)):
            sel = "(%s)" % lab if what == "" else "(atom=%s;nm=%d)" % (lab, what) if lab else "(nm=%d)" % what
            if sel == "()":
                sel = ""
            ke = get(s, "kinetic_md" + sel)
            same(cx, "temperature with constraints " + con + sel, get(s, "temperature" + sel), 2 * ke / (3.0 * len(atoms) * nb) + T * missing(atoms, what))
        for b in range(nb):
            sel = "(atom=%s;bead=%d)" % (lab, b) if lab else "(bead=%d)" % b
            same(cx, "temperature of a bead with constraints " + con, get(s, "temperature" + sel), 2 * get(s, "kinetic_md" + sel) / (3.0 * len(atoms) * nb) + T * missing(atoms, ""))


@harness(params=[dict(nb=1), dict(nb=2), dict(nb=3)], thorough=[dict(nb=4)])
def quantum(cx, nb):
    """quantum kinetic energy estimators, their tensors, and the radius of gyration"""
    np = cx.np
    s = system(cx, nb, vir=False, nsym=2)
    q, T = s.q0, s.temp
    f = cx.mod("ipi.utils.depend").dstrip(s.forces.f)
    qc = [sum(q[b, i] for b in range(nb)) / nb for i in range(9)]
    dq = [[q[b, i] - qc[i] for i in range(9)] for b in range(nb)]
    cv = [1.5 * T - 0.5 / nb * sum(dq[b][3 * i + c] * f[b, 3 * i + c] for b in range(nb) for c in range(3)) for i in range(3)]
    same(cx, "kinetic_cv", get(s, "kinetic_cv"), sum(cv))
    for i in range(3):
        same(cx, "kinetic_cv of an atom", get(s, "kinetic_cv(%d)" % i), cv[i])
    same(cx, "kinetic_cv of a species", get(s, "kinetic_cv(H)"), cv[0] + cv[2])
    w2 = (nb * T) * (nb * T)
    td = [1.5 * T * nb - 0.5 * s.m[i] * w2 / nb * sum((q[b, 3 * i + c] - q[b - 1, 3 * i + c]) * (q[b, 3 * i + c] - q[b - 1, 3 * i + c]) for b in range(nb) for c in range(3)) for i in range(3)]
    same(cx, "kinetic_td", get(s, "kinetic_td"), sum(td))
    for i in range(3):
        same(cx, "kinetic_td of an atom", get(s, "kinetic_td(%d)" % i), td[i])
    same(cx, "kinetic_td of a species", get(s, "kinetic_td(H)"), td[0] + td[2])
    same(cx, "kinetic_td and the spring energy", get(s, "kinetic_td"), 4.5 * T * nb - get(s, "spring"))

    def kij(i, j):
        r = []
        for a, c in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)):
            v = sum(s.m[i] * dq[b][3 * i + a] * f[b, 3 * j + c] + s.m[j] * dq[b][3 * j + c] * f[b, 3 * i + a] for b in range(nb))
            v = -0.25 / nb * v / (s.m[i] * s.m[j]) ** 0.5
            r.append(v + (0.5 * T if i == j and a == c else 0.0))
        return r

    for i, j in ((0, 0), (1, 1), (0, 1), (2, 1)):
        same(cx, "kinetic_ij", get(s, "kinetic_ij(%d;%d)" % (i, j)), kij(i, j))
    kt = [[x + y for x, y in zip(kij(0, 0), kij(2, 2))], kij(1, 1)]
    same(cx, "kinetic_tens of a species", get(s, "kinetic_tens(H)"), kt[0])
    tens = get(s, "kinetic_tens")
    same(cx, "kinetic_tens", tens, [x + y for x, y in zip(*kt)])
    same(cx, "the trace of kinetic_tens is kinetic_cv", tens[0] + tens[1] + tens[2], sum(cv))
    a = s.traj["kinetic_cv"][0]
    for i in range(3):
        same(cx, "kinetic_cv trajectory", a[3 * i : 3 * i + 3], kij(i, i)[:3])
    a = s.traj["kinetic_od"][0]
    for i in range(3):
        same(cx, "kinetic_od trajectory", a[3 * i : 3 * i + 3], kij(i, i)[3:])
    same(cx, "virial_fq", get(s, "virial_fq"), 0.5 / nb * sum(q[b, i] * f[b, i] for b in range(nb) for i in range(9)))


@harness(params=[dict(nb=2), dict(nb=3)])
def gyration(cx, nb):
    s = system(cx, nb, vir=False, nsym=1)
    np = cx.np
    q = s.q0
    qc = [sum(q[b, i] for b in range(nb)) / nb for i in range(9)]
    r2 = [[sum((q[b, 3 * i + c] - qc[3 * i + c]) * (q[b, 3 * i + c] - qc[3 * i + c]) for b in range(nb)) / nb for c in range(3)] for i in range(3)]
    for i in range(3):
        g = get(s, "r_gyration(%d)" % i)
        same(cx, "r_gyration of an atom", g * g, sum(r2[i]))
        cx.check(g >= 0, "r_gyration is not negative")
    same(cx, "r_gyration of a species", 2 * get(s, "r_gyration(H)"), get(s, "r_gyration(0)") + get(s, "r_gyration(2)"))
    same(cx, "r_gyration", 3 * get(s, "r_gyration"), sum(get(s, "r_gyration(%d)" % i) for i in range(3)))
    t = s.traj["r_gyration"][0]
    same(cx, "r_gyration trajectory", [t[i] * t[i] for i in range(9)], [r2[i // 3][i % 3] for i in range(9)])


@harness(params=[dict(nb=1), dict(nb=2), dict(nb=3)])
def stress(cx, nb):
    """pressures are a third of the trace of the stresses, which add kinetic and virial parts"""
    np = cx.np
    s = system(cx, nb, nsym=1, cell=make_cell(cx, h=np.asarray([[3.0, 0.5, 0.25], [0, 4.0, -0.5], [0, 0, 5.0]])))
    q, p, T = s.q0, s.p0, s.temp
    d = cx.mod("ipi.utils.depend").dstrip
    f, W = d(s.forces.f), d(s.forces.vir)
    V = 60.0
    ij = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
    qc = [sum(q[b, i] for b in range(nb)) / nb for i in range(9)]
    pc = [sum(p[b, i] for b in range(nb)) / nb for i in range(9)]
    same(cx, "volume", get(s, "volume"), V)
    same(cx, "density", get(s, "density"), sum(s.m) / V)
    same(cx, "cell_h", get(s, "cell_h"), [3.0, 4.0, 5.0, 0.5, 0.25, -0.5])
    kmd = [sum(p[b, 3 * i + a] * p[b, 3 * i + c] / s.m[i] for b in range(nb) for i in range(3)) / V for a, c in ij]
    vmd = [W[a, c] / V for a, c in ij]
    same(cx, "virial_md", get(s, "virial_md"), vmd)
    same(cx, "kstress_md", get(s, "kstress_md"), kmd)
    same(cx, "stress_md", get(s, "stress_md"), [a + b for a, b in zip(kmd, vmd)])
    same(cx, "pressure_md", get(s, "pressure_md"), sum(kmd[i] + vmd[i] for i in range(3)) / 3)
    kcv = [-sum((q[b, 3 * i + a] - qc[3 * i + a]) * f[b, 3 * i + c] for b in range(nb) for i in range(3)) / nb / V for a, c in ij]
    for a in range(3):
        kcv[a] = kcv[a] + sum(pc[3 * i + a] * pc[3 * i + a] / s.m[i] for i in range(3)) / V
    vcv = [x / nb for x in vmd]
    same(cx, "virial_cv", get(s, "virial_cv"), vcv)
    k = get(s, "kstress_cv")
    same(cx, "kstress_cv diagonal", k[:3], kcv[:3])
    st = get(s, "stress_cv")
    same(cx, "stress_cv is kinetic plus virial", st, [a + b for a, b in zip(k, vcv)])
    same(cx, "pressure_cv", get(s, "pressure_cv"), sum(kcv[i] + vcv[i] for i in range(3)) / 3)
    same(cx, "conserved", get(s, "conserved"), s.ensemble.econs / nb)
    same(cx, "potential", get(s, "potential"), sum(d(s.forces.pots)) / nb)
    for b in range(nb):
        same(cx, "potential of a bead", get(s, "potential(bead=%d)" % b), s.forces.pots[b])
    same(cx, "bead_potentials", get(s, "bead_potentials"), s.forces.pots)


@harness(params=[dict(nb=1), dict(nb=2), dict(nb=3)])
def atoms(cx, nb):
    """vectors of single atoms, centroids and the centre of mass"""
    s = system(cx, nb, vir=False)
    q, p = s.q0, s.p0
    f = cx.mod("ipi.utils.depend").dstrip(s.forces.f)
    for i in range(3):
        for key, a in (("atom_x", q), ("atom_p", p), ("atom_f", f), ("atom_v", p)):
            k = s.m[i] if key == "atom_v" else 1.0
            for b in range(nb):
                same(cx, key, get(s, "%s(%d;%d)" % (key, i, b)), [a[b, 3 * i + c] / k for c in range(3)])
            same(cx, key + " of the centroid", get(s, "%s(atom=%d)" % (key, i)), [sum(a[b, 3 * i + c] for b in range(nb)) / k / nb for c in range(3)])
        same(cx, "atom_x_path", get(s, "atom_x_path(%d)" % i), [q[b, 3 * i + c] for b in range(nb) for c in range(3)])
        same(cx, "atom_f_path", get(s, "atom_f_path(%d)" % i), [f[b, 3 * i + c] for b in range(nb) for c in range(3)])
    for lab, sel in (("", [0, 1, 2]), ("H", [0, 2]), ("O", [1])):
        M = sum(s.m[i] for i in sel)
        same(cx, "vcom", get(s, "vcom(%s)" % lab if lab else "vcom"), [sum(p[b, 3 * i + c] for b in range(nb) for i in sel) / nb / M for c in range(3)])
        for b in range(nb):
            same(cx, "vcom of a bead", get(s, "vcom(%s;bead=%d)" % (lab, b) if lab else "vcom(bead=%d)" % b), [sum(p[b, 3 * i + c] for i in sel) / M for c in range(3)])
    for key, a in (("positions", q), ("momenta", p), ("forces", f)):
        same(cx, key + " trajectory", s.traj[key][0], a)
    same(cx, "velocities trajectory", s.traj["velocities"][0], [p[b, i] / s.m[i // 3] for b in range(nb) for i in range(9)])
    for key, a in (("x_centroid", q), ("p_centroid", p), ("f_centroid", f)):
        same(cx, key + " trajectory", s.traj[key][0], [sum(a[b, i] for b in range(nb)) / nb for i in range(9)])
    same(cx, "v_centroid trajectory", s.traj["v_centroid"][0], [sum(p[b, i] for b in range(nb)) / nb / s.m[i // 3] for i in range(9)])
    if nb == 2:
        for k, n in enumerate(("even", "odd")):
            same(cx, "x_centroid_" + n, s.traj["x_centroid_" + n][0], q[k])
            same(cx, "v_centroid_" + n, s.traj["v_centroid_" + n][0], [p[k, i] / s.m[i // 3] for i in range(9)])


DIMS = {
    "length": "cell_h r_gyration atom_x(0) atom_x_path(0)",
    "velocity": "atom_v(0) vcom",
    "momentum": "atom_p(0)",
    "force": "atom_f(0) atom_f_path(0) forcemod",
    "energy": "conserved potential bead_potentials spring kinetic_md kinetic_cv kinetic_td kinetic_tens kinetic_ij(0;1) ensemble_bias pot_component(0) pot_component_raw(0) potential_opsc ti_pot virial_fq",
    "pressure": "stress_md pressure_md kstress_md virial_md stress_cv pressure_cv kstress_cv virial_cv vir_component(0) vir_component_raw(0)",
    "temperature": "temperature ensemble_temperature",
    "time": "time",
    "volume": "volume",
    "density": "density",
}
TDIMS = {
    "length": "positions x_centroid r_gyration x_centroid_even x_centroid_odd",
    "velocity": "velocities v_centroid v_centroid_even v_centroid_odd",
    "momentum": "momenta p_centroid",
    "force": "forces f_centroid forces_spring forces_component(0) forces_component_raw(0)",
    "energy": "kinetic_cv kinetic_od",
}


@harness(params=[dict()])
def dimensions(cx):
    """each quantity is converted with the units of its own dimension"""
    s = system(cx, 2, nsym=1)
    for t, table in ((s.prop, DIMS), (s.traj, TDIMS)):
        for dim, keys in table.items():
            for k in keys.split():
                v, d, u = t[k]
                cx.check(d == dim, "%s is a %s" % (k, dim))
                v2, d, u = t[k + "{someunit}"]
                cx.check(d == dim and u == "someunit", "the unit of %s is passed on" % k)
                same(cx, "the unit does not change the value of " + k, v2, v)


@harness(params=[dict(nb=2, rpc=1), dict(nb=3, rpc=2), dict(nb=2, rpc=2)])
def components(cx, nb, rpc):
    """contributions of the force components, weighted or raw, on the ring polymer or on the component's own beads"""
    np = cx.np
    d = cx.mod("ipi.utils.depend").dstrip
    ffs = {"fa": uf_ff(cx, 3, "fa"), "fb": uf_ff(cx, 3, "fb")}
    s = system(cx, nb, nsym=1, ffs=ffs, comps=[component(cx, "fa", nbeads=rpc, weight=0.75), component(cx, "fb", weight=1.5)])
    V = s.cell.V
    ij = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
    for k, (n, w) in enumerate(((rpc, 0.75), (nb, 1.5))):
        fc = s.forces.mforces[k]
        pots, vs, fs = d(fc.pots), d(fc.virs), d(fc.f)
        for b in range(n):
            same(cx, "pot_component_raw of a bead", get(s, "pot_component_raw(%d;%d)" % (k, b)), pots[b])
            same(cx, "vir_component_raw of a bead", get(s, "vir_component_raw(%d;bead=%d)" % (k, b)), [vs[b][a, c] / V for a, c in ij])
            same(cx, "forces_component_raw of a bead", s.traj["forces_component_raw(%d;bead=%d)" % (k, b)][0], fs[b])
        same(cx, "pot_component_raw averages over the beads of the component", get(s, "pot_component_raw(%d)" % k), sum(pots[b] for b in range(n)) / n)
        same(cx, "vir_component_raw averages over the beads of the component", get(s, "vir_component_raw(%d)" % k), [sum(vs[b][a, c] for b in range(n)) / n / V for a, c in ij])
        same(cx, "forces_component_raw averages over the beads of the component", s.traj["forces_component_raw(%d)" % k][0], sum(fs[b] for b in range(n)) / n)
        same(cx, "pot_component averages with the weight", get(s, "pot_component(%d)" % k), w * sum(pots[b] for b in range(n)) / n)
        same(cx, "vir_component averages with the weight", get(s, "vir_component(%d)" % k), [w * sum(vs[b][a, c] for b in range(n)) / n / V for a, c in ij])
        same(cx, "forces_component averages with the weight", s.traj["forces_component(%d)" % k][0], w * sum(fs[b] for b in range(n)) / n)
    same(cx, "the components add up to the potential", get(s, "pot_component(0)") + get(s, "pot_component(1)"), get(s, "potential"))
    same(cx, "the components add up to the virial", get(s, "vir_component(0)") + get(s, "vir_component(1)"), get(s, "virial_cv"))
    for b in range(nb):
        same(cx, "the components add up to the forces", s.traj["forces_component(0;bead=%d)" % b][0] + s.traj["forces_component(1;%d)" % b][0], d(s.forces.f)[b])


def displaced(cx, s, q, h):
    """bead potentials and forces of the single force field at other positions"""
    fn = s.fflist["ff"].fun
    out = [fn(q[b], h) for b in range(s.nb)]
    return [o[0] for o in out], [o[1] for o in out]


@harness(params=[dict(nb=2, est=e) for e in ("displaced", "scfep", "zetasc", "tzetasc", "zetasc4", "yama", "scop")] + [dict(nb=3, est="scfep")], max_paths=400)
def scaled(cx, nb, est):
    """estimators on displaced or scaled paths use the current cell and positions of the system"""
    np = cx.np
    s = system(cx, nb, nat=2, nsym=1, sp=False, masses=[1.0, 4.0])
    # the system has moved since it was set up
    h = np.asarray([[3.0, cx.real("h01", -1, 1), 0.25], [0, 4.0, -0.5], [0, 0, 5.0]])
    s.cell.h = h
    q = s.q0.copy()
    q[0, 4] = q[0, 4] + 0.5
    s.beads.q[:] = q
    T = s.temp
    beta = 1 / T
    qc = [sum(q[b, i] for b in range(nb)) / nb for i in range(6)]
    V0, F0 = displaced(cx, s, q, h)
    v0 = sum(V0)

    def moved(sel, f):
        x = q.copy()
        for b in range(nb):
            for i in sel:
                for c in range(3):
                    x[b, 3 * i + c] = f(b, 3 * i + c)
        return displaced(cx, s, x, h) + (x,)

    sc = 2.0 ** -0.5
    scale = lambda k: (lambda b, j: qc[j] * (1 - k) + k * q[b, j])
    if est == "displaced":
        u = [0.5, -0.25, 0.125]
        V, F, x = moved([1], lambda b, j: q[b, j] + (b / float(nb) + 0.5 * (1.0 / nb - 1)) * u[j - 3])
        r = get(s, "displacedpath(0.5;-0.25;0.125;1)")
        same(cx, "displacedpath", np.log(r), -4.0 * 0.328125 * T / 2 - beta / nb * (sum(V) - v0))
    elif est == "scfep":
        V, F, x = moved([1], scale(sc))
        r = get(s, "isotope_scfep(2.0;1)")
        xc = [sum(x[b, i] for b in range(nb)) / nb for i in range(6)]
        tcv = 1.5 * T - 0.5 / nb * sum((x[b, j] - xc[j]) * F[b][j] for b in range(nb) for j in (3, 4, 5))
        lr = (sum(V) - v0) * beta / nb
        same(cx, "isotope_scfep", [r[0], r[1], r[2], r[3], r[4]], [lr, lr * lr, tcv, tcv * tcv, -lr])
    elif est in ("zetasc", "tzetasc", "zetasc4"):
        V, F, x = moved([1], scale(sc))
        dv = sum(V) - v0
        if est == "zetasc":
            r = get(s, "isotope_zetasc(2.0;1)")
            same(cx, "isotope_zetasc", [r[0], r[1], np.log(r[2])], [dv, dv * dv, -beta / nb * dv])
        elif est == "tzetasc":
            r = s.traj["isotope_zetasc(alpha=2.0)"][0]
            dv = dv / nb
            same(cx, "isotope_zetasc trajectory", [r[3], r[4], np.log(r[5])], [dv, dv * dv, -beta * dv])
        else:
            r = get(s, "isotope_zetasc_4th(2.0;1)")
            w2 = (nb * T) * (nb * T)
            ti = sum(F[b][j] * F[b][j] / 2 - F0[b][j] * F0[b][j] for b in range(nb) for j in (3, 4, 5)) / 4.0 / 24 / w2
            same(cx, "isotope_zetasc_4th", [r[0], r[1], np.log(r[2]), np.log(r[3])], [dv, dv * dv, -beta / nb * dv, -beta / nb * (dv + ti)])
            ch = sum(F[b][j] * F[b][j] / 2 - F0[b][j] * F0[b][j] for b in range(1, nb, 2) for j in (3, 4, 5)) / 4.0 / 9 / w2
            ch = ch + sum(((-V[b] + V[b + 1]) - (-V0[b] + V0[b + 1])) / 3.0 for b in range(0, nb, 2))
            same(cx, "isotope_zetasc_4th, Suzuki-Chin", np.log(r[4]), -beta / nb * (dv + ch))
    elif est == "yama":
        d = 0.01
        Vp, _, _ = moved([0, 1], scale((1 + d) ** 0.5))
        Vm, _, _ = moved([0, 1], scale((1 - d) ** 0.5))
        vp, vm, v = sum(Vp) / nb, sum(Vm) / nb, v0 / nb
        r = get(s, "scaledcoords(fd_delta=0.01)")
        same(cx, "scaledcoords", r, [((1 + d) * vp - (1 - d) * vm) / (2 * d) + 3 * T, ((1 + d) * vp + (1 - d) * vm - 2 * v) / (d * d) * T - 3 * T * T])
    elif est == "scop":
        r = get(s, "sc_op_scaledcoords(0.01)")
        V, F, x = moved([0, 1], lambda b, j: q[b, j] + 0.01 * (q[b, j] - qc[j]))
        ev = range(0, nb, 2)
        vir1 = 2.0 / nb * sum((q[b, j] - qc[j]) * F0[b][j] for b in ev for j in range(6))
        vir2 = 2.0 / nb * sum((q[b, j] - qc[j]) * (F[b][j] - F0[b][j]) for b in ev for j in range(6)) / 0.01
        same(cx, "sc_op_scaledcoords", r, [3 * T - 0.5 * vir1 + 2.0 / nb * sum(V0[b] for b in ev), 3 * T * T + T * (0.75 * vir1 + 0.25 * vir2)])


@harness(params=[dict(nb=2), dict(nb=3), dict(nb=4)])
def isotopes_td(cx, nb):
    """thermodynamic isotope estimators and fourth-order weights from springs and forces"""
    np = cx.np
    s = system(cx, nb, vir=False, nsym=1)
    q, T = s.q0, s.temp
    d = cx.mod("ipi.utils.depend").dstrip
    f, pots = d(s.forces.f), d(s.forces.pots)
    w2, bP = (nb * T) * (nb * T), 1 / (nb * T)
    qc = [sum(q[b, i] for b in range(nb)) / nb for i in range(9)]
    spr = [0.5 * s.m[i] * w2 * sum((q[b, 3 * i + c] - q[b - 1, 3 * i + c]) * (q[b, 3 * i + c] - q[b - 1, 3 * i + c]) for b in range(nb) for c in range(3)) for i in range(3)]
    f2 = [[sum(f[b, 3 * i + c] * f[b, 3 * i + c] for c in range(3)) / s.m[i] for b in range(nb)] for i in range(3)]
    r = get(s, "isotope_tdfep(2.0;1)")
    tcv = 1.5 * T - 0.5 / nb * sum((q[b, j] - qc[j]) * f[b, j] for b in range(nb) for j in (3, 4, 5))
    lr = spr[1] * bP
    same(cx, "isotope_tdfep", r[:5], [lr, lr * lr, tcv, tcv * tcv, -lr])
    r = get(s, "isotope_zetatd(2.0;1)")
    free = 1.5 * (nb - 1) * np.log(2.0)
    same(cx, "isotope_zetatd", [r[0], r[1], np.log(r[2])], [spr[1], spr[1] * spr[1], free - bP * spr[1]])
    r = get(s, "isotope_zetatd(2.0;H)")
    same(cx, "isotope_zetatd of a species", r[:2], [(spr[0] + spr[2]) / 2, (spr[0] * spr[0] + spr[2] * spr[2]) / 2])
    t = s.traj["isotope_zetatd(alpha=2.0;atom=1)"][0]
    same(cx, "isotope_zetatd trajectory", [t[3], t[4]], [spr[1], spr[1] * spr[1]])
    r = get(s, "isotope_zetatd_4th(2.0;1)")
    ti = -0.5 * sum(f2[1]) / 24 / w2
    same(cx, "isotope_zetatd_4th", [r[0], r[1], np.log(r[2]), np.log(r[3])], [spr[1], spr[1] * spr[1], free - bP * spr[1], free - bP * (spr[1] + ti)])
    r = get(s, "ti_weight")
    ti = sum(sum(a) for a in f2) / 24 / w2
    same(cx, "ti_weight", [r[0], r[1], np.log(r[2])], [-bP * ti, bP * bP * ti * ti, -bP * ti])
    same(cx, "ti_pot", get(s, "ti_pot"), ti / nb)
    same(cx, "ti_pot of a species", get(s, "ti_pot(H)"), (sum(f2[0]) + sum(f2[2])) / 24 / w2 / nb)
    if nb % 2 == 0:
        r = get(s, "chin_weight")
        ch = sum(a[b] for a in f2 for b in range(1, nb, 2)) / 9 / w2 + sum(pots[b + 1] - pots[b] for b in range(0, nb, 2)) / 3
        same(cx, "chin_weight", [r[0], r[1], np.log(r[2])], [-bP * ch, bP * bP * ch * ch, -bP * ch])
        r = get(s, "isotope_zetatd_4th(2.0;1)")
        ch = -0.5 * sum(f2[1][b] for b in range(1, nb, 2)) / 9 / w2
        same(cx, "isotope_zetatd_4th, Suzuki-Chin", np.log(r[4]), free - bP * (spr[1] + ch))


@harness(params=[dict(nb=2), dict(nb=4)])
def suzuki(cx, nb):
    """Suzuki-Chin estimators: derivatives of the fourth-order partition function"""
    s = system(cx, nb, vir=False, nsym=1)
    al = 0.25
    s.forces.alpha = al
    q, T = s.q0, s.temp
    d = cx.mod("ipi.utils.depend").dstrip
    f, pots = d(s.forces.f), d(s.forces.pots)
    w2 = (nb * T) * (nb * T)
    wf = [(al if b % 2 == 0 else 1 - al) / 9.0 / w2 for b in range(nb)]
    ft = [[wf[b] * sum(f[b, 3 * i + c] * f[b, 3 * i + c] for c in range(3)) / s.m[i] for b in range(nb)] for i in range(3)]
    wv = [2.0 / 3 if b % 2 == 0 else 4.0 / 3 for b in range(nb)]
    FT = sum(sum(a) for a in ft)
    same(cx, "potential_tdsc is the derivative with respect to the strength of the potential", get(s, "potential_tdsc"), (sum(wv[b] * pots[b] for b in range(nb)) + 2 * FT) / nb)
    same(cx, "kinetic_prsc is the derivative with respect to the mass", get(s, "kinetic_prsc"), 4.5 * T * nb - get(s, "spring") + FT / nb)
    same(cx, "potential_opsc", get(s, "potential_opsc"), 2.0 / nb * sum(pots[b] for b in range(0, nb, 2)))
    qc = [sum(q[b, i] for b in range(nb)) / nb for i in range(9)]
    op = [1.5 * T - 1.0 / nb * sum((q[b, 3 * i + c] - qc[3 * i + c]) * f[b, 3 * i + c] for b in range(0, nb, 2) for c in range(3)) for i in range(3)]
    same(cx, "kinetic_opsc", get(s, "kinetic_opsc"), sum(op))
    same(cx, "kinetic_opsc of a species", get(s, "kinetic_opsc(H)"), op[0] + op[2])
    s.forces._fsc._func = lambda: cx.np.asarray([[0.125 * ((i + b) % 5) for i in range(9)] for b in range(nb)])
    s.forces._fsc.taint(taintme=True)
    fs = d(s.forces.fsc)
    td = [1.5 * T - 0.5 / nb * sum((q[b, 3 * i + c] - qc[3 * i + c]) * (f[b, 3 * i + c] + fs[b, 3 * i + c]) for b in range(nb) for c in range(3)) + sum(ft[i]) / nb for i in range(3)]
    same(cx, "kinetic_tdsc", get(s, "kinetic_tdsc"), sum(td))
    same(cx, "kinetic_tdsc of a species", get(s, "kinetic_tdsc(H)"), td[0] + td[2])


KEYS = "step time temperature conserved potential kinetic_md kinetic_cv kinetic_td kinetic_tens kinetic_ij(0;1) r_gyration atom_x(0) atom_f_path(1) vcom stress_cv pressure_cv kstress_md displacedpath(0.5;0.25;0;0) scaledcoords(fd_delta=0.01) sc_op_scaledcoords(0.01) isotope_zetatd(2.0;H) isotope_zetasc(2.0;H) isotope_zetasc_4th(2.0;0) isotope_zetatd_4th(2.0;1) chin_weight ti_weight ti_pot virial_fq forcemod pot_component(0) vir_component_raw(0) potential_tdsc kinetic_opsc kinetic_prsc".split()
MOVERS = [k for k in KEYS if k.startswith(("disp", "scaled", "sc_op", "isotope_zetasc"))] + ["conserved", "traj:isotope_zetasc(alpha=2.0)", "traj:kinetic_od", "traj:positions", "traj:forces"]


@harness(params=[dict(first=k) for k in MOVERS], max_paths=400)
def untouched(cx, first):
    """asking for one quantity changes neither the system nor the value of any other quantity"""
    np = cx.np
    s = system(cx, 2, nat=2, nsym=1, masses=[1.0, 4.0])
    d = cx.mod("ipi.utils.depend").dstrip
    keys = [k for k in KEYS if "disp" not in k and "isotope" not in k and "weight" not in k] if first != "conserved" else [k for k in KEYS if "weight" not in k and "isotope" not in k and "disp" not in k and "gyr" not in k]

    def look():
        return [vec(cx, get(s, k)) for k in keys]

    a = look()
    q, p, h = d(s.beads.q).copy(), d(s.beads.p).copy(), d(s.cell.h).copy()
    v = s.traj[first[5:]][0] if first.startswith("traj:") else get(s, first)
    if not np.isscalar(v) and getattr(v, "flags", None) is not None and first.startswith("traj:"):
        # the caller of a trajectory may do what it likes with the array
        v[:] = 17.0
    same(cx, "positions are untouched", d(s.beads.q), q)
    same(cx, "momenta are untouched", d(s.beads.p), p)
    same(cx, "the cell is untouched", d(s.cell.h), h)
    b = look()
    for k, x, y in zip(keys, a, b):
        same(cx, "%s is the same after %s" % (k, first), x, y)


@harness(params=[dict(k=k) for k in ("isotope_zetasc(2.0;H)", "isotope_zetasc(2.0;1)", "displacedpath(0.5;0.25;0;1)", "scaledcoords(fd_delta=0.01)", "isotope_scfep(2.0;0)")], max_paths=400)
def fresh(cx, k):
    """a displaced-path estimator has the same value whatever was computed before it"""
    s = system(cx, 2, nat=2, nsym=1, sp=False, masses=[1.0, 4.0])
    np = cx.np
    a = vec(cx, get(s, k))[:2]
    for o in MOVERS[:5]:
        if o != k:
            get(s, o)
    b = vec(cx, get(s, k))[:2]
    same(cx, k + " does not depend on the estimators computed before", a, b)


@harness(params=[dict()])
def arguments(cx):
    """positional and keyword arguments, units and spaces are equivalent ways to ask for the same quantity"""
    P = cx.mod("ipi.engine.properties")
    forms = {
        "a{b}": ("a", "b", (), {}),
        " a (1;x) ": ("a", "", ("1", "x"), {}),
        "a(1; x = 2){ev}": ("a", "ev", ("1",), {"x": "2"}),
        "a{ev}(1;x=2)": ("a", "ev", ("1",), {"x": "2"}),
        "a(x=2;y=3;z)": ("a", "", ("z",), {"x": "2", "y": "3"}),
        "a_b_c": ("a_b_c", "", (), {}),
    }
    for k, (n, u, al, kw) in forms.items():
        r = P.getall(k)
        cx.check((r[0], r[1], tuple(x.strip() for x in r[2]), r[3]) == (n, u, al, kw), "arguments of " + k)
    s = system(cx, 2, nsym=2, vir=False)
    same(cx, "keyword and positional arguments", get(s, "atom_x(atom=1;bead=0)"), get(s, "atom_x(1;0)"))
    same(cx, "keyword and positional arguments", get(s, "kinetic_md(bead=1;atom=H)"), get(s, "kinetic_md(H;1)"))
    same(cx, "keyword and positional arguments", get(s, "isotope_zetatd(atom=1;alpha=2.0)")[:2], get(s, "isotope_zetatd(2.0;1)")[:2])
    for k in ("kinetic_md(7)", "kinetic_cv(3)", "atom_x(3)", "atom_x(0;2)", "kinetic_md(bead=2)", "kinetic_md(nm=2)", "temperature(3)", "kinetic_td(3)", "kinetic_ij(0;3)", "r_gyration(3)", "r_gyration(Xx)", "isotope_zetatd(2.0;Xx)", "displacedpath(0.5;0;0;3)"):
        try:
            get(s, k)
            ok = False
        except IndexError:
            ok = True
        cx.check(ok, k + " is refused: there is no such atom, bead or mode")


class Sink:
    """stands in for an output file"""

    def __init__(self):
        self.text = []

    def write(self, x):
        self.text.append(x)

    def flush(self):
        pass

    def close(self):
        pass

    def lines(self):
        return "".join(self.text).splitlines()


def record(cx, s, what, nb, **kw):
    """one frame written by an output: {file name: lines}"""
    O = cx.mod("ipi.engine.outputs")
    out = {}

    def opener(fn, mode="w", *a, **k):
        return out.setdefault(fn, Sink())

    s.trajs = s.traj
    s.properties = s.prop
    old = O.open_backup
    O.open_backup = opener
    try:
        o = O.TrajectoryOutput(filename="f", stride=1, flush=0, what=what, **kw)
        o.bind(s, "w")
        o.write()
        first = {k: v.lines() for k, v in out.items()}
        o.write()
    finally:
        O.open_backup = old
    for k, v in out.items():
        cx.check(v.lines() == first[k] * 2, "frames follow each other")
    return first


def numbers(cx, lines):
    return cx.np.fromstring(" ".join(lines), float, sep=" ")


def extra_ff(cx, nat):
    """a provider whose extras are arbitrary functions of the structure"""
    np = cx.np

    def fun(q, h):
        v = cx.ufunc("xff", list(q), 12, -2.0, 2.0)
        return v[0], np.zeros(3 * nat, float), np.zeros((3, 3), float), {"raw": "raw", "dipole": [v[1], v[2], v[3]], "scalar": v[4], "matrix": [[v[5], v[6]], [v[7], v[8]], [v[9], v[10]]], "text": "words"}

    return FF(cx, fun, "xff"), lambda q: cx.ufunc("xff", list(q), 12, -2.0, 2.0)


@harness(params=[dict(what=w, kind=k, ibead=i) for w in ("extras", "extras_component_raw(0)") for k in ("dipole", "scalar", "matrix", "text", "dipole,scalar", "scalar,dipole") for i in ((-1, -2, 1) if w == "extras" else (-1,)) if not (w != "extras" and ("," in k or k == "matrix"))], tokens=True, witnesses=1, bounds="3 beads, one atom")
def extras_written(cx, what, kind, ibead):
    """each bead's extras are written to the bead's own file, labelled with the step"""
    nb = 3
    ff, val = extra_ff(cx, 1)
    s = system(cx, nb, nat=1, ffs={"xff": ff}, nsym=2)
    got = record(cx, s, what, nb, extra_type=kind, ibead=ibead)
    PART = {"dipole": [1, 2, 3], "scalar": [4], "matrix": [5, 6, 7, 8, 9, 10]}
    if what == "extras":
        beads = {-1: [0, 1, 2], -2: [0, 2], 1: [1]}[ibead]
        cx.check(sorted(got) == ["f_%d" % b for b in beads], "one file for each bead asked for")
        for b in beads:
            L = got["f_%d" % b]
            cx.check("Step:" in L[0] and int(L[0].split("Step:")[1].split()[0]) == 5, "labelled with the step")
            if kind == "text":
                cx.check("".join(L[1:]).strip() == "words", "text is written as it is")
                continue
            v = val(s.q0[b])
            want = [v[i] for k in kind.split(",") for i in PART[k]]
            x = numbers(cx, L[1:])
            cx.check(len(x) == len(want), "all of the entries are written")
            cx.eq(x, cx.np.asarray(want), "extras of bead %d" % b, tol=1e-6)
    else:
        cx.check(sorted(got) == ["f"], "one file")
        L = got["f"]
        cx.check("Step:" in L[0] and int(L[0].split("Step:")[1].split()[0]) == 5, "labelled with the step")
        if kind in ("dipole", "scalar"):
            x = numbers(cx, L[1:])
            want = [val(s.q0[b])[i] for b in range(nb) for i in PART[kind]]
            cx.check(len(x) == len(want), "all of the entries are written")
            cx.eq(x, cx.np.asarray(want), "extras of the component", tol=1e-6)


FILES = {
    "positions": True, "velocities": True, "momenta": True, "forces": True, "forces_spring": True, "x_centroid": False, "v_centroid": False, "p_centroid": False, "f_centroid": False,
    "kinetic_cv": False, "kinetic_od": False, "forces_component(0)": False, "forces_component_raw(0;bead=1)": False,
}


@harness(params=[dict(what=w, ibead=i) for w in FILES for i in ((-1, -2, 2) if FILES[w] else (-1,))], tokens=True, witnesses=1, bounds="3 beads, two atoms")
def frames_written(cx, what, ibead):
    """a frame has the labels of the atoms, the step and bead, and the values of its own bead"""
    nb, nat = 3, 2
    s = system(cx, nb, nat=nat, nsym=2, vir=False)
    got = record(cx, s, what, nb, format="xyz", ibead=ibead, cell_units="atomic_unit")
    data = s.traj[what][0]
    beads = {-1: [0, 1, 2], -2: [0, 2], 2: [2]}[ibead] if FILES[what] else [None]
    cx.check(sorted(got) == [("f_%d.xyz" % b) if b is not None else "f.xyz" for b in beads], "one file for each bead asked for")
    for b in beads:
        L = got["f_%d.xyz" % b if b is not None else "f.xyz"]
        cx.check(len(L) == nat + 2 and int(L[0]) == nat, "one line for each atom")
        w = L[1].split()
        cx.check(int(w[w.index("Step:") + 1]) == 5 and int(w[w.index("Bead:") + 1]) == (b or 0), "labelled with step and bead")
        cx.check([l.split()[0] for l in L[2:]] == NAMES[:nat], "labels of the atoms")
        x = numbers(cx, [l.split(None, 1)[1] for l in L[2:]])
        want = data[b] if b is not None else data
        cx.check(len(x) == 3 * nat, "three values for each atom")
        cx.eq(x, want, "values of the frame", tol=1e-4)


COLUMNS = [
    ["step", "time{picosecond}", "conserved", "temperature{kelvin}", "kinetic_md{kelvin}", "potential{electronvolt}", "kinetic_cv"],
    ["cell_h", "volume{angstrom3}", "kinetic_tens", "temperature", "stress_md{megapascal}", "pressure_cv{bar}", "atom_x(1){angstrom}"],
    ["atom_v(atom=1; bead=0)", "virial_md", "spring", "kinetic_td", "cell_abcABC", "atom_f(0)", "density"],
    ["forcemod", "kstress_md", "r_gyration(0){angstrom}", "atom_p(1)", "kinetic_ij(0;1)", "pot_component(0)", "stress_cv"],
    ["atom_x_path(1){angstrom}", "step", "bead_potentials", "atom_f_path(0)", "volume"],
]


@harness(params=[dict(n=n) for n in range(len(COLUMNS))], tokens=True, witnesses=1, bounds="2 beads, two atoms")
def rows_written(cx, n):
    """each column of a row holds, in the units asked for, what the header says"""
    O = cx.mod("ipi.engine.outputs")
    U = cx.mod("ipi.utils.units")
    s = system(cx, 2, nat=2, nsym=1)
    s.trajs, s.properties = s.traj, s.prop
    out = {}

    def opener(fn, mode="w", *a, **k):
        return out.setdefault(fn, Sink())

    old = O.open_backup
    O.open_backup = opener
    try:
        o = O.PropertyOutput(filename="f", stride=1, flush=0, outlist=COLUMNS[n])
        o.bind(s, "w")
        if not any("-->" in l for l in out["f"].lines()):
            o.print_header()
        head = out["f"].lines()
        out["f"].text = []
        o.write()
    finally:
        O.open_backup = old
    head = [h for h in head if h.startswith("#") and "-->" in h]
    cx.check(len(head) == len(COLUMNS[n]), "the header names every quantity")
    rows = out["f"].lines()
    cx.check(len(rows) == 1, "one row")
    row = numbers(cx, rows)
    for h, what in zip(head, COLUMNS[n]):
        cols, name = h[1:].split("-->", 1)
        cx.check(name.split(" : ")[0].split(": ")[0].strip() == what, "the header gives %s" % what)
        cols = cols.replace("column", "").replace("cols.", "").split("-")
        lo, hi = int(cols[0]), int(cols[-1])
        v, dim, unit = s.prop[what]
        want = cx.np.asarray(v).reshape(-1)
        if unit:
            want = want / U.unit_to_internal(dim, unit, 1.0)
        cx.check(hi - lo + 1 == len(want) and hi <= len(row), "columns of %s" % what)
        for i in range(len(want)):
            cx.eq(row[lo - 1 + i], want[i], "values of %s" % what, tol=1e-5)
    cx.check(len(row) == hi, "no more columns than announced")


SIZED = "step time temperature conserved ensemble_temperature ensemble_pressure hweights_component(0) density volume cell_h cell_abcABC potential bead_potentials potential_opsc potential_tdsc pot_component(0) pot_component_raw(0) forcemod spring kinetic_md kinetic_cv kinetic_td kinetic_tens kinetic_ij(0;1) kinetic_opsc kinetic_tdsc kinetic_prsc r_gyration atom_x(0) atom_v(0) atom_p(0) atom_f(0) atom_x_path(0) atom_f_path(0) vcom stress_md pressure_md kstress_md virial_md virial_fq vir_component(0) vir_component_raw(0) stress_cv pressure_cv kstress_cv virial_cv displacedpath(0.5;0.25;0;0) scaledcoords(fd_delta=0.01) sc_op_scaledcoords(0.01) isotope_scfep(2.0;0) isotope_tdfep(2.0;0) isotope_zetatd(2.0;0) isotope_zetasc(2.0;0) isotope_zetasc_4th(2.0;0) isotope_zetatd_4th(2.0;1) chin_weight ti_weight ti_pot"


@harness(params=[dict(nb=2), dict(nb=4)], bounds="2 and 4 beads, two atoms")
def sizes(cx, nb):
    """each quantity has as many values as the headers of the output files announce"""
    s = system(cx, nb, nat=2, nsym=1)
    d = s.prop.property_dict
    for k in SIZED.split():
        key = k.split("(")[0]
        if key in d:
            cx.check(d[key].get("size", 1) == cx.np.asarray(get(s, k)).size, "number of values of " + key)
