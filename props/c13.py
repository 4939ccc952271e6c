"""Trajectory files: what is written is what is read back."""

import os

from symx.base import harness
from props.common import *

PRELOAD = ["ipi.engine.atoms", "ipi.engine.beads", "ipi.engine.cell", "ipi.utils.io", "ipi.utils.io.io_units", "ipi.utils.io.backends.io_xyz", "ipi.utils.io.backends.io_pdb", "ipi.utils.io.backends.io_json", "ipi.utils.io.backends.io_binary", "ipi.utils.units"]
BOUNDS = "1-3 atoms, 1-3 frames, any coordinates and cell parameters within the format's columns; all trajectory kinds and units of each dimension."

NAMES = ["H", "O", "Zn"]


def atoms(cx, n, tag, lo=-9.0, hi=9.0):
    a = cx.mod("ipi.engine.atoms").Atoms(n)
    a.q = cx.reals("q" + tag, 3 * n, lo, hi)
    a.names[:] = NAMES[:n]
    return a


def cell(cx, tag="", kind="ortho"):
    np = cx.np
    h = np.zeros((3, 3), float)
    for i in range(3):
        h[i, i] = cx.real("h%s%d" % (tag, i), 2, 9)
    if kind == "shear":
        h[0, 1] = cx.real("s%s" % tag, -0.5, 0.5)
    return cx.mod("ipi.engine.cell").Cell(h=h)


def same(cx, ret, a, c, tol, htol, shear=False):
    D = cx.mod("ipi.utils.depend").dstrip
    np = cx.np
    b = ret["atoms"]
    cx.check(b.natoms == a.natoms, "number of atoms")
    cx.check([str(x) for x in D(b.names)] == [str(x) for x in D(a.names)], "labels")
    cx.eq(D(b.q), D(a.q), "coordinates", tol=tol)
    M = cx.mod("ipi.utils.units").Elements.mass
    cx.eq(D(b.m), [M(x) for x in NAMES[: a.natoms]], "masses", tol=1e-6)
    g, h = D(ret["cell"].h), D(c.h)
    if not shear:
        cx.eq(g, h, "cell", tol=htol)
    else:
        cx.eq(g[0, 0], h[0, 0], "cell a", tol=htol)
        cx.eq(g[1, 1] ** 2, h[1, 1] ** 2, "cell b", tol=htol * 10)
        cx.eq(g[0, 1], h[0, 1], "cell shear", tol=htol)


def opener(cx):
    d = cx.tmpdir()
    return os.path.join(d, "traj")


XU = [("automatic", "automatic"), ("angstrom", "angstrom"), ("atomic_unit", "angstrom"), ("nanometer", "automatic"), ("angstrom", "atomic_unit")]


@harness(
    params=[dict(mode=m, n=n, frames=f, iu=i) for m, n, f, i in [("xyz", 1, 2, 0), ("xyz", 3, 1, 1), ("xyz", 2, 2, 2), ("xyz", 2, 1, 3), ("xyz", 1, 1, 4), ("pdb", 1, 2, 0), ("pdb", 3, 1, 1), ("pdb", 2, 2, 2), ("json", 1, 2, 0), ("json", 3, 1, 1), ("json", 2, 2, 2), ("binary", 1, 1, 0), ("binary", 3, 1, 1), ("bin", 2, 1, 2)]],
    bounds="up to 3 atoms and 2 frames of arbitrary positions, orthorhombic cells of any size",
    tokens=True,
    witnesses=2,
)
def positions_roundtrip(cx, mode, n, frames, iu):
    """positions, labels, masses and cell come back, in order, whatever the units"""
    io = cx.mod("ipi.utils.io")
    fn = opener(cx)
    u, cu = XU[iu]
    if mode == "pdb" and u == "atomic_unit":
        u = "angstrom"
    fr = [(atoms(cx, n, "f%d" % k), cell(cx, "f%d" % k)) for k in range(frames)]
    with open(fn, "w") as f:
        for k, (a, c) in enumerate(fr):
            io.print_file(mode, a, c, f, title="Step: %d " % k, key="positions", dimension="length", units=u, cell_units=cu)
    tol = {"xyz": 2e-4, "pdb": 4e-3, "json": 1e-7, "binary": 1e-7, "bin": 1e-7}[mode]
    htol = {"xyz": 4e-5, "pdb": 4e-3, "json": 1e-7, "binary": 1e-7, "bin": 1e-7}[mode]
    if u == "nanometer":
        tol *= 10
    with open(fn) as f:
        got = list(io.iter_file(mode, f))
    cx.check(len(got) == frames, "number of frames")
    for r, (a, c) in zip(got, fr):
        same(cx, r, a, c, tol, htol)
    with open(fn) as f:
        for a, c in fr:
            same(cx, io.read_file(mode, f), a, c, tol, htol)


@harness(bounds="two frames of one atom", tokens=True, witnesses=1)
def binary_frames(cx):
    """a binary trajectory of several frames can be read back"""
    io = cx.mod("ipi.utils.io")
    fn = opener(cx)
    a, c = atoms(cx, 1, ""), cell(cx)
    with open(fn, "w") as f:
        for k in range(2):
            io.print_file("binary", a, c, f, title="Step: %d " % k, key="positions")
    n = 0
    with open(fn) as f:
        try:
            for r in io.iter_file("binary", f):
                cx.eq(cx.mod("ipi.utils.depend").dstrip(r["atoms"].q), cx.mod("ipi.utils.depend").dstrip(a.q), "coordinates", tol=1e-6)
                n += 1
        except (SystemError, ValueError):
            n = -1
    cx.check(n == 2, "second frame of a binary trajectory")


@harness(params=[dict(mode=m, path=p) for m, p in [("xyz", False), ("json", False), ("xyz", True)]], bounds="cells with one arbitrary shear", tokens=True, witnesses=1)
def sheared_cell(cx, mode, path):
    io = cx.mod("ipi.utils.io")
    fn = opener(cx)
    a, c = atoms(cx, 1, ""), cell(cx, "", "shear")
    with open(fn, "w") as f:
        if path:
            b = cx.mod("ipi.engine.beads").Beads(1, 1)
            b.q[0] = a.q
            b.names[:] = "H"
            io.print_file_path(mode, b, c, f, key="positions", units="angstrom", cell_units="angstrom")
        else:
            io.print_file(mode, a, c, f, key="positions", units="angstrom", cell_units="angstrom")
    with open(fn) as f:
        same(cx, io.read_file(mode, f), a, c, 1e-3, 1e-3 if mode == "xyz" else 1e-6, True)


@harness(params=[dict(x=x) for x in ("neg", "big", "small")], bounds="coordinates over the whole range of the PDB columns (-999.999..9999.999 angstrom)", tokens=False, witnesses=1)
def pdb_columns(cx, x):
    """wide numbers do not run into their neighbours"""
    io = cx.mod("ipi.utils.io")
    lo, hi = {"neg": (-999, -100), "big": (1000, 9999), "small": (-99, 999)}[x]
    v = [float(cx.conc(cx.int("v%d" % i, lo, lo + 3 if i else lo + 1))) + 0.125 for i in range(3)]
    if x == "big":
        v[1] = -v[1] / 16
    a = cx.mod("ipi.engine.atoms").Atoms(2)
    A = cx.mod("ipi.utils.units").unit_to_internal("length", "angstrom", 1.0)
    a.q = cx.np.array(v + [v[2], -1.5, v[0]]) * A
    a.names[:] = ["H", "O"]
    c = cx.mod("ipi.engine.cell").Cell(h=cx.np.identity(3) * 20.0)
    fn = opener(cx)
    with open(fn, "w") as f:
        io.print_file("pdb", a, c, f)
    with open(fn) as f:
        r = io.read_file("pdb", f)
    D = cx.mod("ipi.utils.depend").dstrip
    cx.eq(D(r["atoms"].q), D(a.q), "wide coordinates", tol=1e-2)


KEYS = ["velocities", "momenta", "forces", "forces_spring", "forces_sc", "x_centroid", "v_centroid", "p_centroid", "f_centroid", "kinetic_cv", "kinetic_od", "r_gyration", "forces_component", "Eforces", "becx"]


@harness(params=[dict(key=k) for k in KEYS], bounds="every unit defined for the kind's dimension, arbitrary values", tokens=True, witnesses=1)
def kinds_roundtrip(cx, key):
    """each kind of trajectory is read back in internal units, for any unit it can
    be written in"""
    io = cx.mod("ipi.utils.io")
    U = cx.mod("ipi.utils.units")
    dim = cx.mod("ipi.utils.io.io_units").traj_dict[key]["dimension"]
    us = [u for u in U.UnitMap[dim] if u and u != "ase"] if dim in U.UnitMap else ["automatic", "atomic_unit"]
    if dim == "energy":
        us += ["millielectronvolt"]
    for k, u in enumerate(us):
        v = U.unit_to_internal(dim, u, 1.0) if dim != "number" else 1.0
        a = atoms(cx, 1, "u%d" % k, -9 * v, 9 * v)
        c = cell(cx, "u%d" % k)
        fn = opener(cx)
        with open(fn, "w") as f:
            io.print_file("xyz", a, c, f, title="Step: 0 Bead: 0 ", key=key, dimension=dim, units=u)
        D = cx.mod("ipi.utils.depend").dstrip
        with open(fn) as f:
            r = io.read_file("xyz", f)
        cx.eq(D(r["atoms"].q) / v, D(a.q) / v, "%s in %s" % (key, u), tol=1e-3)
        with open(fn) as f:
            r = io.read_file("xyz", f, dimension=dim)
        cx.eq(D(r["atoms"].q) / v, D(a.q) / v, "%s in %s, dimension requested" % (key, u), tol=1e-3)


@harness(params=[dict(n=n, nb=nb, u=u, raw=r) for n, nb, u, r in [(1, 3, "automatic", False), (2, 2, "angstrom", False), (2, 1, "angstrom", False), (1, 2, "x", True)]], bounds="1-2 atoms, 1-3 beads", tokens=True, witnesses=1)
def path_roundtrip(cx, n, nb, u, raw):
    """a whole ring polymer is written as one frame per bead"""
    io = cx.mod("ipi.utils.io")
    b = cx.mod("ipi.engine.beads").Beads(n, nb)
    b.q = cx.reals("q", (nb, 3 * n), -9, 9)
    b.names[:] = NAMES[:n]
    c = cell(cx)
    fn = opener(cx)
    with open(fn, "w") as f:
        if raw:
            io.print_file_path_raw("xyz", b, c, f, title="positions{atomic_unit} cell{atomic_unit}")
        else:
            io.print_file_path("xyz", b, c, f, key="positions", units=u, cell_units=u)
    with open(fn) as f:
        got = list(io.iter_file("xyz", f))
    cx.check(len(got) == nb, "one frame per bead")
    for k, r in enumerate(got):
        same(cx, r, b[k], c, 2e-4, 4e-5)


@harness(params=[dict(mode=m, cut=k) for m, k in [("xyz", 1), ("xyz", 2), ("xyz", 3)]], bounds="file ends after any number of atom records of its last frame", tokens=True, witnesses=1)
def truncated(cx, mode, cut):
    """a frame cut short is never returned as if it were complete"""
    io = cx.mod("ipi.utils.io")
    a, c = atoms(cx, 3, ""), cell(cx)
    fn = opener(cx)
    with open(fn, "w") as f:
        io.print_file(mode, a, c, f, key="positions")
    keep = cx.conc(cx.int("keep", 2, 4))
    with open(fn) as f:
        lines = f.readlines()
    with open(fn, "w") as f:
        f.writelines(lines * (cut - 1) + lines[:keep])
    bad = None
    with open(fn) as f:
        got = []
        try:
            for r in io.iter_file(mode, f):
                got.append(r)
        except (ValueError, EOFError, StopIteration, RuntimeError, IndexError) as e:
            bad = e
    cx.check(len(got) == cut - 1, "complete frames only")
    for r in got:
        same(cx, r, a, c, 2e-4, 4e-5)


CH = {
    "abcABC": "CELL(abcABC): %10.5f %10.5f %10.5f %10.5f %10.5f %10.5f",
    "H": "CELL{H}: " + "%10.5f " * 9,
    "GENH": "CELL[GENH]: " + "%10.5f " * 9,
    "none": "no cell here",
}


@harness(params=[dict(style=s, u=u) for s in CH for u in ("angstrom", "atomic_unit", None)], bounds="arbitrary positions and cell lengths (GENH: any orientation out of 4, i.e. rotations by a right angle)", tokens=True, witnesses=1)
def comment_line(cx, style, u):
    """the documented cell descriptions and unit declarations of the comment line"""
    np = cx.np
    io = cx.mod("ipi.utils.io")
    conv = cx.mod("ipi.utils.units").unit_to_internal("length", u or "atomic_unit", 1.0)
    x = [cx.real("x%d" % i, -9, 9) for i in range(3)]
    L = [cx.real("l%d" % i, 2, 9) for i in range(3)]
    H = np.zeros((3, 3), float)
    Q = np.array(x)
    for i in range(3):
        H[i, i] = L[i]
    if style == "abcABC":
        t = CH[style] % (L[0], L[1], L[2], 90.0, 90.0, 90.0)
    elif style == "H":
        H[0, 1] = cx.real("s01", -1, 1)
        H[0, 2] = cx.real("s02", -1, 1)
        H[1, 2] = cx.real("s12", -1, 1)
        t = CH[style] % tuple(H.reshape(-1))
    elif style == "GENH":
        rot = cx.choice("rot", [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [-1, 0, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 0, -1], [0, 1, 0], [1, 0, 0]]])
        R = np.array(rot) * 1.0
        G = np.dot(H, R)  # rows are the lattice vectors, rotated
        t = CH[style] % tuple(G.reshape(-1))
        Q = np.dot(R, Q)  # coordinates in the frame where a is along x
    else:
        t = CH[style]
    fn = opener(cx)
    with open(fn, "w") as f:
        f.write("1\n# %s %s\n" % (t, "positions{%s} cell{%s}" % (u, u) if u else ""))
        f.write("%8s %12.5e %12.5e %12.5e\n" % ("H", x[0], x[1], x[2]))
    with open(fn) as f:
        r = io.read_file("xyz", f)
    D = cx.mod("ipi.utils.depend").dstrip
    cx.eq(D(r["atoms"].q), Q * conv, "positions", tol=2e-3)
    if style != "none":
        cx.eq(D(r["cell"].h), H * conv, "cell", tol=2e-3)


@harness(params=[dict(d=d) for d in ("", "sub")], bounds="0-3 earlier backups", witnesses=1)
def backups(cx, d):
    """opening a file for writing never destroys an existing one"""
    io = cx.mod("ipi.utils.io")
    base = cx.tmpdir()
    top = os.path.join(base, d)
    os.makedirs(top, exist_ok=True)
    k = cx.conc(cx.int("k", 0, 3))
    old = os.getcwd()
    os.chdir(base)
    try:
        fn = os.path.join(d, "out") if d else "out"
        for i in range(k + 1):
            with io.open_backup(fn, "w") as f:
                f.write("run %d" % i)
        found = sorted(open(os.path.join(top, x)).read() for x in os.listdir(top))
        cx.check(found == ["run %d" % i for i in range(k + 1)], "all earlier contents kept")
        cx.check(open(fn).read() == "run %d" % k, "file holds the new contents")
        with io.open_backup(fn, "a") as f:
            f.write("+")
        cx.check(open(fn).read() == "run %d+" % k and len(os.listdir(top)) == k + 1, "appending makes no backup")
    finally:
        os.chdir(old)
