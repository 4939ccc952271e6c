"""Ramps, chains of motions and replayed trajectories."""

import os

from symx.base import harness
from props.common import *

PRELOAD = PRE + ["ipi.engine.motion", "ipi.engine.motion.ramp", "ipi.engine.motion.multi", "ipi.engine.motion.replay", "ipi.inputs.motion.motion", "ipi.engine.simulation", "ipi.inputs.simulation", "ipi.engine.initializer", "ipi.utils.io", "ipi.utils.io.io_units", "ipi.utils.io.backends.io_xyz", "ipi.utils.io.backends.io_pdb", "ipi.utils.io.inputs.io_xml", "ipi.utils.units", "ipi.pes.dummy"]
BOUNDS = "ramps of up to 5 steps between any two values; chains of up to 3 motions, finishing at any point; trajectories of up to 3 frames, 1-2 atoms and 1-3 beads with any coordinates."


def D(cx, x):
    return cx.mod("ipi.utils.depend").dstrip(x)


@harness(params=[dict(kind=k, log=l, total=n, start=s) for k in ("t", "p") for l in (True, False) for n, s in ((0, 0), (1, 0), (2, 0), (3, 0), (3, 1), (3, 2), (3, 3), (4, 0), (4, 2), (5, 0), (2, 7)) if not l or n in (0, 1, 2, 4) or s >= n - 1], limit=60)
def ramps(cx, kind, log, total, start):
    """the target follows the schedule, ends at the final value and stays there"""
    a, b = cx.real("a", 0.25, 2), cx.real("b", 0.25, 2)
    R = cx.mod("ipi.engine.motion.ramp")
    if kind == "t":
        mot = R.TemperatureRamp(t_start=a, t_end=b, total_steps=total, current_step=start, logscale=log)
    else:
        mot = R.PressureRamp(p_start=a, p_end=b, total_steps=total, current_step=start, logscale=log)
    s = build(cx, 1, 1, motion=mot, temp=0.5)
    s.ensemble.temp = 0.5
    s.ensemble.pext = 0.75
    q, p = D(cx, s.beads.q).copy(), D(cx, s.beads.p).copy()
    for k in range(start + 1, max(start, total) + 3):
        mot.step(k)
        x, y = (s.ensemble.temp, s.ensemble.pext) if kind == "t" else (s.ensemble.pext, s.ensemble.temp)
        if k >= total:
            cx.eq(x, b, "final value")
        elif log:
            cx.check(x > 0, "value is positive")
            cx.eq(x**total, a ** (total - k) * b**k, "geometric ramp", tol=1e-7)
        else:
            cx.eq(x * total, a * (total - k) + b * k, "linear ramp")
        cx.eq(y, 0.75 if kind == "t" else 0.5, "nothing else is changed")
        cx.check(int(mot.current_step) == k, "steps are counted")
        cx.check(not mot.finished, "a ramp does not end the run")
    cx.eq(D(cx, s.beads.q), q, "positions are kept")
    cx.eq(D(cx, s.beads.p), p, "momenta are kept")


@harness(params=[dict(n=n) for n in (1, 2, 3)], limit=60)
def chain_steps(cx, n):
    """each motion makes one step, in order, until one of them says that the run is over"""
    np = cx.np
    M = cx.mod("ipi.engine.motion")
    log = []
    when = cx.choice("when", [0, 1, 2, 3, 4])
    who = cx.choice("who", list(range(n)))
    dts = [cx.real("dt%d" % i, 0, 1) for i in range(n)]

    class One(M.Motion):
        def __init__(self, i):
            super().__init__()
            self.i = i
            self.dt = dts[i]

        def bind(self, *a):
            log.append(("bind", self.i, len(a)))

        def step(self, step=None):
            log.append((self.i, step))
            if self.i == who and step == when:
                self.finish(status="bad", message="over")

    l = [One(i) for i in range(n)]
    mm = M.MultiMotion(motionlist=l)
    mm.bind(1, 2, 3, 4, 5, 6, 7)
    cx.check(log == [("bind", i, 7) for i in range(n)], "all motions are bound")
    tot = 0.0
    for x in dts:
        tot = tot + x
    cx.eq(mm.dt, tot, "time of a step")
    z = cx.real("z", 0, 1)
    l[-1].dt = z
    cx.eq(mm.dt, tot - dts[-1] + z, "time of a step after a change")
    del log[:]
    k = 0
    while k < 4 and not mm.finished:
        mm.step(k)
        k += 1
    want = [(i, j) for j in range(4) for i in range(n) if j < when or (j == when and i <= who)]
    cx.check(log == want, "order of the steps")
    if mm.finished:
        cx.check(k == when + 1, "finished with the member")
        cx.check(mm.exit_status == "bad" and mm.exit_message == "over", "reason")
    else:
        cx.check(when >= 4, "not finished")


def member(mode, com, fix, fn):
    c = {"yes": "<fixcom>True</fixcom>", "no": "<fixcom>False</fixcom>", "default": ""}[com]
    f = "<fixatoms> [ %s ] </fixatoms>" % ", ".join(str(x) for x in fix) if fix else ""
    body = {
        "dynamics": "<dynamics mode='nve'><timestep> 1.0 </timestep></dynamics>",
        "t_ramp": "<t_ramp><t_start> 1.0 </t_start><t_end> 2.0 </t_end><total_steps> 5 </total_steps></t_ramp>",
        "p_ramp": "<p_ramp><p_start> 1.0 </p_start><p_end> 2.0 </p_end><total_steps> 5 </total_steps></p_ramp>",
        "alchemy": "<alchemy><names> [ H, D ] </names><nxc> 1.0 </nxc></alchemy>",
        "replay": "<file mode='xyz'> %s </file>" % fn,
        "atomswap": "<atomswap><names> [ H, D ] </names><nxc> 1.0 </nxc></atomswap>",
    }[mode]
    return "<motion mode='%s'> %s %s %s </motion>" % (mode, c, f, body)


OTHER = ("t_ramp", "p_ramp", "alchemy", "atomswap", "replay", "dynamics")


@harness(params=[dict(other=o, c0=a, c1=b, f0=f, f1=g) for o in OTHER for a, b, f, g in (("yes", "yes", (), ()), ("yes", "no", (), ()), ("no", "yes", (), ()), ("default", "default", (), ()), ("no", "no", (0, 1), (0, 1)), ("no", "no", (0, 1), (1, 2)), ("no", "no", (0,), ()))])
def chain_constraints(cx, other, c0, c1, f0, f1):
    """the constraints of a chain are those that all the members have"""
    I = cx.mod("ipi.inputs.motion.motion").InputMotion
    X = cx.mod("ipi.utils.io.inputs.io_xml")
    fn = os.path.join(cx.tmpdir(), "f.xyz")
    with open(fn, "w") as f:
        f.write("1\n# comment\nH 0.0 0.0 0.0\n")
    text = "<motion mode='multi'> %s %s </motion>" % (member("dynamics", c0, f0, fn), member(other, c1, f1, fn))
    mm = None
    for k in range(2):
        # as given, and as read from a restart file
        i = I()
        i.parse(X.xml_parse_string(text).fields[0][1])
        mm = i.fetch()
        cx.check([type(m).__name__ for m in mm.mlist][0] == "Dynamics" and len(mm.mlist) == 2, "members in order")
        cx.check(bool(mm.fixcom) == (c0 != "no" and c1 != "no"), "centre of mass")
        dof = sorted(set(3 * a + d for a in f0 for d in range(3)) & set(3 * a + d for a in f1 for d in range(3)))
        cx.check(sorted(int(x) for x in mm.fixatoms_dof) == dof, "fixed degrees of freedom")
        o = I()
        o.store(mm)
        text = o.write("motion")


def frames(cx, nf, nb, na):
    """arbitrary coordinates of all the frames and beads, and cells of the frames"""
    x = cx.reals("x", (nf, nb, 3 * na), -9, 9)
    c = cx.reals("c", (nf, 3), 2, 9)
    return x, c


def write(cx, f, mode, x, c, title, units):
    np = cx.np
    a = cx.mod("ipi.engine.atoms").Atoms(len(x) // 3)
    a.q = x
    a.names[:] = ["H", "O"][: len(x) // 3]
    h = np.zeros((3, 3), float)
    for i in range(3):
        h[i, i] = c[i]
    cx.mod("ipi.utils.io").print_file(mode, a, cx.mod("ipi.engine.cell").Cell(h=h), f, title=title, key="positions", dimension="length", units=units, cell_units=units)


CASES = [("xyz", 1, 1, False), ("xyz", 2, 1, False), ("xyz", 2, 2, True), ("xyz", 3, 1, True), ("pdb", 1, 1, False), ("pdb", 2, 1, True), ("pdb", 2, 1, False)]


@harness(params=[dict(mode=m, nb=b, na=a, wild=w, first=f, units=u) for m, b, a, w in CASES for f, u in ((0, "atomic_unit"), (1, "angstrom"), (2, "automatic"), (3, "automatic"))], tokens=True, witnesses=1, limit=60)
def replayed(cx, mode, nb, na, wild, first, units):
    """step k shows frame k of every bead and the cell of the frame, wherever the run starts, until the frames end"""
    np = cx.np
    nf = 3
    x, c = frames(cx, nf, nb, na)
    d = cx.tmpdir()
    unit = "angstrom" if mode == "pdb" and units == "atomic_unit" else units
    if wild:
        # the names sort differently from the beads
        names = ["t.pos_%d.%s" % (nb - b, mode) for b in range(nb)]
        for b in range(nb):
            with open(os.path.join(d, names[b]), "w") as f:
                for k in range(nf):
                    write(cx, f, mode, x[k, b], c[k], "Step: %d Bead: %d " % (k, b), unit)
        with open(os.path.join(d, "other.%s" % mode), "w") as f:
            f.write("nothing\n")
        value = "t.pos_*.%s" % mode
    else:
        value = "t.%s" % mode
        with open(os.path.join(d, value), "w") as f:
            for k in range(nf):
                for b in range(nb):
                    write(cx, f, mode, x[k, b], c[k], "Step: %d Bead: %d " % (k, b), unit)
    old = os.getcwd()
    os.chdir(d)
    try:
        R = cx.mod("ipi.engine.motion.replay").Replay
        mot = R(fixatoms_dof=np.zeros(0, int), intraj=cx.mod("ipi.engine.initializer").InitFile(value=value, mode=mode, units=""))
        s = build(cx, nb, na, motion=mot, temp=1.0)
        for k in range(first, nf):
            mot.step(k)
            cx.check(not mot.finished, "there are frames left")
            tol = 1e-2 if mode == "pdb" else 1e-3
            cx.eq(D(cx, s.beads.q), x[k], "positions of frame %d" % k, tol=tol)
            h = D(cx, s.cell.h)
            for i in range(3):
                cx.eq(h[i, i], c[k, i], "cell of frame %d" % k, tol=tol)
        q = D(cx, s.beads.q).copy()
        mot.step(max(first, nf))
        cx.check(bool(mot.finished), "the run ends with the frames")
        if first < nf:
            cx.eq(D(cx, s.beads.q), q, "positions are kept at the end")
    finally:
        os.chdir(old)


CHK = """<simulation verbosity='quiet'> <step> 3 </step> <total_steps> 100 </total_steps>
<output prefix='x'><properties stride='3' filename='o'> [ step ] </properties></output>
<ffdirect name='ff'><pes>dummy</pes></ffdirect>
<system><beads natoms='1' nbeads='%d'> <q shape='(%d, 3)'> [ %s ] </q> <p shape='(%d, 3)'> [ %s ] </p> <m shape='(1)'> [ 1837.0 ] </m> <names shape='(1)'> [ H ] </names></beads>
<cell shape='(3, 3)'> [ %s ] </cell>
<forces><force forcefield='ff'></force></forces>
<ensemble><temperature> 1.0 </temperature></ensemble>
<motion mode='dynamics'><dynamics mode='nve'></dynamics></motion>
</system></simulation>"""


@harness(params=[dict(nb=b, mode=m) for b in (1, 2) for m in ("chk", "checkpoint")], tokens=True, witnesses=1, limit=60)
def replayed_checkpoint(cx, nb, mode):
    """a checkpoint is one frame"""
    np = cx.np
    x, c = frames(cx, 1, nb, 1)
    d = cx.tmpdir()
    fn = os.path.join(d, "r.chk")
    with open(fn, "w") as f:
        f.write(CHK % (nb, nb, ", ".join("%16.8e" % v for v in x.reshape(-1)), nb, ", ".join(["0.0"] * (3 * nb)), ", ".join("%16.8e" % (c[0, i] if i == j else 0.0) for i in range(3) for j in range(3))))
    mot = cx.mod("ipi.engine.motion.replay").Replay(fixatoms_dof=np.zeros(0, int), intraj=cx.mod("ipi.engine.initializer").InitFile(value=fn, mode=mode, units=""))
    s = build(cx, nb, 1, motion=mot, temp=1.0)
    mot.step(0)
    cx.check(bool(mot.finished), "one frame")
    cx.eq(D(cx, s.beads.q), x[0], "positions", tol=1e-6)
    h = D(cx, s.cell.h)
    for i in range(3):
        for j in range(3):
            cx.eq(h[i, j], c[0, i] if i == j else 0.0, "cell", tol=1e-6)


@harness(params=[dict(units=u, mode="xyz") for u in ("", "atomic_unit", "angstrom", "nanometer")], tokens=True, witnesses=1, limit=60)
def replayed_units(cx, units, mode):
    """a file that does not say its units is read in the units given in the input"""
    np = cx.np
    x, c = frames(cx, 2, 1, 1)
    fn = os.path.join(cx.tmpdir(), "t.xyz")
    with open(fn, "w") as f:
        for k in range(2):
            f.write("1\n# CELL(abcABC): %10.5e %10.5e %10.5e 90.0 90.0 90.0 Step: %d\nH %10.5e %10.5e %10.5e\n" % (tuple(c[k]) + (k,) + tuple(x[k, 0])))
    mot = cx.mod("ipi.engine.motion.replay").Replay(fixatoms_dof=np.zeros(0, int), intraj=cx.mod("ipi.engine.initializer").InitFile(value=fn, mode=mode, units=units))
    s = build(cx, 1, 1, motion=mot, temp=1.0)
    u = {"": 1.0, "atomic_unit": 1.0, "angstrom": 1.0 / 0.529177210903, "nanometer": 10.0 / 0.529177210903}[units]
    for k in range(2):
        mot.step(k)
        cx.eq(D(cx, s.beads.q)[0], x[k, 0] * u, "positions", tol=1e-3 * u)
        h = D(cx, s.cell.h)
        for i in range(3):
            cx.eq(h[i, i], c[k, i] * u, "cell", tol=1e-3 * u)
