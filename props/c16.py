"""The run loop: which steps are run, what is written when, what a stop leaves behind."""

import os
import sys

from symx.base import harness, Stub
from props.common import *

PRELOAD = PRE + ["ipi.engine.simulation", "ipi.inputs.simulation", "ipi.engine.outputs", "ipi.utils.softexit", "ipi.scripting.interactive"]
BOUNDS = "1-2 systems, runs of up to 6 steps, any strides up to 7, one interruption of any kind at any step and stage, then a restart; the state of a system is the number of steps it made (that a checkpoint holds the whole state is C15)."


class Halt(Exception):
    """the process ends here"""


class Snap(Stub):
    """stands for the checkpoint: remembers the state it is given"""

    made = []

    class Step:
        def __init__(self, s):
            self.s = s

        def store(self, v):
            self.s.data["step"] = v

    def __init__(self):
        self.data = None
        self.step = Snap.Step(self)

    def store(self, sim):
        self.data = dict(step=sim.step, counts=[s.count for s in sim.syslist], half=any(s.half for s in sim.syslist), idx=[getattr(o, "step", None) for o in sim.outtemplate], smot=sim.smotion.count if sim.smotion is not None else None)

    def write(self, name="", indent="", text=""):
        Snap.made.append(dict(self.data))
        return "<%d>" % (len(Snap.made) - 1)


class Props(Stub):
    def __init__(self, s):
        self.s = s
        self.property_dict = {"step": dict(size=1, help="x"), "other": dict(size=3)}

    def __getitem__(self, k):
        self.s.world.event("output", self.s)
        return (float(self.s.count), "", "") if k == "step" else (self.s.np.zeros(3) + self.s.count, "", "")


class Trajs(Stub):
    def __init__(self, s):
        self.s = s
        self.traj_dict = {"positions": {}, "x_centroid": {}}

    def __getitem__(self, k):
        np = self.s.np
        return (np.zeros((2, 3)) + self.s.count if k == "positions" else np.zeros(3) + self.s.count), "length", "atomic_unit"


class Mot(Stub):
    def __init__(self, s):
        self.s = s
        self.finished = False
        self.exit_status = None
        self.exit_message = "done"

    def step(self, step=None):
        s = self.s
        s.seen.append(step)
        s.world.event("before", s, step)
        s.half = True
        s.world.event("middle", s, step)
        s.count += 1
        s.half = False
        s.world.event("after", s, step)


class SMot(Stub):
    def __init__(self, world, count):
        self.world = world
        self.count = count

    def bind(self, syslist, prng, om):
        self.syslist = syslist

    def step(self, step=None):
        for s in self.syslist:
            self.world.cx.check(not s.half and s.count == step + 1, "the joint move comes after all systems have finished the step")
        self.count += 1


class SysStub(Stub):
    def __init__(self, world, np, prefix, count):
        self.world, self.np, self.prefix, self.count = world, np, prefix, count
        self.half = False
        self.seen = []
        self.motion = Mot(self)
        self.init = Stub()
        self.init.init_stage1 = lambda s: None
        self.properties = Props(self)
        self.trajs = Trajs(self)
        self.beads = Stub()
        self.beads.nbeads = 2
        self.beads.natoms = 1
        self.beads.names = ["H"]
        self.cell = world.cx.mod("ipi.engine.cell").Cell(h=np.identity(3) * 5.0)

    def bind(self, sim):
        self.simul = sim

    def __deepcopy__(self, memo):
        return self


class Pool(Stub):
    def __init__(self, max_workers=1):
        pass

    def submit(self, f, *a, **k):
        r = Stub()
        v = f(*a, **k)
        r.result = lambda: v
        return r


class World:
    """a directory, and one event that happens at a chosen moment"""

    def __init__(self, cx, how="none", at=None, who=0, steps=6):
        self.cx = cx
        cx.silence()
        self.dir = cx.tmpdir()
        os.chdir(self.dir)
        self.how, self.at, self.who = how, at, who
        self.fired = False
        self.clock = 1000.0
        S = cx.mod("ipi.engine.simulation")
        se = cx.mod("ipi.utils.softexit").softexit
        self.se = se
        self.S = S
        t = Stub()
        t.time = lambda: self.clock
        cx.patch(S, "time", t)
        cx.patch(S, "ThreadPoolExecutor", Pool)
        cx.patch(cx.mod("ipi.inputs.simulation"), "InputSimulation", Snap)
        self.reset()
        Snap.made = []
        self.outwatch = None

    def reset(self):
        se = self.se
        se.flist, se.tlist, se.triggered, se.exiting, se._doloop, se._thread = [], [], False, False, [False], None
        se.start = lambda timeout=0.0: None
        se.kill = lambda: None

    def event(self, stage, s, step=None):
        if self.outwatch is not None and stage == "before":
            self.outwatch(s)
        if self.fired or self.how == "none":
            return
        sim = s.simul
        if sim.syslist.index(s) != self.who:
            return
        if stage == "output":
            # the loop has numbered the step being written
            if self.how != "soft_output" or not (sim.step == self.at):
                return
            self.fired = True
            self.se.trigger(message="killed")
            return
        if not (step == self.at):
            return
        if self.how == "soft_" + stage:
            self.fired = True
            self.se.trigger(message="killed")
        elif self.how == "exitfile" and stage == "after":
            self.fired = True
            open("EXIT", "w").close()
        elif self.how == "walltime" and stage == "after":
            self.fired = True
            self.clock += 1e6
        elif self.how == "finished" and stage == "after":
            self.fired = True
            s.motion.finished = True
            s.motion.exit_status = "success"

    def sim(self, outs, nsys=1, step=0, counts=None, tsteps=6, threads=False, safe=1, smot=None, ttime=0):
        self.reset()
        O = self.cx.mod("ipi.engine.outputs")
        np = self.cx.np
        sl = [SysStub(self, np, "s%d" % k if nsys > 1 else "", counts[k] if counts else 0) for k in range(nsys)]
        pr = Stub()
        pr.seed = 1
        return self.S.Simulation(mode="md", syslist=sl, fflist=[], outputs=O.OutputList("x", outs), prng=pr, smotion=SMot(self, smot) if smot is not None else None, step=step, tsteps=tsteps, ttime=ttime, threads=threads, safe_stride=safe)

    def finish(self, sim):
        """what the main program does after the run"""
        self.se.trigger(status=sim.exit_status, message=sim.exit_message)

    def rows(self, fn):
        """numbers of steps in an output file, as written so far"""
        if not os.path.exists(fn):
            return None
        out = []
        with open(fn) as f:
            for l in f:
                if not l.startswith("#") and l.strip():
                    out.append(int(float(l.split()[0])))
        return out

    def frames(self, fn):
        if not os.path.exists(fn):
            return None
        out = []
        with open(fn) as f:
            L = f.read().splitlines()
        for k in range(0, len(L), 3):
            w = L[k + 1].split()
            # the label of the frame and its content
            out.append((int(w[w.index("Step:") + 1]), int(float(L[k + 2].split()[1]))))
        return out


def outputs(cx, ks, kt, kc, over=True, idx=0, flush=1, ibead=-1):
    O = cx.mod("ipi.engine.outputs")
    return [
        O.PropertyOutput(filename="o", stride=ks, flush=flush, outlist=["step"]),
        O.TrajectoryOutput(filename="t", stride=kt, flush=flush, what="positions", format="xyz", cell_units="atomic_unit", ibead=ibead),
        O.CheckpointOutput(filename="c", stride=kc, overwrite=over, step=idx),
    ]


def last_restart(w, cx):
    """content of the RESTART file"""
    if not os.path.exists("RESTART"):
        return None
    with open("RESTART") as f:
        t = f.read()
    return Snap.made[int(t[t.rindex("<") + 1 : t.rindex(">")])]


def consistent(cx, d, what):
    cx.check(not d["half"], what + " is not taken in the middle of a step")
    cx.check(all(c == d["step"] for c in d["counts"]), what + ": the step number is the number of steps done")
    if d["smot"] is not None:
        cx.check(d["smot"] == d["step"], what + ": joint moves done up to the step number")


def expected(n, k):
    return [s for s in range(n + 1) if s % k == 0]


CASES = [dict(nsys=1, threads=False), dict(nsys=2, threads=False, smot=True), dict(nsys=2, threads=True)]


def strides(cx):
    k = cx.int("k", 1, 7)
    w = cx.choice("which", [0, 1, 2])
    # one arbitrary, the others given
    return [k if i == w else i + 1 for i in range(3)]


def written(cx, label, got, n, k):
    """rows are those of steps 0, k, 2k ... up to n"""
    cx.check(got is not None and len(got) == len(set(got)), label + ": nothing is written twice")
    for s in range(n + 1):
        if s in got:
            cx.check(s % k == 0, label + ": only at multiples of the stride")
        else:
            cx.check(cx.np.asarray([s % k])[0] > 0 if s else False, label + ": at every multiple of the stride, and at the start")
    cx.check(got == sorted(got), label + ": in order")


@harness(params=CASES, bounds="runs of 5 steps, any strides", witnesses=1, limit=200, max_paths=400)
def fresh(cx, nsys, threads, smot=False):
    """an uninterrupted run makes exactly the requested steps, in order, once per
    system; everything is written at the start and at each multiple of its
    stride, labelled with the step; checkpoints are consistent and numbered"""
    w = World(cx)
    ks, kt, kc = strides(cx)
    over = cx.bool("over")
    sim = w.sim(outputs(cx, ks, kt, kc, over), nsys, tsteps=5, threads=threads, smot=0 if smot else None)
    sim.bind()
    sim.run()
    w.finish(sim)
    for k, s in enumerate(sim.syslist):
        cx.check(s.seen == [0, 1, 2, 3, 4], "every step is made once and in order")
        pre = "x." if nsys == 1 else "s%d_x." % k
        written(cx, "properties", w.rows(pre + "o"), 5, ks)
        for b in range(2):
            fr = w.frames(pre + "t_%d.xyz" % b)
            cx.check(all(a == c for a, c in fr), "frames carry the label of their step")
            written(cx, "trajectory", [a for a, c in fr], 5, kt)
    d = last_restart(w, cx)
    cx.check(d is not None, "a restart file is left")
    consistent(cx, d, "restart file")
    cx.check(d["step"] == 5, "restart file is that of the end")
    chk = [x for x in Snap.made[:-1]]
    for c in chk:
        consistent(cx, c, "checkpoint")
    written(cx, "checkpoints", [c["step"] for c in chk], 5, kc)
    if not over:
        names = sorted(f for f in os.listdir(w.dir) if f.startswith("x.c"))
        cx.check(names == ["x.c_%d" % i for i in range(len(chk))], "checkpoints are numbered without gaps")
        cx.check([c["idx"][2] for c in chk] == list(range(1, len(chk) + 1)), "a checkpoint knows the number of the next one")
    else:
        cx.check([f for f in os.listdir(w.dir) if "x.c" in f] == ["x.c"], "one checkpoint file is overwritten")


STOPS = ["soft_before", "soft_middle", "soft_after", "exitfile", "walltime"]


@harness(params=[dict(how=h, nsys=1, threads=False) for h in STOPS] + [dict(how=h, nsys=2, threads=t, who=k, smot=not t) for h in STOPS for k, t in ((0, False), (1, False), (1, True))], bounds="runs of 5 steps, any strides, stop at any step, restart to the end", witnesses=1, limit=200, max_paths=600)
def stopped(cx, how, nsys, threads, who=0, smot=False):
    """however a run is stopped, its restart file holds a consistent state, and
    a run continued from it writes exactly what the uninterrupted run would
    have written"""
    at = cx.int("at", 0, 4)
    w = World(cx, how, at, who)
    ks, kt, kc = cx.int("ks", 1, 6), cx.choice("kt", [1, 2]), cx.choice("kc", [2, 3])
    sim = w.sim(outputs(cx, ks, kt, kc, False), nsys, tsteps=5, threads=threads, smot=0 if smot else None, ttime=1000)
    sim.bind()
    sim.run()
    w.finish(sim)
    cx.check(w.fired, "the stop is noticed")
    d = last_restart(w, cx)
    cx.check(d is not None, "a restart file is left")
    if d is None:
        return
    consistent(cx, d, "restart file")
    if how in ("exitfile", "walltime"):
        cx.check(cx.np.asarray([d["step"] - at])[0] == 1, "the step under way is completed")
    else:
        cx.check(cx.np.asarray([d["step"] - at])[0] == 0, "the restart file is that of the start of the interrupted step")
    if os.path.exists("EXIT"):
        os.remove("EXIT")
    w.how = "none"
    if d["step"] < 5:
        sim2 = w.sim(outputs(cx, ks, kt, kc, False, idx=d["idx"][2]), nsys, step=d["step"], counts=d["counts"], tsteps=5, threads=threads, smot=d["smot"])
        sim2.bind()
        sim2.run()
        w.finish(sim2)
        for s in sim2.syslist:
            cx.check(s.seen == list(range(d["step"], 5)), "the continued run makes the remaining steps")
    for k in range(nsys):
        pre = "x." if nsys == 1 else "s%d_x." % k
        written(cx, "properties", w.rows(pre + "o"), 5, ks)
        fr = w.frames(pre + "t_0.xyz")
        cx.check(all(a == c for a, c in fr), "frames carry the label of their step")
        written(cx, "trajectory", [a for a, c in fr], 5, kt)
    names = sorted(f for f in os.listdir(w.dir) if f.startswith("x.c"))
    # (a run restarted from step 0 writes the initial state anew)
    cx.check(names == ["x.c_%d" % i for i in range(len(expected(5, kc)) + (d["step"] == 0))], "checkpoints of both runs are numbered through")
    f = last_restart(w, cx)
    consistent(cx, f, "final restart file")
    cx.check(f["step"] == 5, "the continued run ends at the requested step")


@harness(params=[dict(nsys=1), dict(nsys=2, who=1)], bounds="stop while outputs are being written", witnesses=1, limit=100, max_paths=300)
def during_output(cx, nsys, who=0):
    """a stop while outputs are written leaves a consistent restart file; nothing
    is missing after continuing, and at most the outputs of that step are there
    twice"""
    at = cx.int("at", 0, 4)
    w = World(cx, "soft_output", at, who)
    ks = cx.int("ks", 1, 3)
    kt = cx.choice("kt", [1, 2])
    sim = w.sim(outputs(cx, ks, kt, 9, False), nsys, tsteps=5)
    sim.bind()
    try:
        sim.run()
    except ValueError:
        # the stream was closed under the writer: the process ends
        cx.check(w.fired, "only after the stop")
    w.finish(sim)
    d = last_restart(w, cx)
    consistent(cx, d, "restart file")
    w.how = "none"
    if d["step"] < 5:
        sim2 = w.sim(outputs(cx, ks, kt, 9, False, idx=d["idx"][2]), nsys, step=d["step"], counts=d["counts"], tsteps=5)
        sim2.bind()
        sim2.run()
        w.finish(sim2)
    for k in range(nsys):
        pre = "x." if nsys == 1 else "s%d_x." % k
        for r, st in ((w.rows(pre + "o"), ks), ([a for a, c in w.frames(pre + "t_0.xyz")], kt)):
            dup = [s for s in set(r) if r.count(s) > 1]
            cx.check(len(dup) <= 1 and all(x == d["step"] + 1 for x in dup), "only the step under way may be written twice")
            written(cx, "output", sorted(set(r)), 5, st)


@harness(params=[dict(safe=2), dict(safe=3)], bounds="states saved every 2-3 steps", witnesses=1, limit=100, max_paths=300)
def safe_stride(cx, safe):
    """with states saved less often, the restart file is still consistent and
    at most that many steps old"""
    at = cx.int("at", 0, 4)
    how = cx.choice("how", ["soft_before", "soft_middle", "soft_after", "exitfile"])
    w = World(cx, how, at, 0)
    sim = w.sim(outputs(cx, 1, 1, 9, False), 1, tsteps=5, safe=safe)
    sim.bind()
    sim.run()
    w.finish(sim)
    d = last_restart(w, cx)
    consistent(cx, d, "restart file")
    n = sim.syslist[0].seen[-1]
    if how == "exitfile":
        cx.check(d["step"] == n + 1, "a regular end saves the last state")
    else:
        cx.check(n - safe < d["step"] <= n, "the restart file is at most the stride old")


@harness(params=[dict(nsys=1), dict(nsys=2, who=1)], bounds="motion that ends by itself at any step", witnesses=1, limit=100)
def finished(cx, nsys, who=0):
    """a motion that is done ends the run, with its status, and a consistent
    final state"""
    at = cx.int("at", 0, 4)
    w = World(cx, "finished", at, who)
    sim = w.sim(outputs(cx, 1, 1, 9, False), nsys, tsteps=5)
    sim.bind()
    sim.run()
    w.finish(sim)
    cx.check(w.fired and sim.finished and sim.exit_status == "success" and sim.exit_message == "done", "the end is passed on")
    d = last_restart(w, cx)
    consistent(cx, d, "restart file")
    cx.check(cx.np.asarray([d["step"] - at])[0] == 1, "the restart file is that after the last step")


@harness(params=[dict(flush=f) for f in (1, 2, 3)], bounds="any stride", witnesses=1, limit=100, max_paths=200)
def flushed(cx, flush):
    """rows are on disk at the latest after the requested number of writes"""
    w = World(cx)
    ks = cx.int("ks", 1, 7)

    def watch(s):
        n = s.count
        due = len([x for x in range(n + 1) if x == 0 or cx.np.asarray([x % ks])[0] == 0])
        for got in (w.rows("x.o"), w.frames("x.t_0.xyz"), w.frames("x.t_1.xyz")):
            cx.check(len(got) >= due - due % flush, "what was written is on disk")

    w.outwatch = watch
    sim = w.sim(outputs(cx, ks, ks, 9, flush=flush), 1, tsteps=5)
    sim.bind()
    sim.run()
    w.finish(sim)
    written(cx, "properties", w.rows("x.o"), 5, ks)
    written(cx, "trajectory", [a for a, c in w.frames("x.t_1.xyz")], 5, ks)


@harness(params=[dict(ibead=i) for i in (-2, -1, 0, 1)], bounds="two beads", witnesses=1)
def beads(cx, ibead):
    """trajectories of the chosen beads are written, each to its own file"""
    w = World(cx)
    sim = w.sim(outputs(cx, 1, cx.int("kt", 1, 4), 9, ibead=ibead), 1, tsteps=3)
    sim.bind()
    sim.run()
    w.finish(sim)
    exp = {-1: [0, 1], -2: [0], 0: [0], 1: [1]}[ibead]
    cx.check(sorted(f for f in os.listdir(w.dir) if f.startswith("x.t")) == ["x.t_%d.xyz" % b for b in exp], "one file per selected bead")


@harness(params=[dict(n=n) for n in (1, 2, 3)], bounds="up to 3 earlier runs in the same directory", witnesses=1)
def backups(cx, n):
    """starting anew never overwrites the files of earlier runs"""
    w = World(cx)
    ks = cx.int("ks", 1, 3)
    files = {}
    for r in range(n + 1):
        sim = w.sim(outputs(cx, ks, 1, 2), 1, tsteps=r + 1)
        sim.bind()
        sim.run()
        w.finish(sim)
        now = {}
        for f in os.listdir(w.dir):
            with open(f) as h:
                now[f] = h.read()
        for v in files.values():
            cx.check(v in now.values(), "files of earlier runs are kept")
        files = now
        cx.check(len([f for f in now if "x.o" in f]) == r + 1, "each run has its own file")
        cx.check(len([f for f in now if "RESTART" in f]) == r + 1, "each run has its own restart file")


@harness(params=[dict(a=a, b=b) for a, b in ((1, 4), (2, 3), (4, 1))], bounds="two consecutive interactive runs; optionally killed in the second", witnesses=1, limit=100, max_paths=300)
def interactive(cx, a, b):
    """running in pieces from a script is running in one go; the restart file
    after each piece, or after a kill in the middle of a step, is consistent"""
    kill = cx.bool("kill")
    at = cx.int("at", 0, 4)
    how = cx.choice("how", ["soft_before", "soft_middle", "soft_after"]) if kill else "none"
    w = World(cx, how, at)
    IS = cx.mod("ipi.scripting.interactive").InteractiveSimulation
    ks = cx.int("ks", 1, 6)
    sim0 = w.sim(outputs(cx, ks, 1, 2), 1, tsteps=5)
    sim0.bind()
    sim = IS.__new__(IS)
    sim.__dict__.update(sim0.__dict__)
    sim.syslist[0].simul = sim
    sim.chk.simul = sim
    for o in sim.outputs:
        if hasattr(o, "simul"):
            o.simul = sim
    w.se.flist = [(sim.softexit, (), {}) if getattr(f, "__func__", None) is w.S.Simulation.softexit else (f, x, k) for f, x, k in w.se.flist]
    for n in (a, b):
        sim.run(n)
        if w.fired:
            break
        d = last_restart(w, cx)
        consistent(cx, d, "restart file")
    if w.fired:
        for x in Snap.made:
            consistent(cx, x, "saved state")
    else:
        cx.check(sim.syslist[0].seen == [0, 1, 2, 3, 4], "every step is made once and in order")
        w.finish(sim)
        written(cx, "properties", w.rows("x.o"), 5, ks)
        d = last_restart(w, cx)
        consistent(cx, d, "final restart file")
        cx.check(d["step"] == 5, "final restart file is that of the end")


@harness(params=[dict()], bounds="", witnesses=1)
def refused(cx):
    """a run with nothing left to do, or two outputs to one file, is refused"""
    w = World(cx)
    n = cx.int("n", 1, 5)
    for mk in (lambda: w.sim(outputs(cx, 1, 1, 1), 1, step=3, counts=[3], tsteps=cx.conc(cx.np.asarray([3 - (n - 1) % 3])[0])), lambda: w.sim(outputs(cx, 1, 1, 1) + [cx.mod("ipi.engine.outputs").PropertyOutput(filename="o", outlist=["step"])], 1)):
        bad = False
        s = mk()
        try:
            s.bind()
        except ValueError:
            bad = True
        cx.check(bad, "refused")
