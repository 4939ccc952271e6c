"""Force-field request lifecycle: threaded, direct, batched and MPI providers."""

import json
import os
import sys
import types

from symx.base import harness
from props.common import *
from props.sched import Sched

PRELOAD = PRE + ["ipi.engine.forcefields", "ipi.interfaces.mpi", "ipi.interfaces.utils", "ipi.engine.atoms", "ipi.pes.dummy", "ipi.utils.softexit"]
BOUNDS = "up to 3 replicas and two rounds of evaluation per forcefield; up to two forced thread switches at any lock, status change, event or thread start, plus any order of voluntary waits taken round robin; up to 4 MPI ranks."


def pes(cx, pos, h, name="pes"):
    n = len(pos)
    v = cx.ufunc("%s%d" % (name, n), list(pos) + list(h.reshape(-1)), 1 + n + 9, -2.0, 2.0)
    return v[0], v[1 : n + 1].copy(), v[n + 1 :].reshape(3, 3).copy()


def world(cx, preempt, maxops=400):
    S = Sched(cx, preempt, maxops)
    thr, tim = S.threading(), S.time()
    for m in ("ipi.engine.forcefields", "ipi.engine.forces", "ipi.interfaces.mpi"):
        mod = cx.mod(m)
        cx.patch(mod, "threading", thr)
        cx.patch(mod, "time", tim)
    cx.patch(cx.mod("ipi.utils.depend"), "threading", thr)
    ff = cx.mod("ipi.engine.forcefields")
    se = cx.mod("ipi.utils.softexit").softexit
    cx.patch(se, "register_thread", lambda *a, **k: None)
    cx.patch(se, "register_function", lambda *a, **k: None)
    S.trig = []
    cx.patch(se, "trigger", lambda *a, **k: S.trig.append(1))
    cx.silence()
    S.reqs = []
    base = ff.ForceRequest

    class Watched(base):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.hist = [self.get("status")]
            self.snap = None
            self.copy_of = len(a) > 0 and isinstance(a[0], Watched)
            S.reqs.append(self)

        def __setitem__(self, k, v):
            super().__setitem__(k, v)
            if k == "status":
                self.hist.append(v)
                if v == "Done" and self.snap is None and self["result"] is not None:
                    self.snap = list(self["result"])
                S.point()

        __hash__ = object.__hash__

    cx.patch(ff, "ForceRequest", Watched)
    return S


def provider(cx, S, kind, offset, batch=1, dopbc=False, name="ff", pesname="pes", extra=""):
    """a forcefield of the given kind that evaluates the arbitrary function pes"""
    ffm = cx.mod("ipi.engine.forcefields")
    np = cx.np
    calls = []
    if kind in ("eval", "eval-direct"):

        class Ev(ffm.FFEval):
            def evaluate(self, r):
                calls.append(r["pos"].copy())
                S.point()
                u, f, v = pes(cx, list(r["pos"]), r["cell"][0], pesname)
                r["result"] = [u, f, v, {"raw": extra}]
                r["status"] = "Done"
                r._event_done.set()

        ff = Ev(latency=1e-4, offset=offset, name=name, dopbc=dopbc, threaded=kind == "eval")
        ff.xtra = {"raw": extra}
    elif kind in ("direct", "direct-thread"):
        D = cx.mod("ipi.pes.dummy").Dummy_driver

        class Drv(D):
            def compute_structure(self, cell, pos):
                calls.append(pos.reshape(-1).copy())
                S.point()
                u, f, v = pes(cx, list(pos.reshape(-1)), cell, pesname)
                return u, f.reshape(-1, 3), v, extra

        cx.patch(ffm, "load_pes", lambda mode, path="": Drv)
        ff = ffm.FFDirect(latency=1e-4, offset=offset, name=name, dopbc=dopbc, threaded=kind == "direct-thread", pes="dummy", batch_size=batch)
        ff.xtra = {"raw": extra} if extra else {}
    ff.calls = calls
    ff.offs = offset
    ff.pesname = pesname
    ff.pbc = dopbc
    return ff


def replicas(cx, n, natoms, ff, tag=""):
    Atoms = cx.mod("ipi.engine.atoms").Atoms
    FB = cx.mod("ipi.engine.forces").ForceBead
    out = []
    cell = make_cell(cx, cx.np.identity(3) * 3.0)
    for i in range(n):
        a = Atoms(natoms)
        a.q = cx.reals("%sq%d" % (tag, i), 3 * natoms, -2, 2)
        b = FB()
        b.bind(a, cell, ff, Stub())
        out.append(b)
    return out, cell


def own(cx, S, b, cell, ff, label):
    """the replica sees the result for its own structure"""
    np = cx.np
    dst = cx.mod("ipi.utils.depend").dstrip
    q0 = dst(b.atoms.q).copy()
    q = q0.copy()
    if ff.pbc:
        cell.array_pbc(q)
    h = dst(cell.h)
    u, f, v = pes(cx, list(q), h, ff.pesname)
    cx.eq(b.pot, u - ff.offs, label + ": energy minus the offset")
    cx.eq(dst(b.f).copy(), f, label + ": forces")
    w = dst(b.vir)
    for i in range(3):
        for j in range(i, 3):
            cx.eq(w[i, j], v[i, j], label + ": virial")
    cx.check(dict(b.extra) == ff.xtra, label + ": extras")
    cx.eq(dst(b.atoms.q).copy(), q0, label + ": positions are left alone")


def finals(cx, S, label=""):
    for k, r in enumerate(S.reqs):
        if r.copy_of:
            continue
        h = [x for i, x in enumerate(r.hist) if i == 0 or x != r.hist[i - 1]]
        cx.check(h in (["Queued", "Running", "Done"], ["Queued", "Done"]), "status goes from queued to done and stays there")
        cx.check(r._event_done.is_set(), "completion is signalled")
        if r.snap is not None:
            cx.eq(r.snap[0], r["result"][0], "energy is final once the request is done")


KINDS = [dict(kind="eval"), dict(kind="eval-direct"), dict(kind="direct"), dict(kind="direct-thread"), dict(kind="direct", batch=2), dict(kind="direct-thread", batch=2), dict(kind="direct-thread", batch=3)]


@harness(params=[dict(dopbc=p, **k) for k in KINDS for p in (False, True)], thorough=[dict(dopbc=False, preempt=2, **k) for k in KINDS], bounds="2 replicas (a multiple of the batch for non-threaded batches), two rounds, offset and positions symbolic, 1 preemption", witnesses=1, limit=300, max_paths=6000)
def lifecycle(cx, kind, dopbc, batch=1, preempt=1):
    """each replica gets the result of its own structure, with the offset applied
    once, evaluated once; nothing stays in the queue"""
    with world(cx, preempt if "thread" in kind or kind == "eval" else 0) as S:
        off = cx.real("offset", -1, 1)
        ff = provider(cx, S, kind, off, batch=batch, dopbc=dopbc, extra="text")
        bs, cell = replicas(cx, 2, 1, ff)
        ff.start()
        for b in bs:
            b.queue()
        for i, b in enumerate(bs):
            own(cx, S, b, cell, ff, "replica %d" % i)
        cx.check(len(ff.calls) == 2, "each structure is evaluated once")
        # second round: one replica moves, or both do
        both = batch == 2 and kind == "direct"
        moved = bs if both else bs[1:]
        for b in moved:
            b.atoms.q = cx.reals("new%d" % bs.index(b), 3, -2, 2)
        for b in bs:
            b.queue()
        for i, b in enumerate(bs):
            own(cx, S, b, cell, ff, "second round, replica %d" % i)
        cx.check(len(ff.calls) == 2 + len(moved), "unchanged structures are not evaluated again")
        cx.check(len(ff.requests) == 0, "answered requests leave the queue")
        ff.stop()
        finals(cx, S)


@harness(params=[dict(kind="eval"), dict(kind="direct-thread"), dict(kind="direct")], bounds="two threads (e.g. two outputs) read the results of two replicas at the same time, in any order, 1 preemption", witnesses=1, limit=300, max_paths=6000)
def concurrent_readers(cx, kind):
    """threads reading the same replica see the same, right result"""
    with world(cx, 1) as S:
        off = cx.real("offset", -1, 1)
        ff = provider(cx, S, kind, off)
        bs, cell = replicas(cx, 2, 1, ff)
        ff.start()
        seen = []
        th = cx.mod("ipi.engine.forces").threading

        def reader(order):
            for i in order:
                seen.append((i, bs[i].pot, bs[i].f.copy()))

        order = cx.choice("order", ["ab", "ba"])
        t = th.Thread(target=reader, args=([0, 1] if order == "ab" else [1, 0],))
        t.start()
        own(cx, S, bs[0], cell, ff, "main, replica 0")
        own(cx, S, bs[1], cell, ff, "main, replica 1")
        t.join()
        cx.check(len(seen) == 2, "the second thread gets its results")
        dst = cx.mod("ipi.utils.depend").dstrip
        for i, u, f in seen:
            uu, ff_, vv = pes(cx, list(dst(bs[i].atoms.q)), dst(cell.h))
            cx.eq(u, uu - off, "energy seen by the other thread")
            cx.eq(dst(f).copy(), ff_, "forces seen by the other thread")
        cx.check(len(ff.calls) == 2, "each structure is evaluated once")
        cx.check(len(ff.requests) == 0, "answered requests leave the queue")
        ff.stop()
        finals(cx, S)


@harness(params=[dict(inner="eval"), dict(inner="direct"), dict(inner="direct-thread")], bounds="committee of two members, 2 replicas, 1 preemption", witnesses=1, limit=300, max_paths=6000)
def committee_life(cx, inner):
    """a committee answers when all its members have, and releases their requests"""
    with world(cx, 1) as S:
        off = cx.real("offset", -1, 1)
        ffm = cx.mod("ipi.engine.forcefields")
        mem = [provider(cx, S, inner, cx.real("off%d" % k, -1, 1), name="m%d" % k, pesname="pes_%s" % "ab"[k], extra='{"k": %d}' % k if inner != "eval" else "") for k in range(2)]
        ff = ffm.FFCommittee(latency=1e-4, offset=off, name="com", dopbc=False, fflist=mem)
        bs, cell = replicas(cx, 2, 1, ff)
        ff.start()
        for b in bs:
            b.queue()
        dst = cx.mod("ipi.utils.depend").dstrip
        for i, b in enumerate(bs):
            r = [pes(cx, list(dst(b.atoms.q)), dst(cell.h), m.pesname) for m in mem]
            us = [x[0] - m.offs for x, m in zip(r, mem)]
            cx.eq(b.pot, (us[0] + us[1]) / 2 - off, "replica %d: mean energy minus the offset" % i)
            cx.eq(dst(b.f).copy(), (r[0][1] + r[1][1]) / 2, "replica %d: mean force" % i)
        cx.check(all(len(m.requests) == 0 for m in mem) and len(ff.requests) == 0, "all requests leave the queues")
        ff.stop()
        for m in mem:
            m.stop()
        finals(cx, S)


@harness(params=[dict(inner="direct"), dict(inner="direct-thread")], bounds="one or two rotations, with and without inversion, 1-2 replicas, 1 preemption", witnesses=1, limit=300, max_paths=6000)
def rotations_life(cx, inner):
    """a rotated evaluation answers when all its orientations have"""
    with world(cx, 1) as S:
        np = cx.np
        off = cx.real("offset", -1, 1)
        ffm = cx.mod("ipi.engine.forcefields")
        m = provider(cx, S, inner, 0.0, name="m")
        ff = ffm.FFRotations(latency=1e-4, offset=off, name="rot", dopbc=False, prng=cx.prng(), ffdirect=m, inversion=True)
        ff._rotations = [(np.identity(3), 1.0, 0)]
        bs, cell = replicas(cx, 1, 1, ff)
        ff.start()
        for b in bs:
            b.queue()
        dst = cx.mod("ipi.utils.depend").dstrip
        for i, b in enumerate(bs):
            q, h = dst(b.atoms.q), dst(cell.h)
            r = [pes(cx, list(q), h), pes(cx, list(q * -1), h * -1)]
            cx.eq(b.pot, (r[0][0] + r[1][0]) / 2 - off, "replica %d: mean energy minus the offset" % i)
            cx.eq(dst(b.f).copy(), (r[0][1] - r[1][1]) / 2, "replica %d: mean force" % i)
        cx.check(len(m.requests) == 0 and len(ff.requests) == 0, "all requests leave the queues")
        ff.stop()
        m.stop()
        finals(cx, S)


@harness(params=[dict()], bounds="base forcefield", witnesses=1)
def null_field(cx):
    """the base forcefield returns nothing but minus the offset"""
    with world(cx, 1) as S:
        off = cx.real("offset", -1, 1)
        ffm = cx.mod("ipi.engine.forcefields")
        thr = cx.choice("threaded", [True, False])
        ff = ffm.ForceField(latency=1e-4, offset=off, name="null", threaded=bool(thr))
        bs, cell = replicas(cx, 2, 2, ff)
        ff.start()
        dst = cx.mod("ipi.utils.depend").dstrip
        for b in bs:
            cx.eq(b.pot, 0.0 - off, "energy is minus the offset")
            cx.eq(dst(b.f).copy(), cx.np.zeros(6), "no force")
        ff.stop()
        finals(cx, S)


STRINGS = ["", " ", "\n", "text", "1.5", "null", "true", "[1, 2]", '"quoted"', '{"a": [1.0, 2.0]}', '{"a": ', "d\u00e9j\u00e0", "{}", "nan", "\u0000"]


@harness(params=[dict()], bounds="extra strings of every JSON kind, malformed JSON, blanks, text", witnesses=1, tokens=True)
def extra_strings(cx):
    """whatever the driver sends as extra string is exposed, and never fatal"""
    p = cx.mod("ipi.interfaces.utils").parse_extra
    s = STRINGS[int(str(cx.choice("which", list(range(len(STRINGS))))))]
    r = p(s)
    cx.check(isinstance(r, dict), "a dictionary is returned")
    if s.strip():
        cx.check(r.get("raw") == s, "the literal string is kept")
        try:
            j = json.loads(s)
        except Exception:
            j = None
        if isinstance(j, dict):
            for k in j:
                cx.check(r.get(k) == j[k], "JSON fields are exposed")
        else:
            cx.check(set(r) == {"raw"}, "nothing else is invented")
    else:
        cx.check(r == {}, "blank strings give nothing")


# ------------------------------------------------------------------------- MPI
class FakeMPI:
    """ranks are simulated threads; messages between two ranks do not overtake
    each other, collectives wait for all members"""

    INT, DOUBLE, BYTE = "INT", "DOUBLE", "BYTE"
    ANY_SOURCE, ANY_TAG = -1, -1

    def __init__(self, S, size):
        self.S, self.size = S, size
        self.rank_of = {S.main: 0}
        self.box = {r: [] for r in range(size)}
        self.world = Comm(self, list(range(size)))
        self.aborted = False

    def me(self):
        return self.rank_of.get(self.S.cur, 0)

    @property
    def COMM_WORLD(self):
        return self.world

    @staticmethod
    def Status():
        return Status()


class Status:
    def Get_source(self):
        return self.src

    def Get_tag(self):
        return self.tag

    def Get_count(self, dt):
        return self.n


class Comm:
    def __init__(self, m, ranks):
        self.m, self.ranks = m, ranks
        self.coll = {}
        self.seq = {r: 0 for r in ranks}

    def Get_rank(self):
        return self.ranks.index(self.m.me())

    def Get_size(self):
        return len(self.ranks)

    def Abort(self, *a):
        self.m.aborted = True

    def gatherall(self, what, value):
        """collective: returns {rank: value} once everybody is here"""
        r = self.m.me()
        k = self.seq[r]
        self.seq[r] += 1
        slot = self.coll.setdefault(k, {})
        slot[r] = (what, value)
        self.m.S.wait(lambda: len(slot) == len(self.ranks))
        assert all(v[0] == what for v in slot.values()), "mismatched collectives"
        return {q: v[1] for q, v in slot.items()}

    def Split(self, color=0, key=0):
        got = self.gatherall("split", (color, key))
        mine = sorted([(got[r][1], r) for r in self.ranks if got[r][0] == color])
        ranks = tuple(r for _, r in mine)
        reg = self.__dict__.setdefault("subs", {})
        k = (self.seq[self.m.me()], color, ranks)
        if k not in reg:
            reg[k] = Comm(self.m, list(ranks))
        return reg[k]

    def allgather(self, v):
        got = self.gatherall("allgather", v)
        return [got[r] for r in self.ranks]

    def Bcast(self, spec, root=0):
        buf = spec[0]
        r = self.m.me()
        isroot = self.ranks[root] == r
        got = self.gatherall("bcast", buf.copy() if isroot else None)
        if not isroot:
            src = got[self.ranks[root]]
            assert len(src) == len(buf), "broadcast sizes differ"
            buf[:] = src

    def _find(self, source, tag, me=None):
        # (conditions are evaluated by whoever runs, so `me` is passed in)
        for i, (s, t, dt, d) in enumerate(self.m.box[self.m.me() if me is None else me]):
            if source in (s, -1) and tag in (t, -1):
                return i
        return None

    def Send(self, spec, dest, tag=0):
        self.m.box[self.ranks[dest]].append((self.m.me(), tag, spec[1], spec[0].copy()))
        self.m.S.point()

    def _set(self, i, status):
        s, t, dt, d = self.m.box[self.m.me()][i]
        if status is not None:
            status.src, status.tag, status.n = s, t, len(d)

    def Probe(self, source=-1, tag=-1, status=None):
        me = self.m.me()
        self.m.S.wait(lambda: self._find(source, tag, me) is not None)
        self._set(self._find(source, tag), status)

    def Iprobe(self, source=-1, tag=-1, status=None):
        i = self._find(source, tag)
        if i is None:
            return False
        self._set(i, status)
        return True

    def Recv(self, spec, source=-1, tag=-1, status=None):
        me = self.m.me()
        self.m.S.wait(lambda: self._find(source, tag, me) is not None)
        i = self._find(source, tag)
        s, t, dt, d = self.m.box[self.m.me()].pop(i)
        self.bad = getattr(self, "bad", False) or dt != spec[1] or len(d) != len(spec[0])
        spec[0][:] = d


def mpi_world(cx, S, names, group=1, extra=None, delays=None, pesof=None):
    """driver ranks 1..n launched for the forcefields in names; returns (mpi, done)"""
    n = len(names)
    m = FakeMPI(S, n + 1)
    mod = types.ModuleType("mpi4py")
    mod.MPI = m
    mod.rc = types.SimpleNamespace(thread_level="")
    saved = sys.modules.get("mpi4py")
    sys.modules["mpi4py"] = mod

    def undo():
        if saved is None:
            sys.modules.pop("mpi4py", None)
        else:
            sys.modules["mpi4py"] = saved

    S.undo = undo
    d = cx.load_file(os.path.join(os.environ.get("VP_REPO", "/repo"), "drivers/py/driver.py"), "vp_driver")
    D = cx.mod("ipi.pes.dummy").Dummy_driver
    done = []
    pools = sorted(set(names))

    def rank(r):
        class Drv(D):
            def compute_structure(self, cell, pos):
                for k in range(delays[r - 1] if delays else 0):
                    S.rest()
                u, f, v = pes(cx, list(pos.reshape(-1)), cell, "pes" if pesof is None else pesof[names[r - 1]])
                S.evals.append((r, pos.reshape(-1).copy()))
                return u, f.reshape(-1, 3), v, extra if extra is not None else ""

        d.run_driver_mpi(driver=Drv(), group_size=group, mpi_name=names[r - 1], mpi_id=pools.index(names[r - 1]))
        done.append(r)

    S.evals = []
    for r in range(1, n + 1):
        t = S.spawn(rank, (r,), name="rank%d" % r)
        m.rank_of[t] = r
    im = cx.mod("ipi.interfaces.mpi")
    cx.patch(im, "_mpi_world_manager", None)
    return m, done


MX = ["", '{"a": 2}', "d\u00e9j\u00e0", "[1]"]


@harness(params=[dict(nd=nd, group=g, batch=b) for nd, g, b in ((1, 1, 1), (2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (3, 2, 1), (1, 1, 3))], bounds="1-3 driver ranks in groups of 1-2, batches of 1-3, 3 replicas, two rounds, any of two reply delays per rank, extras empty, JSON or multibyte text", witnesses=1, tokens=True, limit=300, max_paths=3000)
def mpi(cx, nd, group, batch):
    """the MPI forcefield answers every request with its own result and sends all
    the driver ranks home at the end"""
    with world(cx, 0, maxops=6000) as S:
        off = cx.real("offset", -1, 1)
        ex = MX[int(str(cx.choice("extra", list(range(len(MX))))))]
        delays = [int(str(cx.choice("delay%d" % k, [0, 3]))) for k in range(nd)]
        m, done = mpi_world(cx, S, [""] * nd, group=group, extra=ex, delays=delays)
        ffm = cx.mod("ipi.engine.forcefields")
        ff = ffm.FFMPI(latency=1e-4, offset=off, name="mpi", batch_size=batch)
        ff.offs, ff.pesname, ff.pbc = off, "pes", False
        ff.xtra = {"": {}, '{"a": 2}': {"a": 2, "raw": '{"a": 2}'}}.get(ex, {"raw": ex})
        bs, cell = replicas(cx, 3, 1, ff)
        ff.start()
        rounds = int(str(cx.choice("rounds", [1, 2])))
        for k in range(rounds):
            if k:
                for b in bs[1:]:
                    b.atoms.q = cx.reals("new%d" % bs.index(b), 3, -2, 2)
            for b in bs:
                b.queue()
            for i, b in enumerate(bs):
                own(cx, S, b, cell, ff, "round %d, replica %d" % (k, i))
        cx.check(len(ff.requests) == 0, "answered requests leave the queue")
        ff.stop()
        S.wait(lambda: len(done) == nd)
        cx.check(sorted(done) == list(range(1, nd + 1)), "every driver rank is told to exit")
        cx.check(not getattr(m.world, "bad", False), "messages have the announced type and size")
        finals(cx, S)


@harness(params=[dict()], bounds="two forcefields, 3 driver ranks in any assignment that serves both", witnesses=1, tokens=True, limit=300, max_paths=3000)
def mpi_names(cx):
    """with several MPI forcefields each is served by the ranks launched for it"""
    with world(cx, 0, maxops=6000) as S:
        names = [("A", "B")[int(str(cx.choice("name%d" % k, [0, 1])))] for k in range(3)]
        if len(set(names)) < 2:
            return
        m, done = mpi_world(cx, S, names, pesof={"A": "pes_a", "B": "pes_b"})
        ffm = cx.mod("ipi.engine.forcefields")
        ffs = []
        for k, n in enumerate(("A", "B")):
            ff = ffm.FFMPI(latency=1e-4, offset=cx.real("offset" + n, -1, 1), name=n)
            ff.offs, ff.pesname, ff.pbc, ff.xtra = ff.offset, "pes_" + n.lower(), False, {}
            ffs.append(ff)
        sets = [replicas(cx, 2, 1, ff, tag=ff.name) for ff in ffs]
        for ff in ffs:
            ff.start()
        for bs, cell in sets:
            for b in bs:
                b.queue()
        for (bs, cell), ff in zip(sets, ffs):
            for i, b in enumerate(bs):
                own(cx, S, b, cell, ff, "forcefield %s, replica %d" % (ff.name, i))
        for ff in ffs:
            ff.stop()
        S.wait(lambda: len(done) == 3)
        cx.check(sorted(done) == [1, 2, 3], "every driver rank is told to exit")
        finals(cx, S)
