"""Job dispatch: whatever the clients do, every force request is answered once,
with the result computed for it."""

from symx.base import harness
from props.common import *
from props import netsim
from props.netsim import World, Peer, Request, request, expect, EXTRAS

PRELOAD = ["ipi.utils.softexit", "ipi.interfaces.sockets", "ipi.pes"]
BOUNDS = "up to 3 clients and 4 requests in two rounds; at most one client fails per run, by closing, resetting or hanging at any point of the exchange; direct, threaded, batched and shared-memory transport."


class Watched(Request):
    """a request whose status changes are recorded"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.hist = [self["status"]]

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        if k == "status" and v != self.hist[-1]:
            self.hist.append(v)


LEGAL = {("Queued", "Running"), ("Running", "Queued"), ("Running", "Done")}


def run_pool(cx, mode, clients, nreqs, match="auto", batch=1, shm=False, timeout=5.0, step=0.25, maxpolls=80, ids=None, leave_early=False):
    """clients: list of (connect time, Peer keywords); nreqs: requests per round"""
    w = World(cx, maxops=3000)
    m, mods = netsim.install(cx, w)
    peers = []
    for k, (t, kw) in enumerate(clients):
        p = Peer(w, name="c%d" % k, batch=batch, shm=shm, **kw)
        peers.append(p)
        w.connecting.append((w.now + t, p))
    se = cx.mod("ipi.utils.softexit").softexit
    triggered = []
    cx.patch(se, "trigger", lambda *a, **k: triggered.append(1))
    itf = m.InterfaceSocket(address="x", mode="shm" if shm else "unix", timeout=timeout, match_mode=match, consolidate_messages=mode != "thread", batch_size=batch, sockets_prefix="/nowhere/ipi_")
    itf.requests = []
    offset = cx.real("offset", -2, 2)
    itf.offset = offset
    allreq = []
    try:
        itf.open()
        k = 0
        for n in nreqs:
            new = []
            for i in range(n):
                r = request(cx, k, 1)
                r = Watched(r)
                r["id"] = int(str(ids[i])) if ids else i
                k += 1
                new.append(r)
            allreq += new
            itf.requests += new
            polls = 0
            while any(r["status"] != "Done" for r in new) and polls < maxpolls and not w.stuck:
                try:
                    itf.poll()
                except netsim.Stuck:
                    break
                polls += 1
                live = [id(j[1]) for j in itf.jobs]
                cx.check(len(set(live)) == len(live), "a client works on one job at a time")
                run = [id(r) for j in itf.jobs for r in (j[0] if isinstance(j[0], list) else [j[0]])]
                cx.check(len(set(run)) == len(run), "a request is assigned to one client at a time")
                try:
                    w.run_workers()
                    w.sleep(step)
                except netsim.Stuck:
                    break
            for r in new:
                if r in itf.requests and r["status"] == "Done":
                    itf.requests.remove(r)
        cx.check(not w.stuck, "the interface does not hang")
        for i, r in enumerate(allreq):
            expect(cx, r, "request %d" % i, EXTRAS[""], offset)
            cx.check(all((a, b) in LEGAL for a, b in zip(r.hist, r.hist[1:])), "request %d: status moves queued-running-done, done is final" % i)
            cx.check(r.n_done == 1, "request %d: completion is signalled once" % i)
        for p in peers:
            cx.check(not p.bad, "clients are sent nothing unexpected")
        if w.stuck:
            return peers, allreq, itf
        itf.pool_update()
        for c in itf.clients:
            cx.check(bool(c.status & m.Status.Up), "clients found to have left are dropped")
        gone = [p for p in peers if p.down]
        itf.close()
        for p in peers:
            if not p.closed and not p.w.connecting and not p.stalled and p not in gone:
                cx.check(p.got_exit, "clients are told to exit")
    finally:
        w.close()
    return peers, allreq, itf


MODES = [dict(mode="direct"), dict(mode="thread"), dict(mode="direct", batch=2), dict(mode="direct", shm=True)]


@harness(params=[dict(match=mm, **c) for c in MODES for mm in ("auto", "any", "lock")], bounds="1-3 clients, 1-3 requests, two rounds, any latency order, late clients", witnesses=1, tokens=True, limit=240, max_paths=2000)
def no_faults(cx, match, **c):
    """each request is evaluated exactly once and answered with its own result"""
    nc = cx.choice("clients", [1, 2, 3])
    n = cx.choice("requests", [1, 2, 3])
    if match == "lock" and nc < n:
        return
    lat = [cx.choice("latency%d" % k, [0.0, 0.6]) for k in range(nc)]
    late = cx.choice("late", [0.0, 1.0])
    cl = [(late if k == 1 else 0.0, dict(latency=lat[k])) for k in range(nc)]
    peers, reqs, itf = run_pool(cx, nreqs=[n, n], match=match, clients=cl, **c)
    if c.get("batch", 1) == 1:
        cx.check(sum(len(p.jobs) for p in peers) == len(reqs), "each request is evaluated once")


def same(a, b):
    return a is b or repr(a) == repr(b)


KINDS = ("close", "reset", "hang", "part")


@harness(params=[dict(kind=k, when=w, **c) for c in MODES for k in KINDS for w in ("ready", "late")], bounds="2 clients, 2 requests, two rounds; the first client fails at any of its operations, possibly within a message", witnesses=1, tokens=True, limit=240, max_paths=2000)
def one_fails(cx, kind, when, **c):
    """requests of a client that dies or hangs go to another one"""
    if kind == "hang":
        # a client that stops answering is given up after the timeout
        kw = dict(hang=cx.choice("job", [0, 1]))
    elif kind == "part":
        kw = dict(fault=(cx.conc(cx.int("op", 0, 20)), "close", cx.choice("bytes", [3, 12, 30, 130])))
    else:
        kw = dict(fault=(cx.conc(cx.int("op", 0, 26)), kind))
    kw["latency"] = cx.choice("latency", [0.0, 0.6])
    kw["reinit"] = cx.bool("reinit")
    t2 = 0.0 if when == "ready" else 2.0
    lat2 = cx.choice("latency2", [0.0, 0.6]) if kind != "part" else 0.6
    run_pool(cx, nreqs=[2, 2], clients=[(0.0, kw), (t2, dict(latency=lat2))], **c)


@harness(
    params=[dict(kinds=["close", "reset"], **c) for c in MODES[:2]],
    thorough=[dict(kinds=[a, b], **c) for c in MODES for a in ("close", "reset") for b in ("close", "hang")],
    bounds="3 clients, 3 requests; two of the clients fail",
    witnesses=1,
    tokens=True,
    limit=400,
    max_paths=4000,
)
def two_fail(cx, kinds, **c):
    """all requests are answered as long as one client survives"""
    cl = []
    for k, kind in enumerate(kinds):
        if kind == "hang":
            kw = dict(hang=cx.choice("job%d" % k, [0, 1]))
        else:
            kw = dict(fault=(cx.conc(cx.int("op%d" % k, 0, 13)), kind))
        kw["latency"] = 0.6 * k
        cl.append((0.0, kw))
    cl.append((cx.choice("when", [0.0, 1.5]), {}))
    run_pool(cx, nreqs=[3], clients=cl, **c)


@harness(params=[dict(match=mm, **c) for c in MODES for mm in ("lock", "auto")], bounds="request identifiers of any size; in lock mode a replacement for a lost client", witnesses=1, tokens=True, limit=120)
def locked(cx, match, **c):
    """the association of replicas and clients never leaves a request behind"""
    base = cx.choice("base", [0, 255, 256, 1000, 70000])
    lost = cx.choice("lost", [None, 8, 14])
    cl = [(0.0, dict(fault=(lost, "close") if lost else None)), (0.0, {})]
    if lost:
        cl.append((1.0, {}))
    peers, reqs, itf = run_pool(cx, nreqs=[2, 2, 2], clients=cl, match=match, ids=[base, base + 1], **c)
    if match == "lock" and not lost and c.get("batch", 1) == 1:
        for k in range(2):
            first = [p for p in peers if any(same(j[2][0], reqs[k]["pos"][0]) for j in p.jobs)]
            later = [p for p in peers if any(same(j[2][0], reqs[k + 2]["pos"][0]) for j in p.jobs)]
            cx.check(first == later, "in lock mode a replica stays with its client")
