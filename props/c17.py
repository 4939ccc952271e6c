"""Driver protocol: every message arrives whole, in order and unaltered, however
the byte stream is cut up in transit."""

from symx.base import harness
from props.common import *
from props import netsim
from props.netsim import World, Peer, hdr, Request, request, expect, EXTRAS, EXLIST

PRELOAD = ["ipi.utils.softexit", "ipi.interfaces.sockets", "ipi.pes"]
BOUNDS = "one connection, 1-2 atoms, up to two consecutive exchanges, batches of up to 2; any single cut of the byte stream, or one byte at a time, with or without read timeouts in between; any numbers in the payload."


def drive(cx, mode, d, reqs):
    """one exchange through the public entry points of a connection"""
    if mode == "thread":
        for r in reqs:
            d.dispatch(r)
    elif len(reqs) > 1 or mode == "batch":
        cx.check(d.dispatch_send_batch(reqs), "batch is sent")
        cx.check(d.dispatch_recv_batch(reqs), "batch is received")
    else:
        cx.check(d.dispatch_send(reqs[0]), "positions are sent")
        cx.check(d.dispatch_recv(reqs[0]), "forces are received")


CASES = []
for mode in ("thread", "bulk", "batch"):
    for shm in (False, True):
        CASES.append(dict(mode=mode, shm=shm))


def exchange(cx, mode, shm, cut, natoms, active, extra, rounds, hiccup=False, byte=False, reinit=False, nbatch=2, nreal=None, pars=" a : 1 , "):
    w = World(cx, maxops=4000)
    m, mods = netsim.install(cx, w)
    batch = nbatch if mode == "batch" else 1
    p = Peer(w, batch=batch, shm=shm, extra=extra, cuts=() if cut is None else (cut,), byte=byte, hiccup=hiccup, reinit=reinit)
    w.connecting.append((w.now, p))
    srv = mods[0].socket(1, 1)
    c, addr = srv.accept()
    c.settimeout(0.1)
    try:
        d = (m.SHMDriver if shm else m.Driver)(c)
        d.batch_size = batch
        d.get_status()
        offset = cx.real("offset", -2, 2)
        done = []
        for k in range(rounds):
            n = (nreal or batch) if mode == "batch" else 1
            reqs = [request(cx, 10 * k + i, natoms, active, pars) for i in range(n)]
            for r in reqs:
                r["offset"] = offset
                r["status"] = "Running"
            drive(cx, mode, d, reqs)
            done.append(reqs)
        cx.check(not w.stuck, "the exchange ends")
        cx.check(not p.bad, "the client is sent nothing unexpected")
        j = 0
        for reqs in done:
            for i, r in enumerate(reqs):
                ex = extra if isinstance(extra, str) else extra[i % len(extra)]
                expect(cx, r, "request %d" % r["id"], EXTRAS[ex], offset)
                cx.check(j < len(p.jobs), "the client received the positions")
                h, ih, pos = p.jobs[j]
                cx.eq(h, r["cell"][0], "cell as sent")
                cx.eq(ih, r["cell"][1], "inverse cell as sent")
                cx.eq(pos, cx.np.array([r["pos"][int(a)] for a in r["active"]]), "active positions as sent")
                j += 1
            if mode == "batch":
                for i in range(len(reqs), batch):
                    h, ih, pos = p.jobs[j]
                    j += 1
        cx.check(j == len(p.jobs), "each structure is evaluated once")
        cx.check(len(p.inits) == (rounds if reinit else 1), "initialised when asked for")
        rid, ps = p.inits[0]
        cx.check(rid == done[0][0]["id"], "initialisation carries the request id")
        cx.check(ps.startswith(pars), "initialisation carries the parameters")
        if batch > 1:
            toks = [t.split(":") for t in ps.split(",")]
            cx.check(any(len(t) == 2 and t[0].strip() == "batch_size" and t[1].strip() == str(batch) for t in toks), "batch size is announced")
        cx.check(sum(len(b) for t, b in p.out) == 0, "nothing is left unread")
        cx.check(d.status & m.Status.Up and d.status & (m.Status.NeedsInit if reinit else m.Status.Ready), "the client is free again")
        names = list(w.segments)
        try:
            d.shutdown()
        except OSError:
            pass
        cx.check(p.got_exit, "the client is told to exit")
        if shm:
            cx.check(not w.segments, "shared memory is released at the end")
    finally:
        w.close()
    return p


@harness(params=[dict(mode=c["mode"], shm=c["shm"], ex=e) for c in CASES for e in (1, 3)], bounds="any single cut of the client's byte stream", witnesses=1, tokens=True, limit=240, max_paths=2000)
def server_cut(cx, mode, shm, ex):
    """the server reassembles replies wherever the stream is cut"""
    n = {True: 110, False: 230}[shm] + (170 if mode == "batch" and not shm else 0)
    cut = cx.conc(cx.int("cut", 0, n))
    exchange(cx, mode, shm, cut, 1, None, EXLIST[ex], 1)


@harness(params=[dict(mode=c["mode"], shm=c["shm"], how=h) for c in CASES for h in ("byte", "late", "bytelate")], bounds="byte by byte, with and without read timeouts", witnesses=1, tokens=True, limit=120)
def server_slow(cx, mode, shm, how):
    """the server reassembles replies that trickle in"""
    extra = cx.choice("extra", EXLIST)
    if mode == "batch":
        extra = [extra, "text"]
    rounds = cx.choice("rounds", [1, 2])
    exchange(cx, mode, shm, None, 1, None, extra, rounds, hiccup="late" in how, byte="byte" in how)


@harness(params=[dict(mode=c["mode"], shm=c["shm"]) for c in CASES], bounds="1-2 atoms, part of the atoms active, clients that ask for initialisation every time, partly filled batches", witnesses=1, tokens=True, limit=120)
def server_payload(cx, mode, shm):
    """forces reach the right atoms and requests"""
    natoms, active = cx.choice("active", [(1, None), (2, None), (2, [1]), (2, [0]), (3, [0, 2])])
    reinit = cx.bool("reinit")
    nb, nr = cx.choice("batch", [(2, 2), (2, 1), (3, 2)]) if mode == "batch" else (1, 1)
    pars = cx.choice("pars", [" a : 1 , ", " ", " n : \u00e9t\u00e9 , "])
    exchange(cx, mode, shm, None, natoms, active, ["", "text", '{"a": 2}'][: max(1, nb)], 2, reinit=reinit, nbatch=nb, nreal=nr, pars=pars)


def client(cx, shm, batch, fused, cut, natoms, extra, end="exit", byte=False, sendmax=None, reset=False):
    import os

    w = World(cx, maxops=6000)
    m, mods = netsim.install(cx, w)
    w.sendmax = sendmax
    d = cx.load_file(os.path.join(os.environ.get("VP_REPO", "/repo"), "drivers/py/driver.py"), "vp_driver")
    d.socket = mods[0]
    d.shared_memory = mods[3]

    class RT:
        @staticmethod
        def unregister(*a):
            pass

    d.resource_tracker = RT
    jobs = []
    for k in range(2 * batch):
        r = request(cx, k, natoms)
        jobs.append((r["cell"][0], r["cell"][1], r["pos"]))
    s = netsim.Server(w, jobs, fused=fused, end=end, shm=shm, batch=batch, cuts=() if cut is None else (cut,), byte=byte, pars=" a : 1 , ")
    calls = []

    def one(cell, pos):
        calls.append((cell, pos))
        u, f, v = netsim.pes(cx, list(pos.reshape(-1)), cell)
        return u, f.reshape(pos.shape), v, extra

    def driver(cell, pos):
        if isinstance(cell, list):
            return [one(c, p) for c, p in zip(cell, pos)]
        return one(cell, pos)

    ended = "returned"
    try:
        d.run_driver(unix=True, address="x", driver=driver, shm=shm)
    except netsim.Stuck:
        ended = "never"
    except Exception as e:
        if end == "exit" and not w.stuck:
            raise
        ended = "error"
    cx.check(not w.stuck and ended != "never", "the client ends when the server does")
    cx.check(not s.bad, "the client follows the protocol")
    cx.check(len(s.results) == len(jobs), "all results arrive")
    for (h, ih, p), (u, f, v, e) in zip(jobs, s.results):
        eu, ef, ev = netsim.pes(cx, list(p), h)
        cx.eq(u, eu, "energy received by the server")
        cx.eq(f, ef, "forces received by the server")
        cx.eq(v, ev.reshape(-1), "virial received by the server")
        cx.check(e == extra.encode(), "extra string received by the server")
    cx.check(len(calls) == len(jobs), "each structure is evaluated once")


CL = [dict(shm=False, batch=1), dict(shm=False, batch=2), dict(shm=True, batch=1), dict(shm=True, batch=2)]


@harness(params=[dict(fused=f, **c) for c in CL for f in (False, True)], bounds="any single cut of the server's byte stream in the first exchange", witnesses=1, tokens=True, limit=240, max_paths=2000)
def client_cut(cx, shm, batch, fused):
    """the Python client reassembles requests wherever the stream is cut"""
    n = 250 if not shm else 190
    if batch > 1 and not shm:
        n += 180
    cut = cx.conc(cx.int("cut", 0, n))
    client(cx, shm, batch, fused, cut, 1, "text")


@harness(params=[dict(fused=f, **c) for c in CL for f in (False, True)], bounds="byte by byte, partial writes, 1-2 atoms, several extra strings, all ways a server can go away", witnesses=1, tokens=True, limit=120)
def client_slow(cx, shm, batch, fused):
    """the Python client answers with what its potential computed, and ends with the server"""
    natoms = cx.choice("natoms", [1, 2])
    extra = cx.choice("extra", ["", "text", "d\u00e9j\u00e0 vu"])
    how = cx.choice("how", [("exit", False, None), ("exit", True, None), ("exit", False, 5), ("close", False, None), ("part", False, None), ("reset", False, None)])
    client(cx, shm, batch, fused, None, natoms, extra, end=how[0], byte=how[1], sendmax=how[2])
