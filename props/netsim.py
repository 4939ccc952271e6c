"""A network of scripted peers for the socket code: stand-ins for socket, select,
time, threads and shared memory with a virtual clock. Every peer follows the
documented protocol; when bytes become available, where the stream is cut, and
when a peer dies or stalls is decided by the harness (symbolic choices)."""

import signal
import sys
import threading as _th
import types

HDR = 12
FOREVER = 1e18


class Stuck(BaseException):
    """the code under test does not stop by itself"""


class Killed(BaseException):
    pass


def hdr(s):
    return s.upper().ljust(HDR).encode()


class World:
    def __init__(self, cx, maxops=600):
        self.cx = cx
        self.now = 1000.0
        self.fds = {}
        self.nfd = 100
        self.listeners = []
        self.connecting = []  # (time, peer)
        self.ops = 0
        self.maxops = maxops
        self.stuck = False
        self.workers = []
        self.current = None  # running worker
        self.dead = False
        self.segments = {}
        try:
            # code that spins without ever touching the network
            signal.signal(signal.SIGPROF, self._spin)
            signal.setitimer(signal.ITIMER_PROF, 20.0)
        except ValueError:
            pass

    def _spin(self, *a):
        self.stuck = True
        raise Stuck()

    # ------------------------------------------------------------ clock
    def time(self):
        return self.now

    def op(self):
        if self.dead:
            raise Killed()
        self.ops += 1
        if self.ops > self.maxops:
            self.stuck = True
            raise Stuck()

    def next_event(self):
        t = [p.next_time(self.now) for p in self.fds.values() if p is not None]
        t += [tc for tc, p in self.connecting]
        t = [x for x in t if x > self.now]
        return min(t) if t else FOREVER

    def wait(self, cond, dur):
        """blocks until cond() or for dur seconds; True if cond()"""
        if cond():
            return True
        deadline = self.now + dur
        if self.current is not None:
            return self.current.block(cond, deadline)
        while not cond():
            self.op()
            t = min([self.next_event(), deadline] + [w.wake_time() for w in self.workers if not w.done])
            if t >= FOREVER:
                self.stuck = True
                raise Stuck()
            self.now = max(self.now, t)
            self.run_workers()
            if cond():
                return True
            if self.now >= deadline:
                return False
        return True

    def sleep(self, dt):
        self.wait(lambda: False, dt)

    # ---------------------------------------------------------- threads
    def run_workers(self):
        again = True
        while again:
            again = False
            for w in list(self.workers):
                if not w.done and w.runnable():
                    w.step()
                    again = True

    def close(self):
        self.dead = True
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
        except ValueError:
            pass
        for w in self.workers:
            n = 0
            while not w.done and n < 50:
                w.step()
                n += 1


class Worker:
    """a simulated thread: runs until it blocks, then hands control back"""

    def __init__(self, world, fn, args, kw):
        self.w = world
        self.done = False
        self.exc = None
        self.val = None
        self.cond = lambda: True
        self.deadline = world.now
        self.go = _th.Semaphore(0)
        self.back = _th.Semaphore(0)
        self.t = _th.Thread(target=self._run, args=(fn, args, kw), daemon=True)
        self.t.start()
        world.workers.append(self)

    def _run(self, fn, args, kw):
        self.go.acquire()
        try:
            self.val = fn(*args, **kw)
        except BaseException as e:
            self.exc = e
        self.done = True
        self.back.release()

    def runnable(self):
        return self.w.dead or self.w.now >= self.deadline or self.cond()

    def wake_time(self):
        return self.deadline

    def step(self):
        old = self.w.current
        self.w.current = self
        self.go.release()
        self.back.acquire()
        self.w.current = old
        if self.exc is not None and not isinstance(self.exc, (Exception, Stuck, Killed)):
            raise self.exc

    def block(self, cond, deadline):
        self.cond, self.deadline = cond, deadline
        self.back.release()
        self.go.acquire()
        if self.w.dead:
            raise Killed()
        return cond()

    # future interface
    def result(self, timeout=None):
        if not self.w.wait(lambda: self.done, FOREVER if timeout is None else timeout):
            raise TimeoutError()
        if self.exc is not None:
            raise self.exc
        return self.val

    def exception(self, timeout=None):
        self.w.wait(lambda: self.done, FOREVER if timeout is None else timeout)
        return self.exc

    def cancel(self):
        return False

    def running(self):
        return not self.done


# ------------------------------------------------------------------ sockets
class Peer:
    """client side of one connection, following the protocol of the documentation"""

    def __init__(self, world, name="c", batch=1, shm=False, latency=0.0, needinit=True, extra="", reinit=False, cuts=(), byte=False, hiccup=False, fault=None, hang=None):
        self.w, self.name = world, name
        self.cx = world.cx
        self.batch, self.shm = batch, shm
        self.latency = latency
        self.init = not needinit
        self.reinit = reinit
        self.data = None
        self.extra = extra
        self.inbuf = b""
        self.out = []  # [available from, bytes]
        self.outpos = 0
        self.cuts = set(cuts)
        self.byte = byte
        self.hiccup = hiccup
        self._hic = False
        self.nhic = 0
        self.fault = fault  # (operation index, kind)
        self.nops = 0
        self.closed = None  # None | "close" | "reset"
        self.stalled = False
        self.down = False  # server shut the connection down
        self.inits, self.jobs, self.got_exit = [], [], False
        self.bad = []
        self.views = None
        self.trace = []
        self.sent_forces = 0
        self.hang, self.nwork = hang, 0

    # --- faults
    def tick(self):
        k = self.nops
        self.nops += 1
        if self.fault and k == self.fault[0]:
            kind = self.fault[1]
            if kind == "stall":
                self.stalled = True
                self.out = []
            elif kind == "close":
                # leaves after everything it already sent; a real peer may also
                # leave part of a message
                self.closed = "close"
                b = b"".join(x for t, x in self.out)
                self.out = [[self.w.now, b[: self.fault[2]]]] if len(self.fault) > 2 and b else []
            else:
                self.closed = "reset"
                self.out = []

    def push(self, b, delay=0.0):
        if self.stalled or self.closed:
            return
        t = self.w.now + delay
        if self.out:
            t = max(t, self.out[-1][0])
        self.out.append([t, b])

    def next_time(self, now):
        if self.closed:
            return FOREVER
        return self.out[0][0] if self.out else FOREVER

    def readable(self):
        return self.closed is not None or self.down or (bool(self.out) and self.out[0][0] <= self.w.now)

    def take(self, n):
        """bytes a recv of up to n bytes returns now"""
        if self.closed == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        b = b""
        while self.out and self.out[0][0] <= self.w.now and len(b) < n:
            t, x = self.out[0]
            k = min(n - len(b), len(x))
            if self.byte:
                k = 1
            else:
                for c in sorted(self.cuts):
                    if self.outpos < c < self.outpos + k:
                        k = c - self.outpos
                        break
            b += x[:k]
            self.outpos += k
            if k == len(x):
                self.out.pop(0)
            else:
                self.out[0][1] = x[k:]
            if self.byte or self.outpos in self.cuts:
                break
        return b

    # --- protocol
    def f(self, b):
        np = self.cx.np
        return np.frombuffer(b, dtype=np.float64)

    def feed(self, data):
        self.inbuf += data
        while self.step():
            pass

    def step(self):
        b = self.inbuf
        i4 = lambda x: int.from_bytes(x, "little", signed=True)
        if len(b) < HDR:
            return False
        h = b[:HDR]
        if h == hdr("status"):
            used = HDR
            self.trace.append("status")
            if not self.init:
                self.push(hdr("needinit"))
            elif self.data is not None:
                # busy with the calculation until then
                self.push(hdr("havedata"), max(0.0, self.ready_at - self.w.now))
            else:
                self.push(hdr("ready"))
        elif h == hdr("init"):
            if len(b) < HDR + 8:
                return False
            n = i4(b[HDR + 4 : HDR + 8])
            if len(b) < HDR + 8 + n:
                return False
            self.inits.append((i4(b[HDR : HDR + 4]), b[HDR + 8 : HDR + 8 + n].decode()))
            self.init = True
            used = HDR + 8 + n
        elif h == hdr("posdata"):
            o = HDR
            if self.shm or self.batch > 1:
                if len(b) < o + 4:
                    return False
                nat = i4(b[o : o + 4])
                o += 4
                if self.shm:
                    if self.views is None:
                        names = []
                        for k in range(6):
                            if len(b) < o + 4:
                                return False
                            n = i4(b[o : o + 4])
                            if len(b) < o + 4 + n:
                                return False
                            names.append(b[o + 4 : o + 4 + n].decode())
                            o += 4 + n
                        self.attach(names, nat)
                    v = self.views
                    self.data = [(v["h"][i].copy(), v["ih"][i].copy(), v["pos"][i].copy()) for i in range(self.batch)]
                else:
                    need = self.batch * (18 + 3 * nat) * 8
                    if len(b) < o + need:
                        return False
                    cells = self.f(b[o : o + self.batch * 144])
                    o += self.batch * 144
                    pos = self.f(b[o : o + self.batch * 24 * nat])
                    o += self.batch * 24 * nat
                    self.data = [(cells[18 * i : 18 * i + 9].reshape(3, 3), cells[18 * i + 9 : 18 * i + 18].reshape(3, 3), pos[3 * nat * i : 3 * nat * (i + 1)]) for i in range(self.batch)]
            else:
                if len(b) < o + 148:
                    return False
                c = self.f(b[o : o + 144])
                nat = i4(b[o + 144 : o + 148])
                o += 148
                if len(b) < o + 24 * nat:
                    return False
                self.data = [(c[:9].reshape(3, 3), c[9:].reshape(3, 3), self.f(b[o : o + 24 * nat]))]
                o += 24 * nat
            used = o
            self.nat = nat
            self.jobs += self.data
            if not self.init:
                self.bad.append("positions before initialisation")
            self.nwork += 1
            self.ready_at = self.w.now + (FOREVER if self.hang is not None and self.nwork > self.hang else self.latency)
        elif h == hdr("getforce"):
            used = HDR
            if self.data is None:
                self.bad.append("forces asked without positions")
                self.inbuf = b[used:]
                return True
            self.answer()
        elif h == hdr("exit"):
            used = HDR
            self.got_exit = True
        else:
            self.bad.append("unknown message %r" % h)
            self.inbuf = b""
            return False
        self.inbuf = b[used:]
        return True

    def extra_of(self, i):
        return self.extra if isinstance(self.extra, str) else self.extra[i % len(self.extra)]

    def answer(self):
        cx, np = self.cx, self.cx.np
        i4 = lambda n: int(n).to_bytes(4, "little", signed=True)
        res = [pes(cx, p, h) for h, ih, p in self.data]
        ex = [self.extra_of(i).encode() for i in range(len(res))]
        one = lambda x: np.array([x], np.float64).tobytes()
        msg = hdr("forceready")
        if self.shm:
            for i, (u, f, v) in enumerate(res):
                self.views["pot"][i] = u
                self.views["force"][i] = f
                self.views["vir"][i] = v
            msg += b"".join(i4(len(e)) + e for e in ex)
        elif self.batch > 1:
            msg += b"".join(one(u) for u, f, v in res) + i4(self.nat)
            msg += b"".join(f.tobytes() for u, f, v in res) + b"".join(v.tobytes() for u, f, v in res)
            msg += b"".join(i4(len(e)) + e for e in ex)
        else:
            u, f, v = res[0]
            msg += one(u) + i4(self.nat) + f.tobytes() + v.tobytes() + i4(len(ex[0])) + ex[0]
        self.push(msg, max(0.0, self.ready_at - self.w.now))
        self.data = None
        self.sent_forces += 1
        if self.reinit:
            self.init = False

    def attach(self, names, nat):
        np, n = self.cx.np, self.batch
        shp = dict(pos=(n, 3 * nat), h=(n, 3, 3), ih=(n, 3, 3), pot=(n,), force=(n, 3 * nat), vir=(n, 3, 3))
        self.views = {}
        for k, nm in zip(("pos", "h", "ih", "pot", "force", "vir"), names):
            if nm not in self.w.segments:
                self.bad.append("segment %s does not exist" % k)
                self.views[k] = np.zeros(shp[k], np.float64)
                continue
            s = self.w.segments[nm]
            want = 8
            for x in shp[k]:
                want *= x
            if s.size < want:
                self.bad.append("segment %s is too small" % k)
                self.views[k] = np.zeros(shp[k], np.float64)
                continue
            self.views[k] = s.peer_view(shp[k])


class Server(Peer):
    """server side of one connection, following the documented protocol"""

    def __init__(self, world, jobs, fused=False, end="exit", pars=" ", **k):
        super().__init__(world, name="server", **k)
        self.todo = list(jobs)
        self.fused, self.end, self.pars = fused, end, pars
        self.results = []
        self.named = False
        self.phase = "status"
        self.push(hdr("status"))
        world.server_peer = self

    def posdata(self, group):
        i4 = lambda n: int(n).to_bytes(4, "little", signed=True)
        nat = len(group[0][2]) // 3
        self.nat = nat
        if self.shm:
            b = hdr("posdata") + i4(nat)
            if not self.named:
                self.named = True
                n = self.batch
                shp = dict(pos=(n, 3 * nat), h=(n, 3, 3), ih=(n, 3, 3), pot=(n,), force=(n, 3 * nat), vir=(n, 3, 3))
                self.views = {}
                for k, sh in shp.items():
                    sz = 8
                    for x in sh:
                        sz *= x
                    s = _MODS[3].SharedMemory(name="seg_" + k, create=True, size=sz)
                    self.views[k] = s.peer_view(sh)
                    b += i4(len("seg_" + k)) + ("seg_" + k).encode()
            for i, (h, ih, p) in enumerate(group):
                self.views["h"][i], self.views["ih"][i], self.views["pos"][i] = h, ih, p
            return b
        if self.batch > 1:
            b = hdr("posdata") + i4(nat)
            b += b"".join(h.tobytes() + ih.tobytes() for h, ih, p in group) + b"".join(p.tobytes() for h, ih, p in group)
            return b
        h, ih, p = group[0]
        return hdr("posdata") + h.tobytes() + ih.tobytes() + i4(nat) + p.tobytes()

    def nextjob(self):
        if not self.todo:
            self.phase = "end"
            if self.end == "exit":
                self.push(hdr("exit"))
            elif self.end == "part":
                self.push(hdr("posdata")[:7])
                self.closed_after = True
                self.closed = "close"
            else:
                self.closed = self.end
            return
        g = self.todo[: self.batch]
        self.todo = self.todo[self.batch :]
        b = self.posdata(g)
        if self.fused:
            self.push(b + hdr("getforce"))
            self.phase = "forces"
        else:
            self.push(b)
            self.push(hdr("status"))
            self.phase = "have"

    def step(self):
        b = self.inbuf
        i4 = lambda x: int.from_bytes(x, "little", signed=True)
        if len(b) < HDR or self.phase == "end":
            return False
        h = b[:HDR]
        if self.phase == "status":
            self.inbuf = b[HDR:]
            if h == hdr("needinit"):
                p = self.pars
                if self.batch > 1:
                    p += "%s batch_size:%d" % ("," if p.strip() else "", self.batch)
                e = p.encode()
                self.push(hdr("init") + (7).to_bytes(4, "little") + len(e).to_bytes(4, "little") + e + hdr("status"))
            elif h == hdr("ready"):
                self.nextjob()
            else:
                self.bad.append("reply to status %r" % h)
            return True
        if self.phase == "have":
            self.inbuf = b[HDR:]
            if h == hdr("havedata"):
                self.push(hdr("getforce"))
                self.phase = "forces"
            else:
                self.bad.append("reply to status %r" % h)
            return True
        if h != hdr("forceready"):
            self.bad.append("reply to getforce %r" % h)
            return False
        o, nat, n = HDR, self.nat, self.batch
        if not self.shm:
            size = 8 * n + 4 + (24 * nat + 72) * n
            if len(b) < o + size:
                return False
            pot = self.f(b[o : o + 8 * n])
            o += 8 * n
            if i4(b[o : o + 4]) != nat:
                self.bad.append("number of atoms")
                return False
            o += 4
            force = self.f(b[o : o + 24 * nat * n]).reshape(n, 3 * nat)
            o += 24 * nat * n
            vir = self.f(b[o : o + 72 * n]).reshape(n, 9)
            o += 72 * n
        ex = []
        for i in range(n):
            if len(b) < o + 4:
                return False
            k = i4(b[o : o + 4])
            if len(b) < o + 4 + k:
                return False
            ex.append(b[o + 4 : o + 4 + k])
            o += 4 + k
        if self.shm:
            pot = self.views["pot"].copy()
            force = self.views["force"].copy().reshape(n, 3 * nat)
            vir = self.views["vir"].copy().reshape(n, 9)
        for i in range(n):
            self.results.append((pot[i], force[i], vir[i], ex[i]))
        self.inbuf = b[o:]
        self.phase = "status"
        self.push(hdr("status"))
        return True


def pes(cx, pos, h):
    """what any client computes: an arbitrary function of positions and cell"""
    n = len(pos)
    v = cx.ufunc("pes%d" % n, list(pos) + list(h.reshape(-1)), 1 + n + 9, -2.0, 2.0)
    return v[0], v[1 : n + 1].copy(), v[n + 1 :].reshape(3, 3).copy()


class Request(dict):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.n_done = 0
        self.at_done = None
        outer = self

        class E:
            def set(s):
                outer.n_done += 1
                if outer.at_done is None:
                    outer.at_done = list(outer["result"]) if outer["result"] else None

            def is_set(s):
                return outer.n_done > 0

            def wait(s, t=None):
                return outer.n_done > 0

        self._event_done = E()

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


def request(cx, k, natoms, active=None, pars=" a : 1 , "):
    np = cx.np
    h = np.zeros((3, 3), float)
    ih = np.zeros((3, 3), float)
    for i in range(3):
        for j in range(i, 3):
            h[i, j] = cx.real("h%d_%d%d" % (k, i, j), -2, 2)
            ih[i, j] = cx.real("ih%d_%d%d" % (k, i, j), -2, 2)
    act = list(range(natoms)) if active is None else active
    act = np.array([3 * a + c for a in act for c in range(3)])
    return Request(id=k, pos=cx.reals("pos%d" % k, 3 * natoms), active=act, cell=(h, ih), pars=pars, result=None, status="Queued", start=-1, t_queued=0.0, t_dispatched=0, t_finished=0)


def expect(cx, r, label, extra, offset):
    """the request carries exactly what the client computed for it"""
    np = cx.np
    act = [int(a) for a in r["active"]]
    u, f, v = pes(cx, [r["pos"][a] for a in act], r["cell"][0])
    cx.check(r["status"] == "Done" and r.n_done >= 1, label + ": completed")
    if r["status"] != "Done":
        return
    res = r["result"]
    cx.check(len(res) == 4, label + ": result has four parts")
    cx.eq(res[0], u - offset, label + ": energy minus offset")
    full = np.zeros(len(r["pos"]), float)
    for i, a in enumerate(act):
        full[a] = f[i]
    cx.eq(np.array(res[1]).reshape(-1), full, label + ": forces")
    cx.eq(np.array(res[2]).reshape(-1), v.reshape(-1), label + ": virial")
    cx.check(dict(res[3]) == extra, label + ": extras")
    if r.at_done is not None:
        cx.eq(r.at_done[0], res[0], label + ": nothing changes after completion is signalled")


EXTRAS = {"": {}, "text": {"raw": "text"}, '{"a": 2}': {"a": 2, "raw": '{"a": 2}'}, "d\u00e9j\u00e0 vu": {"raw": "d\u00e9j\u00e0 vu"}}
EXLIST = list(EXTRAS)




def modules(world):
    """(socket, select, time, shared_memory, executor) stand-ins bound to world()"""
    import socket as rs

    W = world

    class FakeSocket:
        def __init__(self, family=1, type=1, proto=0, fileno=None):
            self.family, self.type, self.proto = family, type, proto
            self._tmo = None
            self._fd = fileno
            self._closed = False
            if fileno is None:
                w = W()
                w.nfd += 1
                self._fd = w.nfd
                w.fds[self._fd] = None

        # server side -------------------------------------------------
        def bind(self, a):
            self.addr = a

        def setsockopt(self, *a):
            pass

        def listen(self, n=0):
            W().listeners.append(self)

        def connect(self, a):
            W().fds[self._fd] = W().server_peer

        def accept(self):
            w = W()
            w.op()
            ok = w.wait(lambda: any(t <= w.now for t, p in w.connecting), FOREVER if self._tmo is None else self._tmo)
            if not ok:
                raise rs.timeout("timed out")
            for k, (t, p) in enumerate(w.connecting):
                if t <= w.now:
                    del w.connecting[k]
                    w.nfd += 1
                    w.fds[w.nfd] = p
                    s = FakeSocket(self.family, self.type, self.proto, fileno=w.nfd)
                    return s, "addr-" + p.name
            raise rs.timeout("timed out")

        # both --------------------------------------------------------
        def settimeout(self, t):
            self._tmo = t

        def setblocking(self, f):
            self._tmo = None if f else 0.0

        def gettimeout(self):
            return self._tmo

        def fileno(self):
            return -1 if self._closed else self._fd

        def getpeername(self):
            return W().fds[self._fd].name

        def _peer(self):
            if self._closed:
                raise OSError(9, "Bad file descriptor")
            return W().fds[self._fd]

        def shutdown(self, how=2):
            p = self._peer() if not self._closed else None
            if self._closed:
                raise OSError(9, "Bad file descriptor")
            if p is not None:
                if p.closed:
                    raise OSError(107, "not connected")
                p.down = True

        def close(self):
            self._closed = True

        def detach(self):
            self._closed = True
            return self._fd

        def sendall(self, data, flags=0):
            w = W()
            w.op()
            p = self._peer()
            p.tick()
            if p.closed or p.down:
                raise BrokenPipeError(32, "Broken pipe")
            if p.stalled:
                return None
            p.feed(bytes(data))

        def send(self, data, flags=0):
            # the documented contract: may accept only part of the data
            d = bytes(data)
            n = getattr(W(), "sendmax", None)
            n = len(d) if n is None else min(n, len(d))
            self.sendall(d[:n])
            return n

        def _wait(self):
            w = W()
            w.op()
            p = self._peer()
            p.tick()
            if p.hiccup and p.nhic < 15 and not p._hic and self._tmo is not None:
                # nothing arrives for one timeout, then the stream goes on
                p._hic = True
                p.nhic += 1
                w.wait(lambda: False, self._tmo)
                raise rs.timeout("timed out")
            p._hic = False
            if not w.wait(lambda: self._closed or p.readable(), FOREVER if self._tmo is None else self._tmo):
                raise rs.timeout("timed out")
            if self._closed:
                raise OSError(9, "Bad file descriptor")
            return p

        def recv(self, n, flags=0):
            if flags & rs.MSG_WAITALL:
                b = b""
                while len(b) < n:
                    x = self.recv(n - len(b))
                    if not x:
                        break
                    b += x
                return b
            p = self._wait()
            return p.take(n)

        def recv_into(self, buf, nbytes=0, flags=0):
            m = memoryview(buf).cast("B")
            n = nbytes or len(m)
            b = self.recv(min(n, len(m)), flags)
            m[: len(b)] = b
            return len(b)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    sock = types.ModuleType("socket")
    for k in dir(rs):
        if k.isupper() or k in ("error", "timeout", "gaierror", "herror") or k[:3] in ("AF_", "SO_", "SOL", "IPP", "TCP", "SHU", "MSG"):
            setattr(sock, k, getattr(rs, k))
    sock.socket = FakeSocket
    sock.dup = lambda fd: fd
    sock.gethostname = rs.gethostname

    sel = types.ModuleType("select")

    def select(r, wr, x, timeout=None):
        w = W()
        w.op()
        for s in list(r) + list(wr):
            if s.fileno() < 0:
                raise ValueError("file descriptor cannot be a negative integer (-1)")

        def ready():
            out = []
            for s in r:
                if s in w.listeners:
                    if any(t <= w.now for t, p in w.connecting):
                        out.append(s)
                elif w.fds[s._fd].readable():
                    out.append(s)
            return out

        if wr:
            return ready(), list(wr), []
        w.wait(lambda: bool(ready()), FOREVER if timeout is None else timeout)
        return ready(), [], []

    sel.select = select

    tm = types.ModuleType("time")
    tm.time = lambda: W().now
    tm.monotonic = tm.perf_counter = tm.time
    tm.sleep = lambda t: W().sleep(t)
    import time as rt

    tm.strftime = rt.strftime

    class SharedMemory:
        def __init__(self, name=None, create=False, size=0, track=True):
            w = W()
            if create:
                if name in w.segments:
                    raise FileExistsError(name)
                self.size = size
                self.name = name
                import numpy

                self.conc = w.cx.np is numpy
                self.raw = bytearray(size) if self.conc else None
                self.buf = memoryview(self.raw) if self.conc else ShmBuf(w, size)
                w.segments[name] = self
                self.linked = True
            else:
                if name not in w.segments:
                    raise FileNotFoundError(name)
                o = w.segments[name]
                self.size, self.name, self.buf, self.conc, self.raw = o.size, name, o.buf, o.conc, o.raw
            self._name = "/" + (name or "")

        def peer_view(self, shape):
            if self.conc:
                n = 1
                for x in shape:
                    n *= x
                return W().cx.np.frombuffer(self.raw, float)[:n].reshape(shape)
            return self.buf.peer_view(shape)

        def close(self):
            if self.conc:
                self.buf.release()
            else:
                self.buf.close()

        def unlink(self):
            W().segments.pop(self.name, None)

    shm = types.ModuleType("shared_memory")
    shm.SharedMemory = SharedMemory

    class Executor:
        def __init__(self, max_workers=None, **k):
            pass

        def submit(self, fn, *a, **k):
            return Worker(W(), fn, a, k)

        def shutdown(self, *a, **k):
            pass

    return sock, sel, tm, shm, Executor


class ShmBuf:
    """the memory of a shared segment"""

    def __init__(self, w, size):
        self.cx = w.cx
        self.flat = w.cx.np.zeros(size // 8, w.cx.np.float64)

    def __symx_view__(self, shape):
        n = 1
        for x in shape:
            n *= x
        return self.flat[:n].reshape(shape)

    peer_view = __symx_view__

    def close(self):
        pass


_WORLD = [None]
_MODS = None


def install(cx, world):
    """imports ipi.interfaces.sockets over the stand-ins (once per process)"""
    global _MODS
    _WORLD[0] = world
    if _MODS is None:
        _MODS = modules(lambda: _WORLD[0])
        cx.mod("ipi.interfaces.sockets")
        sys.modules.pop("ipi.interfaces.sockets", None)
        saved = {k: sys.modules.get(k) for k in ("socket", "select")}
        import concurrent.futures  # noqa: loaded over the real modules first
        import multiprocessing.shared_memory  # noqa
        import multiprocessing.resource_tracker  # noqa

        try:
            sys.modules["socket"], sys.modules["select"] = _MODS[0], _MODS[1]
            m = cx.mod("ipi.interfaces.sockets")
        finally:
            for k, v in saved.items():
                if v is not None:
                    sys.modules[k] = v
                else:
                    sys.modules.pop(k, None)
    m = cx.mod("ipi.interfaces.sockets")
    cx.patch(m, "socket", _MODS[0])
    cx.patch(m, "select", _MODS[1])
    cx.patch(m, "time", _MODS[2])
    cx.patch(m, "shared_memory", _MODS[3])
    cx.patch(m, "ThreadPoolExecutor", _MODS[4])
    cx.patch(m, "TIMEOUT", m.TIMEOUT)
    cx.silence()
    return m, _MODS
