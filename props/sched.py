"""Simulated threads under a symbolic scheduler: the code under test runs on real
interpreter threads of which exactly one is active; at every lock operation,
status change and wait the harness decides (a symbolic choice) whether another
thread takes over. The number of forced switches (preemptions) is bounded."""

import threading as _th
import types


class Dead(BaseException):
    pass


class Hung(BaseException):
    """the main thread can never go on"""


class Task:
    def __init__(self, s, fn, args, kw, name=""):
        self.s, self.name = s, name
        self.done = False
        self.exc = None
        self.cond = None
        self.go = _th.Semaphore(0)
        self.t = _th.Thread(target=self._run, args=(fn, args, kw), daemon=True)
        self.started = False

    def _run(self, fn, args, kw):
        self.go.acquire()
        try:
            if not self.s.dead:
                fn(*args, **kw)
        except Dead:
            pass
        except BaseException as e:
            self.exc = e
        self.done = True
        self.s.handover(self)

    def ready(self):
        return not self.done and (self.cond is None or self.cond())


class Sched:
    def __init__(self, cx, preempt=1, maxops=400):
        self.cx = cx
        self.budget = preempt
        self.tasks = []
        self.main = Task(self, None, (), {}, "main")
        self.cur = self.main
        self.now = 1000.0
        self.ops = 0
        self.maxops = maxops
        self.dead = False
        self.hung = False
        self.fatal = None
        self.npoint = 0
        self.undo = lambda: None

    # ------------------------------------------------------------ switching
    def all(self):
        return [self.main] + self.tasks

    def switch(self, to):
        me = self.cur
        if to is me:
            return
        self.cur = to
        if to is not self.main and not to.started:
            to.started = True
            to.t.start()
        to.go.release()
        if not me.done:
            me.go.acquire()
            if me is not self.main:
                if self.dead:
                    raise Dead()
            elif self.fatal is not None and not self.dead:
                e, self.fatal = self.fatal, None
                self.dead = True
                raise e

    def handover(self, me):
        """the current task is over: give control to another one"""
        if self.dead:
            self.cur = self.main
            self.main.go.release()
            return
        if me.exc is not None:
            self.fatal = me.exc
            n = self.main
        else:
            n = self.next(me)
        if n is None:
            self.hung = True
            n = self.main
        self.cur = n
        if n is not self.main and not n.started:
            n.started = True
            n.t.start()
        n.go.release()

    def next(self, me):
        order = self.all()
        i = order.index(me)
        for t in order[i + 1 :] + order[:i]:
            if t.ready():
                return t
        return None

    def count(self):
        if self.dead and self.cur is not self.main:
            raise Dead()
        self.ops += 1
        if self.ops > self.maxops:
            self.hung = True

    def point(self):
        """a place where another thread may take over"""
        self.count()
        if self.budget <= 0:
            return
        others = [t for t in self.all() if t is not self.cur and t.ready()]
        if not others:
            return
        self.npoint += 1
        k = self.cx.choice("switch%d" % self.npoint, list(range(len(others) + 1)))
        k = int(str(k))
        if k:
            self.budget -= 1
            self.switch(others[k - 1])

    def rest(self):
        """the current thread sleeps: everybody else gets a chance first"""
        self.count()
        self.now += 1e-4
        if self.hung:
            if self.cur is self.main:
                raise Hung()
            self.switch(self.main)
            return
        n = self.next(self.cur)
        if n is not None:
            self.switch(n)

    def wait(self, cond):
        """block until cond() holds; False if that never happens"""
        me = self.cur
        while not cond():
            self.count()
            if self.hung:
                if me is self.main:
                    raise Hung()
                me.cond = cond
                self.switch(self.main)
                me.cond = None
                continue
            me.cond = cond
            n = self.next(me)
            if n is None:
                self.hung = True
                if me is self.main:
                    me.cond = None
                    raise Hung()
                n = self.main
            self.switch(n)
            me.cond = None
        return True

    def spawn(self, fn, args=(), kw=None, name=""):
        t = Task(self, fn, args, kw or {}, name)
        self.tasks.append(t)
        return t

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        self.close()
        self.undo()
        if isinstance(e, Hung):
            self.cx.check(False, "nothing waits forever")
            return True
        return False

    def close(self):
        self.dead = True
        for t in self.tasks:
            n = 0
            while t.started and not t.done and n < 100:
                self.cur = t
                t.go.release()
                self.main.go.acquire()
                n += 1

    # ------------------------------------------------------------ stand-ins
    def threading(self):
        S = self

        class Lock:
            def __init__(s):
                s.owner, s.n = None, 0

            def acquire(s, blocking=True, timeout=-1):
                S.point()
                if s.owner is not None and not blocking:
                    return False
                S.wait(lambda: s.owner is None)
                s.owner, s.n = S.cur, 1
                return True

            def release(s):
                s.owner, s.n = None, 0
                S.point()

            def locked(s):
                return s.owner is not None

            def __enter__(s):
                s.acquire()
                return s

            def __exit__(s, *a):
                if a and a[0] is not None and issubclass(a[0], (Dead, Hung)):
                    return False
                s.release()
                return False

        class RLock(Lock):
            def acquire(s, blocking=True, timeout=-1):
                if s.owner is S.cur:
                    s.n += 1
                    return True
                return Lock.acquire(s, blocking, timeout)

            def release(s):
                s.n -= 1
                if s.n <= 0:
                    Lock.release(s)

        class Event:
            def __init__(s):
                s.f = False

            def set(s):
                s.f = True
                S.point()

            def clear(s):
                s.f = False

            def is_set(s):
                return s.f

            isSet = is_set

            def wait(s, timeout=None):
                if not s.f:
                    if timeout is None:
                        S.wait(lambda: s.f)
                    else:
                        S.rest()
                return s.f

        class Thread:
            def __init__(s, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                s.name, s.daemon = name, daemon
                s.task = None
                s.a = (target, args, kwargs or {}, name)

            def start(s):
                s.task = S.spawn(*s.a)
                S.point()

            def join(s, timeout=None):
                S.wait(lambda: s.task.done)

            def is_alive(s):
                return s.task is not None and not s.task.done

        cur = types.SimpleNamespace(name="x", daemon=True)
        return types.SimpleNamespace(Lock=Lock, RLock=RLock, Event=Event, Thread=Thread, current_thread=lambda: S.cur, currentThread=lambda: S.cur, main_thread=lambda: S.main, _cur=cur)

    def time(self):
        return types.SimpleNamespace(time=lambda: self.now, sleep=lambda dt=0: self.rest(), perf_counter=lambda: self.now, monotonic=lambda: self.now)
