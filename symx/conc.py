"""concrete mode: the same harness on plain numpy and the real package"""

import json
import os
import random
import signal
import sys
import traceback

import numpy

from .base import BaseCtx, CheckFailed, HarnessLimit, Skip, StubMissing, flat

REPO = os.environ.get("VP_REPO", "/repo")


class ConcCtx(BaseCtx):
    symbolic = False
    float = float
    inttype = int

    def __init__(self, values, seed=1):
        super().__init__()
        self.values = dict(values)
        self.rng = random.Random(seed)
        self.np = numpy
        self.failures = []
        self.ufs = {}
        self.nchecks = 0

    def real(self, name, lo=-2.0, hi=2.0):
        v = self.values.get(name)
        if v is None:
            v = self.rng.uniform(lo, hi)
            self.values[name] = v
        return float(v)

    def int(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = self.rng.randint(int(lo), int(hi))
            self.values[name] = v
        return int(v)

    def conc(self, v):
        return v

    def assume(self, b):
        if not b:
            raise Skip()

    def check(self, cond, label):
        self.nchecks += 1
        if not cond:
            self.failures.append((label, "condition is false"))

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def nt(self, c):
        return not c

    def eq(self, a, b, label, tol=1e-8, scale=1.0):
        sa, fa = flat(a)
        sb, fb = flat(b)
        if sa != sb:
            if sa == ():
                fa = fa * len(fb)
            elif sb == ():
                fb = fb * len(fa)
            elif len(fa) != len(fb):
                self.check(False, label + " [shape %s vs %s]" % (sa, sb))
                return
        big = scale
        for x in fa + fb:
            if isinstance(x, (int, float, complex, numpy.number)) and x == x and abs(x) < 1e300:
                big = max(big, abs(x))
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.nchecks += 1
            if isinstance(x, (str, bytes, type(None))) or isinstance(y, (str, bytes, type(None))):
                ok = x == y
            else:
                ok = x == y or (x != x and y != y) or abs(x - y) <= tol * big
            if not ok:
                self.failures.append((label, "element %d: %r != %r" % (i, x, y)))
                return

    def ufunc(self, name, args, nout, lo=-2.0, hi=2.0):
        tab = self.ufs.setdefault(name, [])
        _, fa = flat(args)
        fa = [float(x) for x in fa]
        for key, val in tab:
            if len(key) == len(fa) and all(abs(x - y) <= 1e-7 * max(1.0, abs(x)) for x, y in zip(key, fa)):
                return val.copy()
        k = len(tab)
        val = self.reals("uf_%s%d" % (name, k), nout, lo, hi)
        tab.append((fa, val))
        return val.copy()

    def jac(self, fun, x, h=1e-5):
        x = numpy.asarray(x, float)
        x0 = x.reshape(-1).copy()
        fo = numpy.asarray(flat(fun(x0.reshape(x.shape).copy()))[1], float)
        J = numpy.zeros((len(fo), len(x0)))
        for j in range(len(x0)):
            acc = numpy.zeros(len(fo))
            for m, c in ((1, 2.0 / 3.0), (2, -1.0 / 12.0)):
                for s in (1, -1):
                    y = x0.copy()
                    y[j] += s * m * h
                    acc += s * c * numpy.asarray(flat(fun(y.reshape(x.shape)))[1], float)
            J[:, j] = acc / h
        return J

    def grad(self, fun, x):
        return self.jac(lambda y: [fun(y)], x)[0]

    def load_file(self, path, name):
        import importlib.util

        spec = importlib.util.spec_from_file_location(name, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m


def run_one(fn, params, values, seed=1):
    """-> dict(status = ok|fail|skip|limit, ...)"""
    cx = ConcCtx(values, seed)
    try:
        fn(cx, **params)
        st = dict(status="ok", checks=cx.nchecks)
    except Skip:
        st = dict(status="skip")
    except (StubMissing, HarnessLimit) as e:
        st = dict(status="limit", error="%s: %s" % (type(e).__name__, e))
    except CheckFailed as e:
        cx.failures.append((e.label, str(e)))
        st = dict(status="ok")
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename if tb else ""
        inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO))]
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        text = "%s: %s" % (type(e).__name__, str(e)[:400])
        stub = isinstance(e, (StubMissing,)) or isinstance(e.__cause__, StubMissing) or isinstance(e.__context__, StubMissing)
        if stub or os.path.abspath(last).startswith(here) or not inrepo:
            st = dict(status="limit", error=text, tb=traceback.format_exc()[-1500:])
        else:
            st = dict(status="fail", label="the code raised an exception", error=text, tb=traceback.format_exc()[-1500:])
    finally:
        cx.close()
    if cx.failures:
        st = dict(status="fail", label=cx.failures[0][0], error=cx.failures[0][1], all=[f[0] for f in cx.failures[:10]])
    if st["status"] == "fail" and len(cx.values) < 800:
        st["values"] = {k: v for k, v in cx.values.items()}
    return st


def main():
    """argv: jobs.json out.json ; jobs: list of {prop, harness, params, inputs, seed, timeout}"""
    import multiprocessing as mp

    jobs = json.load(open(sys.argv[1]))
    out = sys.argv[2]
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import importlib

    from . import base

    mods = {}
    for j in jobs:
        if j["prop"] not in mods:
            base.REGISTRY.clear()
            importlib.import_module("props." + j["prop"].lower())
            mods[j["prop"]] = {h.name: h for h in base.REGISTRY}
    res = []
    devnull = os.open(os.devnull, os.O_WRONLY)
    for j in jobs:
        h = mods[j["prop"]][j["harness"]]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            signal.alarm(int(j.get("timeout", 60)))
            try:
                st = run_one(h.fn, j["params"], j["inputs"], j.get("seed", 1))
            except BaseException as e:
                st = dict(status="limit", error="runner: %r" % (e,))
            try:
                os.write(w, json.dumps(st, default=str).encode()[:60000])
            finally:
                os._exit(0)
        os.close(w)
        buf = b""
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            buf += c
        os.close(r)
        _, stat = os.waitpid(pid, 0)
        try:
            st = json.loads(buf)
        except Exception:
            if os.WIFSIGNALED(stat) and os.WTERMSIG(stat) == signal.SIGALRM:
                st = dict(status="timeout", error="no result within %ss" % j.get("timeout", 60))
            else:
                st = dict(status="limit", error="worker died (%s)" % stat)
        res.append(st)
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
