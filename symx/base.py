"""Harness API shared by the symbolic and the concrete (replay) mode.

No z3 here: the concrete mode runs under the repository's own interpreter."""

import os
import shutil
import sys
import tempfile

REGISTRY = []


class Harness:
    def __init__(self, fn, name, params, bounds, opts, thorough):
        self.fn = fn
        self.name = name
        self.params = params
        self.bounds = bounds
        self.opts = opts
        self.thorough = thorough


def harness(params=None, bounds="", thorough=None, **opts):
    """register a harness. params: list of dicts (structural instances, one
    exploration each); thorough: extra instances of the thorough tier"""

    def deco(fn):
        REGISTRY.append(Harness(fn, fn.__name__, params or [{}], bounds, opts, thorough or []))
        return fn

    return deco


class StubMissing(AttributeError):
    """the code asked a harness stand-in for something it does not provide"""


class HarnessLimit(Exception):
    """harness cannot express this; never a verdict"""


class Skip(BaseException):
    pass


class CheckFailed(Exception):
    def __init__(self, label, msg=""):
        super().__init__("%s %s" % (label, msg))
        self.label = label


class Stub:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, name):
        raise StubMissing("stand-in has no attribute %r" % name)


class Prng:
    """random source returning arbitrary values of each documented range"""

    def __init__(self, cx, tag="rnd", glim=2.0):
        self.cx = cx
        self.tag = tag
        self.n = 0
        self.glim = glim
        self.log = []
        self.state = None

    def _nx(self, k, lo, hi):
        self.n += 1
        v = self.cx.real("%s%d_%s" % (self.tag, self.n, k), lo, hi)
        self.log.append((k, v))
        return v

    @property
    def g(self):
        return self._nx("g", -self.glim, self.glim)

    @property
    def u(self):
        return self._nx("u", 0.001, 0.999)

    def get_g(self):
        return self.g

    def get_u(self):
        return self.u

    def gamma(self, k, theta=1.0):
        return theta * self._nx("gam", 0.0625, 8.0)

    get_gamma = gamma

    def gvec(self, shape):
        a = self.cx.np.zeros(shape, float)
        f = a.reshape(-1)
        for i in range(f.shape[0]):
            f[i] = self.g
        return f.reshape(a.shape)

    get_gvec = gvec

    def gfill(self, out):
        out[:] = self.gvec(out.shape)

    def uvec(self, shape):
        a = self.cx.np.zeros(shape, float)
        f = a.reshape(-1)
        for i in range(f.shape[0]):
            f[i] = self.u
        return f.reshape(a.shape)

    def ufill(self, out):
        out[:] = self.uvec(out.shape)

    def __getattr__(self, name):
        raise StubMissing("random stand-in has no attribute %r" % name)


class ListPrng(Prng):
    """random source returning prescribed values in order; gamma draws return
    their mean (the code under test is linear in them)"""

    def __init__(self, cx, values=()):
        super().__init__(cx)
        self.values = list(values)
        self.k = 0
        self.gsign = []

    def load(self, values, gsign=()):
        """gsign: per gamma draw, how many standard deviations off its mean"""
        self.values = list(values)
        self.gsign = list(gsign)
        self.k = 0
        self.log = []

    def _nx(self, kind, lo, hi):
        if kind == "gam":
            raise HarnessLimit("gamma draw")
        if self.k >= len(self.values):
            v = 0.0
        else:
            v = self.values[self.k]
        self.k += 1
        self.log.append((kind, v))
        return v

    def gamma(self, k, theta=1.0):
        self.log.append(("gam", k))
        if self.gsign:
            return theta * (k + self.gsign.pop(0) * float(k) ** 0.5)
        return theta * k

    get_gamma = gamma


class BaseCtx:
    def __init__(self):
        self._patches = []
        self._tmp = []
        self.closed = False

    # -------------------------------------------------------------- shared
    def reals(self, name, shape, lo=-2.0, hi=2.0):
        if isinstance(shape, int):
            shape = (shape,)
        a = self.np.zeros(shape, float)
        f = a.reshape(-1)
        for i in range(f.shape[0]):
            f[i] = self.real("%s_%d" % (name, i), lo, hi)
        return f.reshape(shape)

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[self.conc(i)]

    def prng(self, tag="rnd", glim=2.0):
        return Prng(self, tag, glim)

    def patch(self, obj, attr, val):
        had = attr in getattr(obj, "__dict__", {})
        old = obj.__dict__[attr] if had else getattr(obj, attr, None)
        self._patches.append((obj, attr, had, old))
        setattr(obj, attr, val)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="vp_h_")
        self._tmp.append(d)
        return d

    def close(self):
        if self.closed:
            return
        self.closed = True
        for obj, attr, had, old in reversed(self._patches):
            try:
                if had:
                    setattr(obj, attr, old)
                else:
                    delattr(obj, attr)
            except Exception:
                pass
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)

    def mod(self, name):
        import importlib

        return importlib.import_module(name)

    def silence(self):
        try:
            v = self.mod("ipi.utils.messages").verbosity
            v.level = "quiet"
        except Exception:
            pass

    def dist(self, a, b):
        pass


def flat(x):
    """flatten nested arrays/lists/scalars to (shape, list)"""
    import numpy as np

    if type(x).__name__ in ("depend_array", "depend_value"):
        x = np.asarray(x) if type(x).__name__ == "depend_array" else x.get()
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return (), [x[()]]
        return x.shape, list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        subs = [flat(y) for y in x]
        shp = (len(x),) + (subs[0][0] if subs else ())
        out = []
        for s in subs:
            out += s[1]
        return shp, out
    return (), [x]
