"""symbolic-mode context"""

import numpy as np

from . import core, npshim, loader
from .base import BaseCtx, flat, HarnessLimit, Prng
from .core import Sym, SymBool, SymC, is_sym, lift, ST


class SymCtx(BaseCtx):
    symbolic = True
    float = npshim.SFloat
    inttype = npshim.SInt

    def __init__(self, ex):
        super().__init__()
        self.ex = ex
        self.np = npshim.shim

    def real(self, name, lo=-2.0, hi=2.0):
        return self.ex.new_input(name, float(lo), float(hi))

    def int(self, name, lo, hi):
        return self.ex.new_input(name, float(lo), float(hi), "I")

    def conc(self, v):
        return v.__index__() if isinstance(v, Sym) else v

    def assume(self, b):
        self.ex.assume(b)

    def check(self, cond, label):
        if isinstance(cond, SymBool):
            self.ex.obligation("cond", label, cond)
        elif isinstance(cond, Sym):
            self.ex.obligation("cond", label, core.compare(cond, "!="))
        elif not cond:
            self.ex.obligation("fail", label, None)
        else:
            self.ex.st.oblig += 1
            self.ex.labels[label] = self.ex.labels.get(label, 0) + 1

    def all(self, conds):
        return core.sand(*conds)

    def any(self, conds):
        return core.sor(*conds)

    def nt(self, c):
        return core.snot(c)

    def eq(self, a, b, label, tol=1e-8, scale=1.0):
        sa, fa = flat(a)
        sb, fb = flat(b)
        if sa != sb:
            if sa == ():
                fa = fa * len(fb)
            elif sb == ():
                fb = fb * len(fa)
            elif len(fa) != len(fb):
                self.check(False, label + " [shape %s vs %s]" % (sa, sb))
                return
        for x, y in zip(fa, fb):
            self._eq1(x, y, label, tol, scale)

    def _eq1(self, x, y, label, tol, scale):
        if isinstance(x, (SymC, complex)) or isinstance(y, (SymC, complex)):
            xr, xi = (x.real, x.imag) if isinstance(x, (SymC, complex)) else (x, 0.0)
            yr, yi = (y.real, y.imag) if isinstance(y, (SymC, complex)) else (y, 0.0)
            self._eq1(xr, yr, label, tol, scale)
            self._eq1(xi, yi, label, tol, scale)
            return
        if isinstance(x, (str, bytes, type(None))) or isinstance(y, (str, bytes, type(None))):
            self.check(x == y, label)
            return
        if not is_sym(x) and not is_sym(y):
            x, y = float(x), float(y)
            if x == y or (x != x and y != y):
                ok = True
            else:
                ok = abs(x - y) <= tol * max(scale, abs(x), abs(y))
            self.check(ok, label)
            return
        if (not is_sym(x) and x != x) or (not is_sym(y) and y != y):
            self.check(False, label + " [nan]")
            return
        x, y = lift(x), lift(y)
        mag = max(core.magnitude(x), core.magnitude(y))
        t = tol * max(scale, min(mag, 1e4 * scale))
        self.ex.obligation("eq", label, (x, y, t))

    def ufunc(self, name, args, nout, lo=-2.0, hi=2.0):
        """arbitrary function of args: equal arguments (to round-off) give equal
        results, otherwise nothing is assumed"""
        tab = self.ex.ufs.setdefault(name, [])
        _, fa = flat(args)
        fa = [lift(x) for x in fa]
        for key, val in tab:
            if len(key) == len(fa) and all(close(x, y) for x, y in zip(key, fa)):
                return val.copy()
        k = len(tab)
        val = self.reals("uf_%s%d" % (name, k), nout, lo, hi)
        tab.append((fa, val))
        return val.copy()

    def jac(self, fun, x):
        """d fun(x)_i / d x_j where x holds distinct symbolic inputs, or numbers"""
        _, fx = flat(x)
        if not any(is_sym(v) for v in fx):
            pt = [float(v) for v in fx]
            y = x.copy()
            n = getattr(self.ex, "njac", 0)
            self.ex.njac = n + 1
            fy = [self.real("at%d_%d" % (n, i), v - 0.0078125, v + 0.0078125) for i, v in enumerate(pt)]
            y = npshim.fillobj(y.shape, 0.0)
            y.reshape(-1)[:] = fy
            J = self.jac(fun, y)
            env = {next(iter(v.t))[0][0]: p for v, p in zip(fy, pt)}
            R = npshim.fillobj(J.shape, 0.0)
            for i in range(J.shape[0]):
                for j in range(J.shape[1]):
                    R[i, j] = core.subst(J[i, j], env) if is_sym(J[i, j]) else J[i, j]
            return R
        out = fun(x)
        _, fo = flat(out)
        J = npshim.fillobj((len(fo), len(fx)), 0.0)
        for i, o in enumerate(fo):
            for j, v in enumerate(fx):
                J[i, j] = core.diff(lift(o), v) if is_sym(o) else 0.0
        return J

    def grad(self, fun, x):
        return self.jac(lambda y: [fun(y)], x)[0]

    def value(self, x):
        return x

    def load_file(self, path, name):
        return loader.load_file(path, name)


def close(x, y):
    d = x - y
    if not d.t:
        return True
    return core.magnitude(d) <= 1e-9 * max(1.0, core.magnitude(x))
