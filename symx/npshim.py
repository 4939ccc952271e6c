"""numpy stand-in for symbolically executed ipi modules.

Float/complex arrays become object arrays (SArr) whose elements are python
floats or Syms; everything else is numpy's own code."""

import builtins
import math
import types

import numpy as np

from . import core
from .core import Sym, SymC, SymBool, Unsupported, lift, is_sym


# ------------------------------------------------------------------ scalars
def _f1(fsym, ffloat):
    def f(x):
        if type(x) is Sym:
            return fsym(x)
        if type(x) is SymC or isinstance(x, complex):
            raise Unsupported("complex elementary function")
        return ffloat(x)

    return f


def _sinh(x):
    e = core.sym_exp(x)
    return (e - e.inv()) / 2


def _cosh(x):
    e = core.sym_exp(x)
    return (e + e.inv()) / 2


def _tanh(x):
    e = core.sym_exp(2 * x)
    return (e - 1) / (e + 1)


def _sign(x):
    if type(x) is Sym:
        if x > 0:
            return 1.0
        if x < 0:
            return -1.0
        return 0.0
    return float(np.sign(x))


def _fsqrt(x):
    return math.sqrt(x) if x >= 0 else float("nan")


def _flog(x):
    return math.log(x) if x > 0 else (-math.inf if x == 0 else float("nan"))


def _fexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def _max(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    return a if bool(lift(a) >= b) else b


def _min(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    return a if bool(lift(a) <= b) else b


def _pow(a, b):
    if type(a) is Sym or type(b) is Sym:
        return lift(a) ** b if type(a) is Sym else lift(a) ** b
    if isinstance(a, SymC):
        return a**b
    try:
        return a**b
    except ZeroDivisionError:
        return math.inf


def _div(a, b):
    if not is_sym(a) and not is_sym(b):
        try:
            return a / b
        except ZeroDivisionError:
            with np.errstate(all="ignore"):
                return float(np.float64(a) / np.float64(b))
    return a / b


def _arctan2(y, x):
    if type(y) is Sym or type(x) is Sym:
        return core.atom_arctan2(lift(y), lift(x))
    return math.atan2(y, x)


def _abs(x):
    return abs(x)


ELEM1 = {
    "sqrt": _f1(core.sym_sqrt, _fsqrt),
    "exp": _f1(core.sym_exp, _fexp),
    "log": _f1(core.sym_log, _flog),
    "log2": _f1(lambda x: core.sym_log(x) / math.log(2), math.log2),
    "log10": _f1(lambda x: core.sym_log(x) / math.log(10), math.log10),
    "expm1": _f1(lambda x: core.sym_exp(x) - 1, math.expm1),
    "log1p": _f1(lambda x: core.sym_log(x + 1), math.log1p),
    "cos": _f1(core.sym_cos, math.cos),
    "sin": _f1(core.sym_sin, math.sin),
    "tan": _f1(lambda x: core.sym_sin(x) / core.sym_cos(x), math.tan),
    "sinh": _f1(_sinh, math.sinh),
    "cosh": _f1(_cosh, math.cosh),
    "tanh": _f1(_tanh, math.tanh),
    "arccos": _f1(core.sym_arccos, math.acos),
    "arctan": _f1(lambda x: core.atom_arctan2(x, core.Sym.const(1)), math.atan),
    "absolute": _abs,
    "fabs": _abs,
    "rint": _f1(core.sym_round, lambda x: float(round(x))),
    "floor": _f1(lambda x: x.__floor__(), lambda x: float(math.floor(x))),
    "ceil": _f1(lambda x: x.__ceil__(), lambda x: float(math.ceil(x))),
    "sign": _sign,
    "square": lambda x: x * x,
    "reciprocal": lambda x: 1.0 / x,
    "conjugate": lambda x: x.conjugate(),
    "deg2rad": lambda x: x * (math.pi / 180.0),
    "rad2deg": lambda x: x * (180.0 / math.pi),
    "radians": lambda x: x * (math.pi / 180.0),
    "degrees": lambda x: x * (180.0 / math.pi),
    "cbrt": lambda x: _pow(x, 1.0 / 3.0),
}
ELEMB = {
    "isnan": lambda x: False if is_sym(x) else (x != x),
    "isfinite": lambda x: True if is_sym(x) else math.isfinite(x),
    "isinf": lambda x: False if is_sym(x) else math.isinf(x),
    "signbit": lambda x: bool(x < 0),
    "logical_not": lambda x: not bool(x),
}
ELEM2 = {
    "maximum": _max,
    "minimum": _min,
    "fmax": _max,
    "fmin": _min,
    "power": _pow,
    "float_power": _pow,
    "true_divide": _div,
    "divide": _div,
    "arctan2": _arctan2,
    "hypot": lambda a, b: ELEM1["sqrt"](a * a + b * b),
    "remainder": lambda a, b: a % b,
    "fmod": lambda a, b: a % b,
    "copysign": lambda a, b: abs(a) if bool(b >= 0) else -abs(a),
}
ELEM2B = {
    "logical_and": lambda a, b: bool(a) and bool(b),
    "logical_or": lambda a, b: bool(a) or bool(b),
}

_PYF = {}
for _n, _f in ELEM1.items():
    _PYF[_n] = (np.frompyfunc(_f, 1, 1), object)
for _n, _f in ELEMB.items():
    _PYF[_n] = (np.frompyfunc(_f, 1, 1), bool)
for _n, _f in ELEM2.items():
    _PYF[_n] = (np.frompyfunc(_f, 2, 1), object)
for _n, _f in ELEM2B.items():
    _PYF[_n] = (np.frompyfunc(_f, 2, 1), bool)


def plain(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    return x


class SArr(np.ndarray):
    """object ndarray standing for a float/complex array"""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [plain(x) for x in inputs]
        for x in inputs:
            if not isinstance(x, SArr) and hasattr(type(x), "__array_ufunc__") and not isinstance(x, (np.ndarray, np.generic)):
                if getattr(x, "_tainted", None) is not None:
                    return NotImplemented
        o = None
        if out is not None:
            o = tuple(plain(x) for x in out)
        nm = ufunc.__name__
        for k in ("dtype", "casting", "subok", "order"):
            if k in kw and k != "dtype":
                kw.pop(k)
        if kw.get("dtype") is not None:
            if _isfloat(kw["dtype"]):
                kw.pop("dtype")
        if nm == "matmul" and method == "__call__":
            r = np.matmul(*ins)
            if o is not None:
                o[0][...] = r
                return out[0]
            return wrap(r)
        if nm in _PYF:
            f, dt = _PYF[nm]
            if method == "reduce" and nm in ("maximum", "minimum", "logical_and", "logical_or"):
                kw2 = {k: v for k, v in kw.items() if k in ("axis", "keepdims", "initial")}
                x = ins[0]
                if kw2.get("axis", 0) is None and not kw2.get("keepdims") and getattr(x, "ndim", 0) > 1:
                    x, kw2["axis"] = x.reshape(-1), 0
                r = f.reduce(x, **kw2)
            elif method == "__call__":
                r = f(*ins, **{k: v for k, v in kw.items() if k == "where"})
            else:
                r = getattr(f, method)(*ins, **kw)
            if dt is bool:
                r = np.asarray(r, dtype=object)
                r = r.astype(bool) if r.ndim else bool(r[()])
        else:
            r = getattr(ufunc, method)(*ins, **kw)
        if o is not None:
            o[0][...] = r
            return out[0]
        return wrap(r)

    def tofile(self, fid, sep="", format="%s"):
        np.array([float(x) for x in self.reshape(-1)], dtype=float).tofile(fid, sep, format)

    def resize(self, *shape, **k):
        shp = shape[0] if len(shape) == 1 else shape
        if int(np.prod(shp)) != self.size:
            np.ndarray.resize(self, shp, refcheck=False)
        else:
            self.shape = shp

    # complex parts -----------------------------------------------------
    @property
    def real(self):
        return map1(lambda x: x.real if isinstance(x, (SymC, complex)) else x, self)

    @real.setter
    def real(self, v):
        a = plain(self)
        v = np.broadcast_to(np.asarray(v, dtype=object), a.shape)
        for idx in np.ndindex(a.shape):
            o = a[idx]
            im = o.imag if isinstance(o, (SymC, complex)) else 0.0
            a[idx] = SymC(v[idx], im)

    @property
    def imag(self):
        return map1(lambda x: x.imag if isinstance(x, (SymC, complex)) else 0.0, self)

    @imag.setter
    def imag(self, v):
        a = plain(self)
        v = np.broadcast_to(np.asarray(v, dtype=object), a.shape)
        for idx in np.ndindex(a.shape):
            o = a[idx]
            re = o.real if isinstance(o, (SymC, complex)) else o
            a[idx] = SymC(re, v[idx])

    def astype(self, dtype, *a, **k):
        if _isfloat(dtype) or dtype is object:
            return self.copy()
        if dtype in (int, SInt, np.int64, np.int32, "int"):
            return np.asarray([int(x) for x in self.ravel()], dtype=int).reshape(self.shape)
        if dtype is bool:
            return np.asarray([bool(x) for x in self.ravel()], dtype=bool).reshape(self.shape)
        return plain(self).astype(dtype, *a, **k)

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported("round to decimals")
        return np.rint(self)

    def mean(self, axis=None, **k):
        return _mean(self, axis=axis, keepdims=k.get("keepdims", False))

    def std(self, axis=None, **k):
        return shim.std(self, axis=axis, **k)

    def var(self, axis=None, ddof=0, **k):
        return _var(self, axis, ddof)

    def argsort(self, *a, **k):
        return plain(self).argsort(*a, **k)

    def tobytes(self, *a, **k):
        ex = core.ST.explorer
        if ex is not None and ex.token_mode:
            return np.array([float(x) for x in self.reshape(-1)], dtype=float).tobytes()
        if any(is_sym(x) for x in self.ravel()):
            raise Unsupported("tobytes of symbolic array")
        return np.asarray(plain(self), dtype=np.float64).tobytes()

    def __reduce__(self):
        return (sarr, (plain(self).tolist(),))

    def __deepcopy__(self, memo):
        return self.copy()

    @property
    def nbytes(self):
        return self.size * 8

    @property
    def itemsize(self):
        return 8

    def __array_function__(self, func, types_, args, kwargs):
        h = HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        return wrap(super().__array_function__(func, [t for t in types_], args, kwargs))

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self[()], spec)
        return super().__format__(spec)


def map1(f, a):
    a = np.asarray(a, dtype=object)
    r = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(a.shape):
        r[idx] = f(plain(a)[idx])
    return r.view(SArr)


def sarr(x):
    a = np.array(x, dtype=object)
    return a.view(SArr)


def wrap(r):
    if type(r) is SArr:
        if r.ndim == 0:
            return r[()]
        return r
    if isinstance(r, np.ndarray):
        if r.dtype.kind in "O":
            if r.ndim == 0:
                return r[()]
            return r.view(SArr)
        if r.dtype.kind in "fc":
            if r.ndim == 0:
                return r.item()
            return r.astype(object).view(SArr)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if type(r) is list:
        return [wrap(x) for x in r]
    return r


FLOATS = {float, np.float64, np.float32, np.double, complex, np.complex128, np.complex64, np.longdouble, np.float16}
FLOATNAMES = {"float", "float64", "double", "d", "f", "f8", "float32", "complex", "complex128", "f4", "c16"}


def _isfloat(d):
    if d is None:
        return False
    if isinstance(d, SFloatMeta):
        return True
    try:
        if d in FLOATS:
            return True
    except TypeError:
        return False
    if isinstance(d, str):
        return d in FLOATNAMES
    if isinstance(d, np.dtype):
        return d.kind in "fcO"
    return False


class SFloatMeta(type):
    def __call__(cls, x=0.0):
        if type(x) is Sym:
            return x
        if isinstance(x, SymBool):
            return 1.0 if x else 0.0
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
            return SFloatMeta.__call__(cls, x.ravel()[0])
        if type(x).__name__ == "depend_array":
            return SFloatMeta.__call__(cls, np.asarray(x))
        ex = core.ST.explorer
        if isinstance(x, str) and ex is not None and ex.token_mode:
            return ex.untoken(float(x))
        if isinstance(x, bytes) and ex is not None and ex.token_mode:
            return ex.untoken(float(x))
        return float(x)

    def __instancecheck__(cls, x):
        return isinstance(x, float) or type(x) is Sym

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is Sym


class SFloat(float, metaclass=SFloatMeta):
    pass


Sym.dtype = np.dtype(float)


class SFloat64Meta(SFloatMeta):
    def __call__(cls, *x):
        r = SFloatMeta.__call__(cls, *x)
        return np.float64(r) if type(r) is float else r


class SFloat64(float, metaclass=SFloat64Meta):
    pass


class SIntMeta(type):
    def __call__(cls, x=0, *a):
        if type(x) is Sym:
            if core.is_int(x):
                return x
            return x.__trunc__()
        return int(x, *a)

    def __instancecheck__(cls, x):
        if type(x) is Sym:
            return core.is_int(x)
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class SInt(int, metaclass=SIntMeta):
    pass


def _realdt(d):
    if d is SInt:
        return int
    return d


class NdMeta(type):
    def __call__(cls, shape, dtype=float, *a, **k):
        b = a[0] if a else k.get("buffer")
        if b is not None and hasattr(b, "__symx_view__"):
            return b.__symx_view__(shape)
        if _isfloat(dtype):
            if b is not None:
                raise Unsupported("array over a foreign buffer")
            return fillobj(shape, 0.0)
        return np.ndarray(shape, _realdt(dtype), *a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)


class SNd(metaclass=NdMeta):
    pass


def fillobj(shape, val):
    if isinstance(shape, (Sym,)):
        shape = shape.__index__()
    if isinstance(shape, (tuple, list)):
        shape = tuple(int(s) for s in shape)
    a = np.ndarray.__new__(SArr, shape, dtype=object)
    a.fill(val)
    return a


def has_sym(*xs):
    for x in xs:
        if is_sym(x):
            return True
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                for y in x.ravel():
                    if is_sym(y):
                        return True
        elif isinstance(x, (list, tuple)):
            if has_sym(*x):
                return True
        elif type(x).__name__ == "depend_array":
            if has_sym(np.asarray(x)):
                return True
    return False


def tofloat(x):
    """concrete SArr -> float array"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        p = x.view(np.ndarray)
        if any(isinstance(y, complex) for y in p.ravel()):
            return p.astype(complex)
        return p.astype(float)
    if type(x).__name__ == "depend_array":
        return tofloat(np.asarray(x))
    if isinstance(x, list):
        return [tofloat(y) for y in x]
    if isinstance(x, tuple):
        return tuple(tofloat(y) for y in x)
    return x


def oarr(x):
    if type(x).__name__ == "depend_array":
        x = np.asarray(x)
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray) if x.dtype == object else x.astype(object)
    return np.array(x, dtype=object)


# ------------------------------------------------------------------ overrides
def s_array(obj, dtype=None, copy=True, **k):
    k.pop("order", None)
    ndmin = k.pop("ndmin", 0)
    if _isfloat(dtype):
        if type(obj).__name__ == "depend_array":
            obj = np.asarray(obj)
        ex = core.ST.explorer
        if ex is not None and ex.token_mode and not isinstance(obj, np.ndarray):
            obj = _untok(obj)
        a = np.array(obj, dtype=object, ndmin=ndmin)
        if a.size and isinstance(a.ravel()[0], (str, np.str_)):
            a = np.array([SFloat(y) for y in a.ravel()], dtype=object).reshape(a.shape)
        elif dtype is not None:
            # ints become floats
            f = a.ravel()
            if any(type(y) is int or isinstance(y, (np.integer, np.floating, bool)) for y in f):
                a = np.array([float(y) if not is_sym(y) and not isinstance(y, (float, complex, SymC)) else y for y in f], dtype=object).reshape(a.shape)
        return a.view(SArr) if a.ndim else a.view(SArr)
    if dtype is not None:
        dtype = _realdt(dtype)
        if dtype is int and has_sym(obj):
            return np.array(obj, dtype=object).view(SArr)
        return np.array(obj, dtype=dtype, ndmin=ndmin, **k)
    if type(obj).__name__ == "depend_array":
        obj = np.asarray(obj)
    a = np.array(obj, ndmin=ndmin) if copy else np.asarray(obj)
    if a.dtype.kind in "fcO":
        if a.dtype.kind != "O":
            a = a.astype(object)
        return a.view(SArr)
    return a


def _untok(o):
    if isinstance(o, (list, tuple)):
        return [_untok(x) for x in o]
    if isinstance(o, (str, bytes)):
        return SFloat(o)
    return o


def s_asarray(obj, dtype=None, **k):
    if type(obj).__name__ == "depend_array":
        obj = np.asarray(obj)
    if isinstance(obj, np.ndarray):
        if obj.dtype == object and (dtype is None or _isfloat(dtype)):
            return obj if isinstance(obj, SArr) else obj.view(SArr)
    return s_array(obj, dtype, **k)


def s_asfarray(obj, dtype=None, **k):
    return s_asarray(obj, float)


def s_zeros(shape, dtype=float, **k):
    if _isfloat(dtype):
        return fillobj(shape, 0.0)
    return np.zeros(shape, _realdt(dtype))


def s_ones(shape, dtype=float, **k):
    if _isfloat(dtype):
        return fillobj(shape, 1.0)
    return np.ones(shape, _realdt(dtype))


def s_empty(shape, dtype=float, **k):
    if _isfloat(dtype):
        return fillobj(shape, float("nan"))
    return np.empty(shape, _realdt(dtype))


def s_full(shape, v, dtype=None, **k):
    if (dtype is None and not isinstance(v, (int, str, bool))) or _isfloat(dtype):
        return fillobj(shape, v)
    return np.full(shape, v, _realdt(dtype))


def _like(val):
    def f(a, dtype=None, **k):
        if type(a).__name__ == "depend_array":
            a = np.asarray(a)
        a = np.asarray(a) if not isinstance(a, np.ndarray) else a
        if dtype is None:
            dtype = a.dtype
        if _isfloat(dtype):
            return fillobj(a.shape, val)
        return np.full(a.shape, val, dtype=_realdt(dtype))

    return f


def s_full_like(a, v, dtype=None, **k):
    return _like(v)(a, dtype)


def s_eye(n, m=None, k=0, dtype=float, **kw):
    r = np.eye(n, m, k)
    return r.astype(object).view(SArr) if _isfloat(dtype) else r.astype(_realdt(dtype))


def s_identity(n, dtype=float):
    return s_eye(n, dtype=dtype)


def s_copy(a, **k):
    return s_array(a, copy=True)


def s_dot(a, b, out=None):
    if type(a).__name__ == "depend_array":
        a = np.asarray(a)
    if type(b).__name__ == "depend_array":
        b = np.asarray(b)
    r = wrap(np.dot(plain(np.asarray(a)), plain(np.asarray(b))))
    if out is not None:
        out[...] = r
        return out
    return r


def _norm(x, ord=None, axis=None, keepdims=False):
    x = oarr(x)
    if ord not in (None, 2, "fro"):
        if not has_sym(x):
            return wrap(np.linalg.norm(tofloat(x), ord, axis, keepdims))
        if ord in (np.inf, float("inf")):
            return wrap(np.max(np.abs(x.view(SArr)), axis=axis))
        raise Unsupported("norm ord")
    s = np.sum(x * x, axis=axis, keepdims=keepdims)
    return s_ufunc("sqrt")(s)


def _det(a):
    a = oarr(a)
    if not has_sym(a):
        return float(np.linalg.det(tofloat(a)))
    n = a.shape[0]
    if a.ndim != 2:
        return sarr([_det(x) for x in a])
    if n == 1:
        return a[0, 0]
    r = 0.0
    for j in range(n):
        if not is_sym(a[0, j]) and a[0, j] == 0:
            continue
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        r = r + (1 if j % 2 == 0 else -1) * a[0, j] * _det(minor)
    return r


def _inv(a):
    a = oarr(a)
    if not has_sym(a):
        return wrap(np.linalg.inv(tofloat(a)))
    n = a.shape[0]
    d = _det(a)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, j, 0), i, 1)
            c = _det(minor) if n > 1 else 1.0
            r[i, j] = (1 if (i + j) % 2 == 0 else -1) * c / d
    return r.view(SArr)


def _solve(a, b):
    if not has_sym(a, b):
        return wrap(np.linalg.solve(tofloat(oarr(a)), tofloat(oarr(b))))
    return s_dot(_inv(a), oarr(b))


def _chol(a):
    a = oarr(a)
    if not has_sym(a):
        return wrap(np.linalg.cholesky(tofloat(a)))
    n = a.shape[0]
    L = fillobj((n, n), 0.0)
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            if i == j:
                L[i, i] = ELEM1["sqrt"](s)
            else:
                L[i, j] = s / L[j, j]
    return L


def _common_scale(a):
    """a == s * N with N a float matrix: return (s, N) or None"""
    a = oarr(a)
    base = None
    N = np.zeros(a.shape)
    for idx in np.ndindex(a.shape):
        x = a[idx]
        if not is_sym(x):
            if x == 0:
                continue
            return None
        if not x.t:
            continue
        if base is None:
            base = x
            N[idx] = 1.0
            continue
        if set(x.t) != set(base.t):
            return None
        m0 = next(iter(base.t))
        r = x.t[m0] / base.t[m0]
        if any(abs(x.t[m] - r * base.t[m]) * 10**11 > abs(x.t[m]) for m in base.t):
            return None
        N[idx] = float(r)
    return base, N


def _eigh(a, *r, **k):
    if not has_sym(a):
        w, v = np.linalg.eigh(tofloat(oarr(a)), *r, **k)
        return wrap(w), wrap(v)
    sc = _common_scale(a)
    if sc is not None and sc[0] is not None:
        lo, hi = core.bounds(sc[0])
        if lo > 0:
            w, v = np.linalg.eigh(sc[1])
            return wrap(w * sc[0]), wrap(v)
        if hi < 0:
            w, v = np.linalg.eigh(-sc[1])
            return wrap(w * (-sc[0])), wrap(v)
    raise Unsupported("eigh on symbolic data")


def concrete_only(f, name):
    def g(*a, **k):
        if has_sym(*a) or has_sym(*k.values()):
            raise Unsupported("%s on symbolic data" % name)
        return wrap(f(*[tofloat(x) for x in a], **{n: tofloat(v) for n, v in k.items()}))

    return g


class _Linalg(types.ModuleType):
    norm = staticmethod(_norm)
    det = staticmethod(_det)
    inv = staticmethod(_inv)
    solve = staticmethod(_solve)
    cholesky = staticmethod(_chol)
    eigh = staticmethod(_eigh)

    @staticmethod
    def eigvalsh(a, *r, **k):
        return _eigh(a)[0]

    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(np.linalg, name)
        return concrete_only(f, "linalg." + name) if callable(f) else f


class _ScipyLinalg(types.ModuleType):
    """scipy.linalg with the Cholesky solver of symbolic systems"""

    @staticmethod
    def cho_factor(a, *r, **k):
        import scipy.linalg as real

        if not has_sym(a):
            return real.cho_factor(tofloat(oarr(a)), *r, **k)
        return (oarr(a).copy(), "factor")

    @staticmethod
    def cho_solve(cl, b, *r, **k):
        import scipy.linalg as real

        c, low = cl
        if isinstance(low, str):
            return _solve(c, b)
        if not has_sym(b):
            return wrap(real.cho_solve((tofloat(oarr(c)), low), tofloat(oarr(b)), *r, **k))
        n = c.shape[0]
        inv = real.cho_solve((tofloat(oarr(c)), low), np.identity(n))
        return s_dot(wrap(inv), oarr(b))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        import scipy.linalg as real

        return getattr(real, name)


class _Scipy(types.ModuleType):
    linalg = _ScipyLinalg("scipy.linalg")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        import scipy as real

        return getattr(real, name)


scipyshim = _Scipy("scipy")


def _dft(a, axis, n_out, sign, scale=1.0, real_out=False):
    a = np.moveaxis(oarr(a), axis, 0)
    n = a.shape[0]
    rest = a.shape[1:]
    out = np.empty((n_out,) + rest, dtype=object)
    for k in range(n_out):
        acc_r = np.zeros(rest, dtype=object)
        acc_i = np.zeros(rest, dtype=object)
        for j in range(n):
            ang = 2 * math.pi * ((j * k) % n) / n
            c, s = math.cos(ang), sign * math.sin(ang)
            if abs(c) < 1e-15:
                c = 0.0
            if abs(s) < 1e-15:
                s = 0.0
            re = np.frompyfunc(lambda x: x.real if isinstance(x, (SymC, complex)) else x, 1, 1)(a[j])
            im = np.frompyfunc(lambda x: x.imag if isinstance(x, (SymC, complex)) else 0.0, 1, 1)(a[j])
            acc_r = acc_r + re * c - im * s
            acc_i = acc_i + re * s + im * c
        if real_out:
            out[k] = acc_r * scale
        else:
            out[k] = np.frompyfunc(lambda x, y: SymC(x, y), 2, 1)(acc_r * scale, acc_i * scale)
    return np.moveaxis(out, 0, axis).view(SArr)


def _rfft(a, n=None, axis=-1, norm=None):
    a = oarr(a)
    if n is not None and n != a.shape[axis]:
        raise Unsupported("rfft n")
    N = a.shape[axis]
    return _dft(a, axis, N // 2 + 1, -1, 1 / math.sqrt(N) if norm == "ortho" else 1.0)


def _irfft(a, n=None, axis=-1, norm=None):
    a = np.moveaxis(oarr(a), axis, 0)
    m = a.shape[0]
    if n is None:
        n = 2 * (m - 1)
    full = np.empty((n,) + a.shape[1:], dtype=object)
    tc = np.frompyfunc(lambda x: x if isinstance(x, SymC) else SymC(x.real if isinstance(x, complex) else x, x.imag if isinstance(x, complex) else 0.0), 1, 1)
    cj = np.frompyfunc(lambda x: x.conjugate(), 1, 1)
    for k in range(n):
        if k < m:
            v = tc(a[k])
            if k == 0 or 2 * k == n:
                v = np.frompyfunc(lambda x: SymC(x.real, 0.0), 1, 1)(v)
            full[k] = v
        else:
            full[k] = cj(tc(a[n - k]))
    r = _dft(full, 0, n, 1, (1 / math.sqrt(n) if norm == "ortho" else 1.0 / n), real_out=True)
    return np.moveaxis(r, 0, axis).view(SArr)


class _FFT(types.ModuleType):
    rfft = staticmethod(_rfft)
    irfft = staticmethod(_irfft)

    @staticmethod
    def fft(a, n=None, axis=-1, norm=None):
        a = oarr(a)
        return _dft(a, axis, a.shape[axis], -1, 1.0 / math.sqrt(a.shape[axis]) if norm == "ortho" else 1.0)

    @staticmethod
    def ifft(a, n=None, axis=-1, norm=None):
        a = oarr(a)
        N = a.shape[axis]
        return _dft(a, axis, N, 1, 1.0 / math.sqrt(N) if norm == "ortho" else 1.0 / N)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return concrete_only(getattr(np.fft, name), "fft." + name)


def _alleq(a, b):
    a, b = np.broadcast_arrays(oarr(a), oarr(b))
    conds = []
    for x, y in zip(a.ravel(), b.ravel()):
        if is_sym(x) or is_sym(y):
            conds.append(lift(x) == y)
        elif not (x == y):
            return False
    return bool(core.sand(*conds))


def s_array_equal(a, b, equal_nan=False):
    if oarr(a).shape != oarr(b).shape:
        return False
    return _alleq(a, b)


def s_array_equiv(a, b):
    try:
        return _alleq(a, b)
    except ValueError:
        return False


def s_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(oarr(a), oarr(b))
    r = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        x, y = a[i], b[i]
        if is_sym(x) or is_sym(y):
            d = lift(x) - y
            t = abs(lift(y)) * rtol + atol
            r[i] = bool(core.sand(d <= t, -d <= t))
        else:
            r[i] = abs(x - y) <= atol + rtol * abs(y)
    return r if r.ndim else bool(r[()])


def s_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(oarr(a), oarr(b))
    conds = []
    for x, y in zip(a.ravel(), b.ravel()):
        if is_sym(x) or is_sym(y):
            d = lift(x) - y
            t = abs(lift(y)) * rtol + atol
            conds += [d <= t, -d <= t]
        elif not abs(x - y) <= atol + rtol * abs(y):
            return False
    return bool(core.sand(*conds))


def s_around(a, decimals=0, out=None):
    if decimals:
        if has_sym(a):
            raise Unsupported("round to decimals")
        return wrap(np.around(tofloat(oarr(a)), decimals))
    return s_ufunc("rint")(a)


def _var(a, axis=None, ddof=0, **k):
    a = oarr(a)
    m = a.mean(axis=axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    r = (d * d).sum(axis=axis)
    if n <= ddof:
        return wrap(r * 0.0 + float("nan")) if isinstance(r, np.ndarray) else float("nan")
    return wrap(r / (n - ddof))


def s_std(a, axis=None, ddof=0, **k):
    return s_ufunc("sqrt")(_var(a, axis, ddof))


def s_ufunc(name):
    uf = getattr(np, name)
    return UfuncShim(uf)


def _prep(x):
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SArr)
    if isinstance(x, np.ndarray):
        if x.dtype == object and not isinstance(x, SArr):
            return x.view(SArr)
        return x
    if isinstance(x, (list, tuple)):
        return s_array(x)
    return x


class UfuncShim:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        if k.get("dtype") is not None and _isfloat(k["dtype"]):
            k.pop("dtype")
        return wrap(self.uf(*[_prep(x) for x in a], **k))

    def reduce(self, a, *r, **k):
        return wrap(self.uf.reduce(_prep(a), *r, **k))

    def outer(self, a, b, **k):
        a, b = oarr(a), oarr(b)
        sh = a.shape + b.shape
        return wrap(self(a.reshape(a.shape + (1,) * b.ndim), b.reshape((1,) * a.ndim + b.shape))).reshape(sh)

    def accumulate(self, a, *r, **k):
        return wrap(self.uf.accumulate(_prep(a), *r, **k))

    def at(self, a, idx, *b):
        return self.uf.at(plain(a), idx, *b)

    def __getattr__(self, n):
        return getattr(self.uf, n)


def s_einsum(sub, *ops, **k):
    k.pop("optimize", None)
    out = k.pop("out", None)
    r = wrap(np.einsum(sub, *[oarr(o) if not (isinstance(o, np.ndarray) and o.dtype.kind in "ib") else o for o in ops], **k))
    if out is not None:
        out[...] = r
        return out
    return r


def s_where(c, *ab):
    if not ab:
        return np.where(c)
    a, b = ab
    if is_sym(c):
        c = bool(c)
    return wrap(np.where(c, oarr(a) if has_sym(a) else a, oarr(b) if has_sym(b) else b))


def s_linspace(*a, **k):
    if has_sym(*a):
        lo, hi, n = a[:3]
        return sarr([lo + (hi - lo) * (i / (n - 1)) for i in range(n)])
    return wrap(np.linspace(*a, **k))


def s_arange(*a, **k):
    dt = k.pop("dtype", None)
    if has_sym(*a):
        raise Unsupported("arange of symbolic")
    r = np.arange(*a, **k)
    if _isfloat(dt):
        r = r.astype(float)
    return wrap(r)


def s_loadtxt(*a, **k):
    return wrap(np.loadtxt(*a, **k))


def s_fromstring(s, dtype=float, sep="", **k):
    ex = core.ST.explorer
    if sep and ex is not None and ex.token_mode:
        parts = s.replace(sep, " ").split() if sep.strip() else s.split()
        if _isfloat(dtype):
            return sarr([SFloat(p) for p in parts])
    return wrap(np.fromstring(s, dtype=_realdt(dtype) if dtype is not SFloat else float, sep=sep, **k))


def s_fromfile(f, dtype=float, *a, **k):
    if not _isfloat(dtype):
        return np.fromfile(f, _realdt(dtype), *a, **k)
    r = np.fromfile(f, float, *a, **k)
    ex = core.ST.explorer
    if ex is not None and ex.token_mode:
        return sarr([ex.untoken(float(x)) for x in r])
    return wrap(r)


def s_frombuffer(b, dtype=float, *a, **k):
    if not _isfloat(dtype):
        return np.frombuffer(b, _realdt(dtype), *a, **k)
    r = np.frombuffer(b, float, *a, **k)
    ex = core.ST.explorer
    if ex is not None and ex.token_mode:
        return sarr([ex.untoken(float(x)) for x in r])
    return wrap(r)


def s_sum(a, *r, **k):
    if isinstance(a, types.GeneratorType):
        return builtins.sum(a)
    a = oarr(a) if not (isinstance(a, np.ndarray) and a.dtype.kind in "ib") else a
    if _isfloat(k.get("dtype")):
        k.pop("dtype")
    return wrap(np.sum(a, *r, **k))


def s_real(a):
    if isinstance(a, (SymC, complex)):
        return a.real
    return getattr(_prep(a), "real", a)


def s_imag(a):
    if isinstance(a, (SymC, complex)):
        return a.imag
    return getattr(_prep(a), "imag", 0.0)


def s_iscomplexobj(a):
    return any(isinstance(x, (SymC, complex)) for x in oarr(a).ravel())


def s_isscalar(x):
    return is_sym(x) or np.isscalar(x)


def s_interp(*a, **k):
    return concrete_only(np.interp, "interp")(*a, **k)


def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = s_asarray(a)
    if not isinstance(a, SArr) and a.dtype.kind not in "Ofc":
        return wrap(np.mean(a, axis=axis, keepdims=keepdims))
    r = np.sum(plain(a), axis=axis, keepdims=keepdims)
    n = a.size if axis is None else int(np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
    return wrap(r / n)


def _load(*a, **k):
    r = np.load(*a, **k)
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r
    return wrap(r)


OVER = dict(
    mean=_mean,
    load=_load,
    array=s_array,
    asarray=s_asarray,
    asanyarray=s_asarray,
    ascontiguousarray=s_asarray,
    asfortranarray=s_asarray,
    atleast_1d=None,
    zeros=s_zeros,
    ones=s_ones,
    empty=s_empty,
    full=s_full,
    zeros_like=_like(0.0),
    ones_like=_like(1.0),
    empty_like=_like(float("nan")),
    full_like=s_full_like,
    eye=s_eye,
    identity=s_identity,
    copy=s_copy,
    dot=s_dot,
    array_equal=s_array_equal,
    array_equiv=s_array_equiv,
    isclose=s_isclose,
    allclose=s_allclose,
    around=s_around,
    round=s_around,
    std=s_std,
    var=_var,
    einsum=s_einsum,
    where=s_where,
    linspace=s_linspace,
    arange=s_arange,
    loadtxt=s_loadtxt,
    fromstring=s_fromstring,
    fromfile=s_fromfile,
    sum=s_sum,
    real=s_real,
    imag=s_imag,
    iscomplexobj=s_iscomplexobj,
    isscalar=s_isscalar,
    interp=s_interp,
    ndarray=SNd,
    float64=SFloat64,
    frombuffer=s_frombuffer,
    double=SFloat,
    float32=SFloat,
)
OVER = {k: v for k, v in OVER.items() if v is not None}

HANDLED = {
    np.mean: _mean,
    np.linalg.norm: _norm,
    np.linalg.det: _det,
    np.linalg.inv: _inv,
    np.linalg.solve: _solve,
    np.linalg.cholesky: _chol,
    np.linalg.eigh: _eigh,
    np.allclose: s_allclose,
    np.isclose: s_isclose,
    np.array_equal: s_array_equal,
    np.array_equiv: s_array_equiv,
    np.zeros_like: _like(0.0),
    np.ones_like: _like(1.0),
    np.empty_like: _like(float("nan")),
    np.around: s_around,
    np.round: s_around,
    np.std: s_std,
    np.var: _var,
    np.real: s_real,
    np.imag: s_imag,
    np.dot: s_dot,
}


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__path__ = []
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        if name in OVER:
            v = OVER[name]
        else:
            real = getattr(np, name)
            if isinstance(real, np.ufunc):
                v = UfuncShim(real)
            elif isinstance(real, type) or not callable(real):
                v = real
            else:
                v = _wrapf(real)
        c[name] = v
        return v


def _wrapf(f):
    def g(*a, **k):
        if "dtype" in k:
            k["dtype"] = _realdt(k["dtype"])
            if _isfloat(k["dtype"]):
                k["dtype"] = object
        a = tuple(_prepf(x) for x in a)
        return wrap(f(*a, **k))

    g.__name__ = getattr(f, "__name__", "f")
    return g


def _prepf(x):
    if type(x).__name__ == "depend_array":
        x = np.asarray(x)
    if isinstance(x, SArr):
        return x
    if is_sym(x):
        return x
    return x


shim = NumpyShim()
shim.linalg = _Linalg("numpy.linalg")
shim.fft = _FFT("numpy.fft")
shim.random = np.random


def _copysign(x, y):
    """the sign of a zero y is not tracked: +0"""
    if not has_sym(x, y):
        return math.copysign(x, y)
    x = abs(x)
    return x if y >= 0.0 else -x


class MathShim(types.ModuleType):
    def __getattr__(self, name):
        real = getattr(math, name)
        if name in ELEM1:
            return ELEM1[name]
        alias = {"acos": "arccos", "atan": "arctan", "fabs": "absolute"}
        if name in alias:
            return ELEM1[alias[name]]
        if name == "atan2":
            return _arctan2
        if name == "pow":
            return _pow
        if name == "copysign":
            return _copysign
        if name in ("isnan", "isinf", "isfinite"):
            return ELEMB[name]
        if callable(real):

            def g(*a, **k):
                if has_sym(*a):
                    raise Unsupported("math." + name)
                return real(*a, **k)

            return g
        return real


mathshim = MathShim("math")


# ------------------------------------------------------------------ json
class _Json(types.ModuleType):
    """json with symbolic numbers carried as tokens"""

    def __getattr__(self, name):
        import json

        return getattr(json, name)

    @staticmethod
    def _tok(o):
        if type(o) is Sym:
            return float(o)
        if isinstance(o, dict):
            return {k: _Json._tok(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [_Json._tok(v) for v in o]
        if isinstance(o, np.ndarray) and o.dtype == object:
            return _Json._tok(o.tolist())
        return o

    @staticmethod
    def dumps(o, **k):
        import json

        return json.dumps(_Json._tok(o), **k)

    @staticmethod
    def dump(o, f, **k):
        f.write(_Json.dumps(o, **k))

    @staticmethod
    def loads(s, **k):
        import json

        ex = core.ST.explorer
        if ex is not None and ex.token_mode:
            k.setdefault("parse_float", lambda x: ex.untoken(float(x)))
        return json.loads(s, **k)

    @staticmethod
    def load(f, **k):
        return _Json.loads(f.read(), **k)


jsonshim = _Json("json")
