"""Symbolic reals for executing the real i-PI code.

A `Sym` is a Laurent polynomial with exact rational coefficients over *atoms*.
Atoms are the harness inputs (symbolic reals / ints in a stated box) and the
applications of the elementary functions the code calls on them (sqrt, exp,
cos, sin, log, abs, round, 1/polynomial).  Branching on a comparison of `Sym`s
asks the explorer (explore.py) which sides are feasible (z3) and forks.
"""

from fractions import Fraction
import math

import z3

INF = float("inf")


class Unsupported(Exception):
    """The engine cannot represent what the code did (never a verdict)."""


class Infeasible(BaseException):
    """The current path is infeasible / cut."""


def frac(x):
    if type(x) is Fraction:
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x != x or x in (INF, -INF):
        raise Unsupported("non-finite constant in symbolic arithmetic")
    return Fraction(x)


class State:
    """Per-run global engine state."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = []
        self.index = {}
        self.explorer = None
        self.tokens = {}
        self.zvars = {}
        self.ufcount = 0


ST = State()


class Atom:
    __slots__ = ("id", "kind", "name", "arg", "sort", "lo", "hi", "extra")

    def __init__(self, kind, name, arg=None, sort="R", lo=-INF, hi=INF, extra=None):
        self.kind = kind
        self.name = name
        self.arg = arg
        self.sort = sort
        self.lo = lo
        self.hi = hi
        self.extra = extra
        self.id = len(ST.atoms)
        ST.atoms.append(self)

    def zvar(self):
        v = ST.zvars.get(self.id)
        if v is None:
            nm = "a%d_%s" % (self.id, self.name)
            v = z3.Int(nm) if self.sort == "I" else z3.Real(nm)
            ST.zvars[self.id] = v
        return v

    def __repr__(self):
        return self.name


ONE = ()


def mono_mul(a, b):
    """product of two monomials, unreduced"""
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    na, nb = len(a), len(b)
    while i < na and j < nb:
        if a[i][0] == b[j][0]:
            e = a[i][1] + b[j][1]
            if e != 0:
                out.append((a[i][0], e))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_needs_reduce(m):
    atoms = ST.atoms
    for aid, e in m:
        k = atoms[aid].kind
        if k == "var" or k == "exp":
            continue
        if k == "den":
            if e > 0:
                return True
        elif k == "sqrt":
            if e != 1:
                return True
        elif k == "sin":
            if e > 1:
                return True
    return False


class Sym:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = terms
        self._h = None

    # ------------------------------------------------------------ basics
    @staticmethod
    def const(c):
        c = frac(c)
        return Sym({ONE: c} if c else {})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def cval(self):
        return self.t.get(ONE, Fraction(0))

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "Sym(%s)" % pretty(self)

    def __str__(self):
        ex = ST.explorer
        if ex is not None and ex.token_mode:
            return str(float(self))
        return self.__repr__()

    # ------------------------------------------------------------ arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if len(self.t) < len(o.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Sym(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, SymC):
            return NotImplemented
        o = lift(o)
        if o is NotImplemented:
            return o
        if not self.t or not o.t:
            return ZERO
        if o.is_const():
            c = o.cval()
            if c == 1:
                return self
            return Sym({m: v * c for m, v in self.t.items()})
        if self.is_const():
            c = self.cval()
            if c == 1:
                return o
            return Sym({m: v * c for m, v in o.t.items()})
        r = {}
        red = []
        work = len(self.t) * len(o.t)
        if work > 2000:
            if work > 3000000:
                raise Unsupported("polynomial blow-up")
            ex = ST.explorer
            if ex is not None:
                ex.tick()
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = c1 * c2
                if mono_needs_reduce(m):
                    red.append((m, c))
                    continue
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        out = Sym(r)
        for m, c in red:
            out = out + reduce_mono(m) * c
        if len(out.t) > 60000:
            raise Unsupported("polynomial blow-up")
        return out

    __rmul__ = __mul__

    def inv(self):
        if not self.t:
            raise ZeroDivisionError("symbolic division by zero")
        if len(self.t) == 1:
            ((m, c),) = self.t.items()
            out = Sym({ONE: 1 / c})
            r = {}
            mi = tuple((a, -e) for a, e in m)
            if mono_needs_reduce(mi):
                return out * reduce_mono(mi)
            return Sym({mi: 1 / c})
        # several terms: factor out the common monomial & leading coefficient
        common = None
        for m in self.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {
                    a: min(e, d[a], key=abs) if e * d[a] > 0 else 0
                    for a, e in common.items()
                    if a in d
                }
            common = {a: e for a, e in common.items() if e}
            if not common:
                break
        common = {a: e for a, e in (common or {}).items() if ST.atoms[a].kind in ("var", "exp", "den")}
        cm = tuple(sorted(common.items()))
        cmi = tuple((a, -e) for a, e in cm)
        body = self
        if cm:
            body = Sym({mono_mul(m, cmi): c for m, c in self.t.items()})
        lead = max(body.t)
        lc = body.t[lead]
        if lc != 1:
            body = Sym({m: c / lc for m, c in body.t.items()})
        at = den_atom(body)
        res = Sym({((at.id, -1),): 1 / lc})
        if cmi:
            res = res * (Sym({cmi: Fraction(1)}) if not mono_needs_reduce(cmi) else reduce_mono(cmi))
        return res

    def __truediv__(self, o):
        if isinstance(o, SymC):
            return NotImplemented
        o = lift(o)
        if o is NotImplemented:
            return o
        if o.is_const():
            c = o.cval()
            if c == 0:
                raise ZeroDivisionError
            return Sym({m: v / c for m, v in self.t.items()})
        if len(o.t) > 1 and len(self.t) == len(o.t):
            # proportional?
            if set(self.t) == set(o.t):
                m0 = next(iter(self.t))
                r = self.t[m0] / o.t[m0]
                if all(self.t[m] == r * o.t[m] for m in o.t):
                    return Sym.const(r)
        return self * o.inv()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, n):
        if isinstance(n, Sym):
            if n.is_const():
                n = n.cval()
            else:
                return (n * sym_log(self)).exp()
        if isinstance(n, float):
            n = Fraction(n)
        elif not isinstance(n, Fraction):
            n = Fraction(int(n)) if float(n) == int(n) else Fraction(float(n))
        if n.denominator == 1:
            n = int(n)
            if n == 0:
                return Sym.const(1)
            if n < 0:
                return self.inv() ** (-n)
            r = None
            b = self
            while n:
                if n & 1:
                    r = b if r is None else r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if n.denominator == 2:
            return self.sqrt() ** n.numerator
        if n.denominator == 4:
            return self.sqrt().sqrt() ** n.numerator
        return (sym_log(self) * Sym.const(n)).exp()

    def __rpow__(self, b):
        b = lift(b)
        return (sym_log(b) * self).exp()

    # integer style operations -----------------------------------------
    def __floordiv__(self, o):
        return floordiv(self, lift(o))

    def __rfloordiv__(self, o):
        return floordiv(lift(o), self)

    def __mod__(self, o):
        o = lift(o)
        return self - o * floordiv(self, o)

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        q = floordiv(self, lift(o))
        return q, self - lift(o) * q

    def __abs__(self):
        return sym_abs(self)

    def __round__(self, nd=None):
        if nd:
            raise Unsupported("round(sym, digits)")
        return sym_round(self)

    def __floor__(self):
        return floordiv(self, Sym.const(1))

    def __ceil__(self):
        return -floordiv(-self, Sym.const(1))

    def __trunc__(self):
        if self >= 0:
            return self.__floor__()
        return self.__ceil__()

    # numpy object-dtype elementwise protocol
    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def cos(self):
        return sym_cos(self)

    def sin(self):
        return sym_sin(self)

    def conjugate(self):
        return self

    conj = conjugate

    def copy(self):
        return self

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    # ------------------------------------------------------------ compare
    def _cmp(self, o, op):
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            # a finite number against infinity or nan
            x = 0.0
            return {"<": x < o, "<=": x <= o, ">": x > o, ">=": x >= o, "==": x == o, "!=": x != o}[op]
        o2 = lift(o)
        if o2 is NotImplemented:
            return NotImplemented
        if op not in ("==", "!=") and _exp_mono(self, o2):
            # between positive products with exponentials: compare the logarithms
            return compare(sym_log(self) - sym_log(o2), op)
        return compare(self - o2, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, type)):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, type)):
            return True
        return self._cmp(o, "!=")

    def __bool__(self):
        return bool(compare(self, "!="))

    # ------------------------------------------------------------ concretise
    def __float__(self):
        if self.is_const():
            return float(self.cval())
        ex = ST.explorer
        if ex is not None and ex.token_mode:
            return ex.token(self)
        raise Unsupported("float() of a symbolic value at a C boundary")

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        v = self.__trunc__()
        return concretise(v)

    def __index__(self):
        if self.is_const():
            c = self.cval()
            if c.denominator == 1:
                return int(c)
            raise TypeError("non-integer index")
        if not is_int(self):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretise(self)

    def __format__(self, spec):
        if spec and spec[-1] in "eEfFgGd":
            return format(float(self), spec)
        return repr(self)

    def is_integer(self):
        return is_int(self)


ZERO = Sym({})


class SymC:
    """complex value with Sym/float parts"""

    __slots__ = ("real", "imag")

    def __init__(self, re, im=0.0):
        self.real = re
        self.imag = im

    def _l(o):
        if isinstance(o, SymC):
            return o
        if isinstance(o, complex):
            return SymC(o.real, o.imag)
        try:
            import numpy as np

            if isinstance(o, np.complexfloating):
                return SymC(float(o.real), float(o.imag))
        except ImportError:
            pass
        return SymC(o, 0.0)

    def __add__(self, o):
        o = SymC._l(o)
        return SymC(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __sub__(self, o):
        o = SymC._l(o)
        return SymC(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        o = SymC._l(o)
        return SymC(o.real - self.real, o.imag - self.imag)

    def __mul__(self, o):
        o = SymC._l(o)
        return SymC(
            self.real * o.real - self.imag * o.imag,
            self.real * o.imag + self.imag * o.real,
        )

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymC._l(o)
        if isinstance(o.imag, float) and o.imag == 0.0:
            return SymC(self.real / o.real, self.imag / o.real)
        d = o.real * o.real + o.imag * o.imag
        return self * SymC(o.real / d, -o.imag / d)

    def __rtruediv__(self, o):
        return SymC._l(o) / self

    def __neg__(self):
        return SymC(-self.real, -self.imag)

    def conjugate(self):
        return SymC(self.real, -self.imag)

    conj = conjugate

    def __abs__(self):
        return gsqrt(self.real * self.real + self.imag * self.imag)

    def __pow__(self, n):
        if n == 2:
            return self * self
        raise Unsupported("complex power")

    def __repr__(self):
        return "SymC(%r,%r)" % (self.real, self.imag)


_np_num = None


def lift(o):
    if type(o) is Sym:
        return o
    if isinstance(o, (int, float, Fraction)):
        return Sym.const(o)
    global _np_num
    if _np_num is None:
        import numpy as np

        _np_num = (np.floating, np.integer, np.bool_)
    if isinstance(o, _np_num):
        return Sym.const(o.item())
    if isinstance(o, SymBool):
        return Sym.const(1 if bool(o) else 0)
    return NotImplemented


def is_sym(x):
    return type(x) is Sym or type(x) is SymC or type(x) is SymBool


def is_int(s):
    for m, c in s.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if ST.atoms[a].sort != "I" or e < 0:
                return False
    return True


def pretty(s, limit=12):
    if not s.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(s.t.items())):
        if i >= limit:
            out.append("...[%d terms]" % len(s.t))
            break
        cs = str(c) if c.denominator < 10**6 else "%.10g" % float(c)
        out.append(
            "*".join(
                [cs]
                + [
                    ST.atoms[a].name + ("" if e == 1 else "^%s" % e)
                    for a, e in m
                ]
            )
        )
    return " + ".join(out)


# ---------------------------------------------------------------- atoms
def akey(s):
    """key of an atom argument: coefficients are identified to 10 significant
    digits, terms below 1e-13 of the largest dropped (float round-off)"""
    if not s.t:
        return ()
    mx = max(abs(c) for c in s.t.values())
    out = []
    for m, c in sorted(s.t.items()):
        if abs(c) * 10**13 < mx:
            continue
        if c.denominator < 10**6:
            out.append((m, str(c) if c.denominator < 1000 and abs(c.numerator) < 10**6 else "%.9e" % fl(c)))
        else:
            n = c.limit_denominator(999)
            if n != 0 and abs(n - c) * 10**11 < abs(c):
                out.append((m, str(n)))
            else:
                out.append((m, "%.9e" % fl(c)))
    return tuple(out)


def get_atom(kind, key, mk):
    if kind in ("den", "sqrt", "exp_", "log", "cos", "sin", "abs", "round", "arccos") and isinstance(key, Sym):
        key = akey(key)
    k = (kind, key)
    a = ST.index.get(k)
    if a is None:
        a = mk()
        ST.index[k] = a
    return a


def var(name, lo, hi, sort="R"):
    key = ("var", name)
    if key in ST.index:
        raise RuntimeError("duplicate symbolic input " + name)
    a = Atom("var", name, sort=sort, lo=lo, hi=hi)
    ST.index[key] = a
    return Sym({((a.id, 1),): Fraction(1)})


def atom_sym(a):
    return Sym({((a.id, 1),): Fraction(1)})


def reduce_mono(m):
    """rewrite sqrt^k, sin^k, den^+k inside a monomial; returns Sym"""
    keep = []
    out = None
    for aid, e in m:
        a = ST.atoms[aid]
        if a.kind == "sqrt" and e != 1:
            k = e // 2 if e % 1 == 0 else None
            if k is None:
                raise Unsupported("fractional power of sqrt")
            r = e - 2 * k
            f = a.arg ** int(k)
            out = f if out is None else out * f
            if r:
                keep.append((aid, r))
        elif a.kind == "den" and e > 0:
            f = a.arg ** int(e)
            out = f if out is None else out * f
        elif a.kind == "sin" and e > 1:
            k = int(e // 2)
            c = atom_sym(a.extra)  # paired cos atom
            f = (Sym.const(1) - c * c) ** k
            out = f if out is None else out * f
            if e - 2 * k:
                keep.append((aid, e - 2 * k))
        else:
            keep.append((aid, e))
    base = Sym({tuple(keep): Fraction(1)})
    return base if out is None else out * base


def den_atom(body):
    def mk():
        lo, hi = bounds(body)
        return Atom("den", "D%d" % len(ST.atoms), arg=body, lo=lo, hi=hi)

    return get_atom("den", body, mk)


def _positive(s):
    lo, hi = bounds(s)
    return lo > 0


def sym_sqrt(s):
    s = lift(s)
    if s.is_const():
        c = s.cval()
        if c < 0:
            raise Unsupported("sqrt of negative constant")
        return Sym.const(exact_sqrt(c))
    if len(s.t) == 1:
        ((m, c),) = s.t.items()
        # split into positive atoms with integer powers
        if c > 0 and all(ST.atoms[a].lo >= 0 and ST.atoms[a].kind != "sqrt" for a, e in m):
            out = Sym.const(exact_sqrt(c))
            for a, e in m:
                at = ST.atoms[a]
                if at.kind == "exp":
                    out = out * Sym({((a, e / 2),): Fraction(1)})
                    continue
                if e % 1 != 0:
                    raise Unsupported("sqrt frac power")
                h = e // 2
                if h:
                    mm = ((a, h),)
                    out = out * (reduce_mono(mm) if mono_needs_reduce(mm) else Sym({mm: Fraction(1)}))
                if e - 2 * h:
                    out = out * _sqrt_atom(atom_sym(at) if at.kind != "den" else at.arg)
            return out
        if c > 0 and len(m) == 1 and m[0][1] == 2:
            return sym_abs(atom_sym(ST.atoms[m[0][0]])) * Sym.const(exact_sqrt(c))
    # perfect-square multi-term detection is left to the solver
    lo, hi = bounds(s)
    if hi < 0:
        raise Unsupported("sqrt of negative value")
    # canonicalise scale so sqrt(4x+4) and 2*sqrt(x+1) agree
    mx = max(abs(c) for c in s.t.values())
    lead = max(m for m, c in s.t.items() if abs(c) * 10**13 >= mx)
    lc = abs(s.t[lead])
    if lc != 1:
        body = Sym({m: c / lc for m, c in s.t.items()})
        return _sqrt_atom(body) * Sym.const(exact_sqrt(lc))
    return _sqrt_atom(s)


def exact_sqrt(c):
    n = math.isqrt(c.numerator)
    d = math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return Fraction(math.sqrt(c))


def _sqrt_atom(body):
    def mk():
        lo, hi = bounds(body)
        lo = math.sqrt(max(lo, 0.0)) * (1 - 1e-12) if lo != -INF else 0.0
        hi = math.sqrt(hi) * (1 + 1e-12) if hi != INF else INF
        return Atom("sqrt", "sqrt%d" % len(ST.atoms), arg=body, lo=lo, hi=hi)

    return atom_sym(get_atom("sqrt", body, mk))


def _nice(c):
    """snap a rational that is a rounded simple fraction"""
    if c.denominator <= 10**6:
        return c
    n = c.limit_denominator(10**4)
    if n != 0 and abs(n - c) <= abs(c) * Fraction(1, 10**12):
        return n
    return Fraction("%.11e" % fl(c))


def _exp_mono(a, b):
    hit = False
    for s in (a, b):
        if len(s.t) != 1:
            return False
        ((m, c),) = s.t.items()
        if c <= 0:
            return False
        for i, e in m:
            at = ST.atoms[i]
            if at.kind == "exp":
                hit = True
            elif at.kind != "var" or at.lo <= 0:
                return False
    return hit


def sym_exp(s):
    s = lift(s)
    out = Sym.const(1)
    for m, c in s.t.items():
        if m == ONE:
            out = out * Sym.const(Fraction(math.exp(float(c))))
            continue
        if len(m) == 1 and m[0][1] == 1 and ST.atoms[m[0][0]].kind == "log":
            arg = ST.atoms[m[0][0]].arg
            cc = _nice(c)
            if cc.denominator == 1:
                out = out * arg ** int(cc)
                continue
            if cc.denominator == 2:
                out = out * arg.sqrt() ** int(cc.numerator)
                continue

        def mk(m=m):
            base = Sym({m: Fraction(1)})
            lo, hi = bounds(base)
            return Atom(
                "exp",
                "exp%d" % len(ST.atoms),
                arg=base,
                lo=math.exp(max(lo, -700)) * (1 - 1e-12) if lo > -700 else 0.0,
                hi=math.exp(hi) * (1 + 1e-12) if hi < 700 else INF,
            )

        a = get_atom("exp", m, mk)
        out = out * Sym({((a.id, _nice(c)),): Fraction(1)})
    return out


def sym_log(s):
    s = lift(s)
    if s.is_const():
        return Sym.const(Fraction(math.log(float(s.cval()))))
    if len(s.t) == 1:
        ((m, c),) = s.t.items()
        if c > 0 and all(ST.atoms[a].lo >= 0 for a, e in m):
            out = Sym.const(Fraction(math.log(float(c)))) if c != 1 else ZERO
            for a, e in m:
                at = ST.atoms[a]
                if at.kind == "exp":
                    out = out + at.arg * Sym.const(e)
                elif at.kind == "sqrt":
                    out = out + sym_log(at.arg) * Sym.const(Fraction(1, 2) * e)
                elif at.kind == "den":
                    out = out + sym_log(at.arg) * Sym.const(e)
                else:
                    out = out + _log_atom(atom_sym(at)) * Sym.const(e)
            return out
    mx = max(abs(c) for c in s.t.values())
    lead = max(m for m, c in s.t.items() if abs(c) * 10**13 >= mx)
    lc = abs(s.t[lead])
    if lc != 1:
        body = Sym({m: c / lc for m, c in s.t.items()})
        return _log_atom(body) + Sym.const(Fraction(math.log(float(lc))))
    return _log_atom(s)


def _log_atom(body):
    def mk():
        lo, hi = bounds(body)
        return Atom(
            "log",
            "log%d" % len(ST.atoms),
            arg=body,
            lo=math.log(lo) - 1e-12 if lo > 0 else -INF,
            hi=math.log(hi) + 1e-12 if 0 < hi < INF else INF,
        )

    return atom_sym(get_atom("log", body, mk))


def _sign_norm(s):
    mx = max(abs(c) for c in s.t.values())
    lead = max(m for m, c in s.t.items() if abs(c) * 10**13 >= mx)
    if s.t[lead] < 0:
        return -s, -1
    return s, 1


def _trig(s):
    def mkc():
        return Atom("cos", "cos%d" % len(ST.atoms), arg=s, lo=-1.0, hi=1.0)

    c = get_atom("cos", s, mkc)

    def mks():
        return Atom("sin", "sin%d" % len(ST.atoms), arg=s, lo=-1.0, hi=1.0, extra=c)

    return c, get_atom("sin", s, mks)


def sym_cos(s):
    s = lift(s)
    if s.is_const():
        return Sym.const(Fraction(math.cos(float(s.cval()))))
    a = _single(s, "arccos")
    if a is not None:
        return a.arg
    s, _ = _sign_norm(s)
    return atom_sym(_trig(s)[0])


def _single(s, kind):
    if len(s.t) == 1:
        ((m, c),) = s.t.items()
        if abs(c - 1) < Fraction(1, 10**13) and len(m) == 1 and m[0][1] == 1 and ST.atoms[m[0][0]].kind == kind:
            return ST.atoms[m[0][0]]
    return None


def sym_sin(s):
    s = lift(s)
    if s.is_const():
        return Sym.const(Fraction(math.sin(float(s.cval()))))
    a = _single(s, "arccos")
    if a is not None:
        return sym_sqrt(Sym.const(1) - a.arg * a.arg)
    s, sg = _sign_norm(s)
    r = atom_sym(_trig(s)[1])
    return r if sg > 0 else -r


def sym_abs(s):
    s = lift(s)
    if s.is_const():
        return Sym.const(abs(s.cval()))
    lo, hi = bounds(s)
    if lo >= 0:
        return s
    if hi <= 0:
        return -s
    s, _ = _sign_norm(s)

    def mk():
        return Atom(
            "abs",
            "abs%d" % len(ST.atoms),
            arg=s,
            sort="I" if is_int(s) else "R",
            lo=0.0,
            hi=max(abs(lo), abs(hi)),
        )

    return atom_sym(get_atom("abs", s, mk))


def sym_round(s):
    s = lift(s)
    if s.is_const():
        return Sym.const(round(s.cval()))
    if is_int(s):
        return s
    lo, hi = bounds(s)
    if lo != -INF and hi != INF:
        k = math.floor(lo + 0.5)
        if k - 0.5 < lo and hi < k + 0.5:
            return Sym.const(k)

    def mk():
        return Atom("round", "rnd%d" % len(ST.atoms), arg=s, sort="I", lo=lo - 0.5, hi=hi + 0.5)

    return atom_sym(get_atom("round", s, mk))


def floordiv(a, b):
    if b.is_const() and a.is_const():
        return Sym.const(a.cval() // b.cval())
    if b.is_const() and b.cval() == 1 and is_int(a):
        return a

    def mk():
        lo, hi = -INF, INF
        if b.is_const():
            l, h = bounds(a)
            c = fl(b.cval())
            l, h = sorted((l / c, h / c))
            lo = l if l == -INF else float(math.floor(l))
            hi = h if h == INF else float(math.floor(h))
        return Atom("floordiv", "fdiv%d" % len(ST.atoms), arg=a, sort="I", extra=b, lo=lo, hi=hi)

    return atom_sym(get_atom("floordiv", (a.key(), b.key()), mk))


def atom_arctan2(y, x):
    def mk():
        return Atom("arctan2", "atan%d" % len(ST.atoms), arg=y, extra=x, lo=-math.pi, hi=math.pi)

    return atom_sym(get_atom("arctan2", (y.key(), x.key()), mk))


def sym_arccos(s):
    s = lift(s)
    if s.is_const():
        return Sym.const(Fraction(math.acos(float(s.cval()))))

    def mk():
        return Atom("arccos", "acos%d" % len(ST.atoms), arg=s, lo=0.0, hi=math.pi)

    return atom_sym(get_atom("arccos", s, mk))


def uf(name, args, lo=-INF, hi=INF):
    """uninterpreted function of symbolic/concrete arguments"""
    args = tuple(lift(a) for a in args)
    key = (name,) + tuple(a.key() for a in args)

    def mk():
        return Atom("uf", "%s_%d" % (name, len(ST.atoms)), arg=args, lo=lo, hi=hi)

    return atom_sym(get_atom("uf", key, mk))


# generic float/Sym elementary functions ------------------------------
def gsqrt(x):
    if type(x) is Sym:
        return x.sqrt()
    return math.sqrt(x)


# ---------------------------------------------------------------- bounds
def _imul(a, b):
    al, ah = a
    bl, bh = b

    def p(x, y):
        if x == 0 or y == 0:
            return 0.0
        return x * y

    v = (p(al, bl), p(al, bh), p(ah, bl), p(ah, bh))
    return min(v), max(v)


def ipow(lo, hi, e):
    if e == 1:
        return lo, hi
    if e < 0:
        if lo > 0:
            a, b = ipow(lo, hi, -e)
            return (0.0 if b == INF else 1 / b), (1 / a if a > 0 else INF)
        if hi < 0:
            a, b = ipow(lo, hi, -e)
            if a > 0 or b < 0:
                x, y = (1 / b if b not in (0, INF, -INF) else 0.0), (1 / a if a not in (0, INF, -INF) else 0.0)
                return min(x, y), max(x, y)
        return -INF, INF
    if e % 1 != 0:
        if lo < 0:
            return -INF, INF
        return float(lo) ** float(e), (INF if hi == INF else float(hi) ** float(e))
    e = int(e)
    try:
        if e % 2 == 0:
            if lo >= 0:
                return lo**e, hi**e
            if hi <= 0:
                return hi**e, lo**e
            return 0.0, max(lo**e, hi**e)
        return lo**e, hi**e
    except OverflowError:
        return -INF, INF


def mono_bounds(m):
    b = (1.0, 1.0)
    for a, e in m:
        at = ST.atoms[a]
        b = _imul(b, ipow(float(at.lo), float(at.hi), e))
    lo, hi = b
    if lo != -INF:
        lo -= abs(lo) * 1e-12
    if hi != INF:
        hi += abs(hi) * 1e-12
    return lo, hi


def fl(c):
    try:
        return float(c)
    except OverflowError:
        return INF if c > 0 else -INF


def bounds(s):
    lo = hi = 0.0
    for m, c in s.t.items():
        ml, mh = mono_bounds(m)
        c = fl(c)
        if c >= 0:
            a, b = _imul((c, c), (ml, mh))
        else:
            a, b = _imul((c, c), (ml, mh))
        lo += a
        hi += b
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
    return lo, hi


def magnitude(s):
    """sum |c| max|m| -- the natural scale of the expression on the box"""
    tot = 0.0
    for m, c in s.t.items():
        ml, mh = mono_bounds(m)
        mm = max(abs(ml), abs(mh))
        tot += abs(fl(c)) * (mm if mm != INF else 0.0)
    return tot


# ---------------------------------------------------------------- booleans
class SymBool:
    """z3-backed boolean over polynomials: ('cmp', poly, op) / and / or / not"""

    __slots__ = ("k", "a")

    def __init__(self, k, a):
        self.k = k
        self.a = a

    def __bool__(self):
        ex = ST.explorer
        if ex is None:
            raise Unsupported("branch on symbolic value outside exploration")
        return ex.branch(self)

    def __and__(self, o):
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def logical_not(self):
        return snot(self)

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        if self.k == "cmp":
            return "(%s %s 0)" % (pretty(self.a[0]), self.a[1])
        return "%s%r" % (self.k, self.a)


def compare(d, op):
    """d op 0 -> bool or SymBool; constant folding and interval reasoning"""
    if d.is_const():
        c = d.cval()
        return {
            "<": c < 0,
            "<=": c <= 0,
            ">": c > 0,
            ">=": c >= 0,
            "==": c == 0,
            "!=": c != 0,
        }[op]
    lo, hi = bounds(d)
    if lo > 0:
        return op in (">", ">=", "!=")
    if hi < 0:
        return op in ("<", "<=", "!=")
    if lo >= 0 and op in (">=", "<"):
        return op == ">="
    if hi <= 0 and op in ("<=", ">"):
        return op == "<="
    return SymBool("cmp", (d, op))


NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def snot(b):
    if isinstance(b, SymBool):
        if b.k == "cmp":
            return SymBool("cmp", (b.a[0], NEG[b.a[1]]))
        if b.k == "not":
            return b.a[0]
        if b.k == "and":
            return SymBool("or", tuple(snot(x) for x in b.a))
        if b.k == "or":
            return SymBool("and", tuple(snot(x) for x in b.a))
        return SymBool("not", (b,))
    return not b


def sand(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b)
        elif not b:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def sor(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b)
        elif b:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def concretise(s):
    ex = ST.explorer
    if ex is None:
        raise Unsupported("concretisation outside exploration")
    return ex.concretise(s)


# ---------------------------------------------------------------- z3 encoding
def z3num(c):
    return z3.RealVal(str(c.numerator)) / z3.RealVal(str(c.denominator)) if c.denominator != 1 else z3.RealVal(str(c.numerator))


class Encoder:
    """Encodes Syms to z3 exactly (nonlinear products, axioms for atoms)."""

    def __init__(self, linear=False):
        self.linear = linear
        self.seen = set()
        self.monos = {}
        self.axioms = []

    def use_atom(self, aid):
        if aid in self.seen:
            return
        self.seen.add(aid)
        a = ST.atoms[aid]
        v = a.zvar()
        if a.lo != -INF:
            self.axioms.append(v >= z3.RealVal(str(Fraction(a.lo))) if a.sort == "R" else v >= math.ceil(a.lo))
        if a.hi != INF:
            self.axioms.append(v <= z3.RealVal(str(Fraction(a.hi))) if a.sort == "R" else v <= math.floor(a.hi))
        if a.kind == "den":
            e = self.poly(a.arg)
            if not self.linear:
                self.axioms.append(v == e)
                self.axioms.append(v != 0)
        elif a.kind == "sqrt":
            e = self.poly(a.arg)
            if not self.linear:
                self.axioms.append(v * v == e)
            self.axioms.append(v >= 0)
        elif a.kind == "abs":
            e = self.poly(a.arg)
            self.axioms.append(z3.Or(v == e, v == -e))
        elif a.kind == "round":
            e = self.poly(a.arg)
            self.axioms.append(z3.And(e - v <= z3.RealVal("1/2"), v - e <= z3.RealVal("1/2")))
        elif a.kind == "floordiv":
            e = self.poly(a.arg)
            if a.extra.is_const():
                b = z3num(a.extra.cval())
                if a.extra.cval() > 0:
                    self.axioms.append(z3.And(b * v <= e, e < b * v + b))
                else:
                    self.axioms.append(z3.And(b * v >= e, e > b * v + b))
            else:
                b = self.poly(a.extra)
                self.axioms.append(
                    z3.If(b > 0, z3.And(b * v <= e, e < b * v + b), z3.And(b * v >= e, e > b * v + b))
                )
        elif a.kind == "exp":
            self.axioms.append(v > 0)
            e = self.poly(a.arg)
            # sign facts: exp(x) >= 1+x, monotone wrt 0
            self.axioms.append(v >= 1 + e)
            self.axioms.append((v >= 1) == (e >= 0))
        elif a.kind == "log":
            e = self.poly(a.arg)
            self.axioms.append(e > 0)
            self.axioms.append(v <= e - 1)
            self.axioms.append((v >= 0) == (e >= 1))
        elif a.kind in ("cos", "sin"):
            other = ST.index.get(("sin" if a.kind == "cos" else "cos", akey(a.arg)))
            if other is not None and not self.linear:
                self.use_atom(other.id)
                w = other.zvar()
                self.axioms.append(v * v + w * w == 1)

    def mono(self, m):
        if m == ONE:
            return z3.RealVal(1)
        for a, e in m:
            self.use_atom(a)
        if self.linear and not (len(m) == 1 and m[0][1] == 1):
            v = self.monos.get(m)
            if v is None:
                v = z3.Real("m_" + "_".join("%d^%s" % x for x in m))
                self.monos[m] = v
                lo, hi = mono_bounds(m)
                if lo != -INF:
                    self.axioms.append(v >= z3.RealVal(str(Fraction(lo))))
                if hi != INF:
                    self.axioms.append(v <= z3.RealVal(str(Fraction(hi))))
            return v
        r = None
        for a, e in m:
            at = ST.atoms[a]
            v = at.zvar()
            if at.sort == "I":
                v = z3.ToReal(v)
            if e % 1 != 0:
                p = z3.Real("p_%d_%s" % (a, e))
                if ("p", a, e) not in self.seen:
                    self.seen.add(("p", a, e))
                    self.axioms.append(p > 0)
                    n, d = e.numerator, e.denominator
                    if abs(n) + d < 12:
                        l = p
                        for _ in range(d - 1):
                            l = l * p
                        rr = v
                        for _ in range(abs(n) - 1):
                            rr = rr * v
                        if n > 0:
                            self.axioms.append(l == rr)
                        else:
                            self.axioms.append(l * rr == 1)
                t = p
            else:
                e = int(e)
                t = v
                for _ in range(abs(e) - 1):
                    t = t * v
                if e < 0:
                    q = z3.Real("inv_%d_%d" % (a, e))
                    if ("inv", a, e) not in self.seen:
                        self.seen.add(("inv", a, e))
                        self.axioms.append(q * t == 1)
                    t = q
            r = t if r is None else r * t
        return r

    def poly(self, s):
        if not s.t:
            return z3.RealVal(0)
        parts = []
        for m, c in s.t.items():
            z = self.mono(m)
            if z.sort() == z3.IntSort():
                z = z3.ToReal(z)
            parts.append(z3num(c) * z if c != 1 else z)
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def boolean(self, b):
        if isinstance(b, SymBool):
            if b.k == "cmp":
                d, op = b.a
                e = self.intpoly(d) if is_intlinear(d) else self.poly(d)
                return {
                    "<": lambda: e < 0,
                    "<=": lambda: e <= 0,
                    ">": lambda: e > 0,
                    ">=": lambda: e >= 0,
                    "==": lambda: e == 0,
                    "!=": lambda: e != 0,
                }[op]()
            if b.k == "not":
                return z3.Not(self.boolean(b.a[0]))
            parts = [self.boolean(x) for x in b.a]
            return z3.And(parts) if b.k == "and" else z3.Or(parts)
        return z3.BoolVal(bool(b))

    def intpoly(self, s):
        parts = []
        for m, c in s.t.items():
            if m == ONE:
                parts.append(z3.IntVal(int(c)))
                continue
            a = m[0][0]
            self.use_atom(a)
            parts.append(int(c) * ST.atoms[a].zvar())
        return z3.Sum(parts) if parts else z3.IntVal(0)


def is_intlinear(s):
    for m, c in s.t.items():
        if c.denominator != 1:
            return False
        if m == ONE:
            continue
        if len(m) != 1 or m[0][1] != 1 or ST.atoms[m[0][0]].sort != "I":
            return False
    return True


# ---------------------------------------------------------------- clear denominators
def clear_den(s):
    """multiply by the (nonzero) denominators; returns an expression that is zero
    iff s is zero (wherever the denominators are nonzero)."""
    for _ in range(200):
        worst = None
        for m in s.t:
            for a, e in m:
                if e < 0 and ST.atoms[a].kind == "den":
                    if worst is None or a > worst[0]:
                        worst = (a, e)
                    elif a == worst[0] and e < worst[1]:
                        worst = (a, e)
        if worst is None:
            return s
        aid = worst[0]
        k = -min(e for m in s.t for a, e in m if a == aid)
        f = ((aid, k),)
        out = ZERO
        for m, c in s.t.items():
            mm = mono_mul(m, f)
            if mono_needs_reduce(mm):
                out = out + reduce_mono(mm) * c
            else:
                out = out + Sym({mm: c})
        s = out
    raise Unsupported("clear_den")


# ---------------------------------------------------------------- differentiation
def diff(s, v):
    """derivative of Sym s with respect to input atom (Sym v: single var)"""
    s = lift(s)
    ((m, c),) = v.t.items()
    vid = m[0][0]
    memo = {}

    def datom(aid):
        if aid in memo:
            return memo[aid]
        a = ST.atoms[aid]
        if aid == vid:
            r = Sym.const(1)
        elif a.kind == "var":
            r = ZERO
        elif a.kind == "den":
            r = dpoly(a.arg)
        elif a.kind == "sqrt":
            d = dpoly(a.arg)
            r = d / (2 * atom_sym(a)) if d.t else ZERO
        elif a.kind == "exp":
            r = dpoly(a.arg) * atom_sym(a)
        elif a.kind == "log":
            d = dpoly(a.arg)
            r = d / a.arg if d.t else ZERO
        elif a.kind == "cos":
            d = dpoly(a.arg)
            r = -d * sym_sin(a.arg) if d.t else ZERO
        elif a.kind == "sin":
            d = dpoly(a.arg)
            r = d * sym_cos(a.arg) if d.t else ZERO
        elif a.kind == "abs":
            d = dpoly(a.arg)
            r = d * a.arg / atom_sym(a) if d.t else ZERO
        elif a.kind in ("round", "floordiv"):
            r = ZERO
        else:
            d = [x for x in (a.arg if isinstance(a.arg, tuple) else (a.arg,)) if dpoly(x).t]
            if d:
                raise Unsupported("derivative of " + a.kind)
            r = ZERO
        memo[aid] = r
        return r

    def dpoly(p):
        out = ZERO
        for m, c in p.t.items():
            for i, (a, e) in enumerate(m):
                da = datom(a)
                if not da.t:
                    continue
                rest = list(m)
                if e - 1 == 0:
                    del rest[i]
                else:
                    rest[i] = (a, e - 1)
                mm = tuple(rest)
                base = reduce_mono(mm) if mono_needs_reduce(mm) else Sym({mm: Fraction(1)})
                out = out + base * da * Sym.const(c * Fraction(e))
        return out

    return dpoly(s)


def subst(s, env):
    """replace input atoms (id -> number) by numbers, through all functions"""
    memo = {}

    def at(aid):
        if aid in memo:
            return memo[aid]
        a = ST.atoms[aid]
        if aid in env:
            r = lift(env[aid])
        elif a.kind == "var":
            r = atom_sym(a)
        elif a.kind == "den":
            r = po(a.arg)
        elif a.kind == "sqrt":
            r = lift(sym_sqrt(po(a.arg)))
        elif a.kind == "exp":
            r = lift(sym_exp(po(a.arg)))
        elif a.kind == "log":
            r = lift(sym_log(po(a.arg)))
        elif a.kind == "cos":
            r = lift(sym_cos(po(a.arg)))
        elif a.kind == "sin":
            r = lift(sym_sin(po(a.arg)))
        elif a.kind == "abs":
            r = lift(sym_abs(po(a.arg)))
        else:
            raise Unsupported("substitution into " + a.kind)
        memo[aid] = r
        return r

    def po(p):
        out = ZERO
        for m, c in p.t.items():
            t = Sym.const(c)
            for a, e in m:
                t = t * at(a) ** e
            out = out + t
        return out

    return po(lift(s))


# ---------------------------------------------------------------- numeric evaluation
def evaluate(s, env, memo=None):
    """evaluate with floats; env: atom id -> float for 'var' (and uf) atoms"""
    if memo is None:
        memo = {}

    def ea(aid):
        if aid in memo:
            return memo[aid]
        a = ST.atoms[aid]
        if a.kind == "var" or a.kind == "uf":
            v = env[aid]
        elif a.kind == "den":
            v = ep(a.arg)
        elif a.kind == "sqrt":
            v = math.sqrt(max(ep(a.arg), 0.0))
        elif a.kind == "exp":
            v = math.exp(ep(a.arg))
        elif a.kind == "log":
            v = math.log(ep(a.arg))
        elif a.kind == "cos":
            v = math.cos(ep(a.arg))
        elif a.kind == "sin":
            v = math.sin(ep(a.arg))
        elif a.kind == "abs":
            v = abs(ep(a.arg))
        elif a.kind == "round":
            v = float(round(ep(a.arg)))
        elif a.kind == "floordiv":
            v = float(ep(a.arg) // ep(a.extra))
        elif a.kind == "arctan2":
            v = math.atan2(ep(a.arg), ep(a.extra))
        elif a.kind == "arccos":
            v = math.acos(min(1.0, max(-1.0, ep(a.arg))))
        else:
            raise Unsupported("evaluate " + a.kind)
        memo[aid] = v
        return v

    def ep(p):
        tot = 0.0
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                x = ea(a)
                v *= x ** (int(e) if e % 1 == 0 else float(e))
            tot += v
        return tot

    return ep(lift(s))
