"""Path exploration and discharge of obligations with z3."""

import math
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import ST, Sym, SymBool, SymC, Encoder, Infeasible, Unsupported, lift, is_sym, compare

INF = float("inf")


class PathLimit(Exception):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.feas_queries = 0
        self.oblig = 0
        self.queries = 0
        self.unsat = 0
        self.solver_s = 0.0
        self.cut = 0
        self.unknown_feas = 0
        self.max_terms = 0


class Explorer:
    def __init__(self, fn, params, seed=1, max_paths=400, time_limit=120.0, feas_timeout=1500, token_mode=False):
        self.fn = fn
        self.params = params
        self.seed = seed
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.feas_timeout = feas_timeout
        self.token_mode = token_mode
        self.st = Stats()
        self.stack = [[]]
        self.violations = []  # dicts(label, inputs, why)
        self.inconclusive = []
        self.errors = []
        self.models = []  # path witnesses
        self.exhaustive = True
        self.labels = {}

    # ---------------------------------------------------------- decisions
    def _solver(self):
        s = z3.Solver()
        s.set("timeout", self.feas_timeout)
        s.set("random_seed", self.seed)
        return s

    def sync(self):
        """push axioms the encoder produced since the last call"""
        ax = self.enc.axioms
        while self.nax < len(ax):
            self.solver.add(ax[self.nax])
            self.nax += 1

    def feasible(self, b=None):
        if b is None:
            z = z3.BoolVal(True)
        else:
            z = self.enc.boolean(b)
            self.sync()
        t = time.time()
        r = self.solver.check(z)
        self.st.solver_s += time.time() - t
        self.st.feas_queries += 1
        if r == z3.unknown:
            self.st.unknown_feas += 1
            # cheap numeric witness search / refutation is not attempted: unknown = feasible
            return True
        return r == z3.sat

    def assume(self, b):
        if isinstance(b, SymBool):
            if not self.feasible(b):
                raise Infeasible()
            self.add(b)
        elif not b:
            raise Infeasible()

    def add(self, b):
        self.pc.append(b)
        z = self.enc.boolean(b)
        self.sync()
        self.solver.add(z)

    def branch(self, b):
        self.st.branches += 1
        k = repr_key(b)
        if k in self.known:
            return self.known[k]
        if time.time() > self.deadline:
            raise PathLimit("time limit in exploration")
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.add(b if d else core.snot(b))
        else:
            nb = core.snot(b)
            ft = self.feasible(b)
            ff = self.feasible(nb) if ft else True
            if not ft:
                d = False
            else:
                d = True
                if ff:
                    self.stack.append(self.prefix[: self.pos] + [False])
            self.prefix = self.prefix[: self.pos] + [d]
            self.pos += 1
            self.add(b if d else nb)
        self.known[k] = d
        nk = repr_key(core.snot(b))
        self.known[nk] = not d
        return d

    def concretise(self, s, limit=64):
        k = ("c", s.key())
        if k in self.known:
            return self.known[k]
        if self.pos < len(self.prefix):
            v, last = self.prefix[self.pos]
            self.pos += 1
        else:
            vals = []
            e = self.enc.intpoly(s) if core.is_intlinear(s) else self.enc.poly(s)
            self.sync()
            self.solver.push()
            while len(vals) <= limit:
                t = time.time()
                r = self.solver.check()
                self.st.solver_s += time.time() - t
                self.st.feas_queries += 1
                if r != z3.sat:
                    if r == z3.unknown:
                        self.exhaustive = False
                    break
                m = self.solver.model().eval(e, model_completion=True)
                v = int(m.as_long()) if z3.is_int_value(m) else int(m.as_fraction())
                vals.append(v)
                self.solver.add(e != v)
            self.solver.pop()
            if len(vals) > limit:
                self.exhaustive = False
                vals = vals[:limit]
            if not vals:
                raise Infeasible()
            vals.sort()
            for v in reversed(vals[1:]):
                self.stack.append(self.prefix[: self.pos] + [(v, True)])
            v = vals[0]
            self.prefix = self.prefix[: self.pos] + [(v, True)]
            self.pos += 1
        self.add(SymBool("cmp", (s - v, "==")))
        self.known[k] = v
        return v

    def tick(self):
        if time.time() > self.deadline:
            raise PathLimit("time limit in exploration")

    # ---------------------------------------------------------- tokens
    def token(self, s):
        k = s.key()
        t = self.tok.get(k)
        if t is None:
            n = len(self.tok)
            t = (1001 + n) / 1000.0
            if n > 8900:
                raise Unsupported("too many tokens")
            self.tok[k] = t
            self.tokrev[1001 + n] = s
        return t

    def untoken(self, v):
        r = round(v * 1000)
        if abs(v * 1000 - r) < 1e-6 and r in self.tokrev:
            return self.tokrev[r]
        return v

    # ---------------------------------------------------------- inputs
    def new_input(self, name, lo, hi, sort="R"):
        s = core.var(name, lo, hi, sort)
        self.inputs[name] = s
        self.enc.use_atom(list(s.t)[0][0][0])
        return s

    # ---------------------------------------------------------- main loop
    def run(self):
        from .ctx import SymCtx

        while self.stack:
            if self.st.paths >= self.max_paths or time.time() > self.deadline:
                self.exhaustive = False
                self.st.cut += len(self.stack)
                break
            self.prefix = self.stack.pop()
            self.pos = 0
            ST.reset()
            ST.explorer = self
            self.enc = Encoder()
            self.nax = 0
            self.solver = self._solver()
            self.pc = []
            self.known = {}
            self.inputs = {}
            self.tok = {}
            self.tokrev = {}
            self.oblig = []
            self.ufs = {}
            cx = SymCtx(self)
            err = None
            try:
                self.fn(cx, **self.params)
            except Infeasible:
                cx.close()
                continue
            except PathLimit as e:
                self.exhaustive = False
                err = e
            except Exception as e:
                err = e
                tb = traceback.format_exc()
            cx.close()
            self.st.paths += 1
            self.discharge()
            if isinstance(err, PathLimit):
                self.inconclusive.append(dict(label="time limit", inputs=self.model_inputs()))
                break
            if err is not None:
                self.errors.append(
                    dict(
                        label=getattr(err, "label", None),
                        error="%s: %s" % (type(err).__name__, str(err)[:300]),
                        tb=tb[-1800:],
                        unsupported=isinstance(err, Unsupported),
                        inputs=self.model_inputs(),
                    )
                )
                if len(self.errors) >= 3:
                    self.exhaustive = False
                    break
            elif len(self.models) < 40:
                self.models.append(self.model_inputs())
            if len(self.violations) >= 4:
                self.exhaustive = False
                break
        ST.explorer = None
        return self

    # ---------------------------------------------------------- obligations
    def obligation(self, kind, label, data):
        self.st.oblig += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        self.oblig.append((kind, label, data))

    def discharge(self):
        eqs = []
        conds = []
        for kind, label, data in self.oblig:
            if kind == "fail":
                self.violate(label, self.model_inputs(), "concrete condition false on a feasible path")
            elif kind == "eq":
                eqs.append((label, data))
            else:
                conds.append((label, data))
        if eqs:
            self.discharge_eq(eqs)
        for label, b in conds:
            self.discharge_cond(label, b)

    def discharge_eq(self, eqs):
        # linear arithmetic over monomials, box bounds, path conditions
        suspicious = []
        chunk = 40
        for i in range(0, len(eqs), chunk):
            part = eqs[i : i + chunk]
            if self._lra(part):
                continue
            if len(part) == 1:
                suspicious += part
            else:
                for e in part:
                    if not self._lra([e]):
                        suspicious.append(e)
        nv = 0
        for label, (a, b, tol) in suspicious:
            if nv >= 3:
                break
            r = self._nonlinear_eq(label, a, b, tol)
            if r is False:
                nv += 1

    def _lra(self, part):
        enc = Encoder(linear=True)
        s = z3.SolverFor("QF_LRA") if not any(a.sort == "I" for a in ST.atoms) else z3.Solver()
        s.set("timeout", 20000)
        neg = []
        for label, (a, b, tol) in part:
            pa, pb = enc.poly(a), enc.poly(b)
            self.st.max_terms = max(self.st.max_terms, len(a.t), len(b.t))
            t = z3.RealVal(str(Fraction(tol)))
            neg.append(z3.Or(pa - pb > t, pb - pa > t))
        for b in self.pc:
            try:
                s.add(enc.boolean(b))
            except Exception:
                pass
        s.add(*enc.axioms)
        s.add(z3.Or(neg))
        t = time.time()
        r = s.check()
        self.st.solver_s += time.time() - t
        self.st.queries += 1
        if r == z3.unsat:
            self.st.unsat += 1
            return True
        return False

    def _nonlinear_eq(self, label, a, b, tol):
        d = a - b
        # numeric witnesses first (cheap), from points satisfying the path condition
        best = self.sample(d, tol)
        if best is not None:
            self.violate(label, best[1], "|lhs-rhs| = %.3g at the witness" % best[0])
            return False
        try:
            c = core.clear_den(d)
            if core.magnitude(c) <= tol * 1e-3:
                self.st.unsat += 1
                return True
            if self._lra([(label, (c, core.ZERO, tol))]):
                return True
        except Unsupported:
            pass
        cond = core.sor(compare(d - tol, ">"), compare(-d - tol, ">"))
        if cond is False:
            return True
        return self.discharge_cond(label, core.snot(cond))

    def discharge_cond(self, label, b):
        if b is True:
            return True
        nb = core.snot(b)
        z = self.enc.boolean(nb)
        self.sync()
        s = z3.Solver()
        s.set("timeout", 20000)
        s.set("random_seed", self.seed)
        s.add(self.solver.assertions())
        s.add(z)
        t = time.time()
        r = s.check()
        self.st.solver_s += time.time() - t
        self.st.queries += 1
        if r == z3.unsat:
            self.st.unsat += 1
            return True
        if r == z3.sat:
            self.violate(label, self.read_model(s.model()), "solver model")
            return False
        w = self.sample_cond(nb)
        if w is not None:
            self.violate(label, w, "sampled witness")
            return False
        self.inconclusive.append(dict(label=label, inputs=self.model_inputs()))
        return None

    def violate(self, label, inputs, why):
        self.violations.append(dict(label=label, inputs=inputs, why=why))

    # ---------------------------------------------------------- models
    def read_model(self, m):
        out = {}
        for n, s in self.inputs.items():
            a = ST.atoms[list(s.t)[0][0][0]]
            v = m.eval(a.zvar(), model_completion=False)
            out[n] = conv(v, a)
        return out

    def model_inputs(self):
        """some point of the path: prefer a generic random interior point that
        satisfies the path condition, else a solver model"""
        rng = random.Random(self.seed + self.st.paths)
        for _ in range(40):
            env, named = self.draw(rng)
            if self.holds(env):
                return named
        t = time.time()
        r = self.solver.check()
        self.st.solver_s += time.time() - t
        self.st.feas_queries += 1
        if r == z3.sat:
            return self.read_model(self.solver.model())
        return named

    def draw(self, rng, base=None):
        env = {}
        named = {}
        for n, s in self.inputs.items():
            a = ST.atoms[list(s.t)[0][0][0]]
            lo = a.lo if a.lo != -INF else -4.0
            hi = a.hi if a.hi != INF else 4.0
            if a.sort == "I":
                v = rng.randint(int(math.ceil(lo)), int(math.floor(hi)))
            else:
                v = rng.uniform(lo, hi)
            env[a.id] = v
            named[n] = v
        if base:
            for n, v in base.items():
                a = ST.atoms[list(self.inputs[n].t)[0][0][0]]
                env[a.id] = v
                named[n] = v
        return env, named

    def holds(self, env, extra=None):
        memo = {}
        try:
            for b in self.pc:
                if not ev_bool(b, env, memo):
                    return False
            if extra is not None and not ev_bool(extra, env, memo):
                return False
        except Unsupported:
            return True
        except (ValueError, ZeroDivisionError, OverflowError):
            return False
        return True

    def sample(self, d, tol, n=120):
        rng = random.Random(self.seed * 7919 + 13)
        best = None
        tries = 0
        good = 0
        while tries < n * 4 and good < n:
            tries += 1
            env, named = self.draw(rng)
            if not self.holds(env):
                continue
            good += 1
            try:
                v = abs(core.evaluate(d, env))
            except (ValueError, ZeroDivisionError, OverflowError, Unsupported):
                continue
            if v > tol and (best is None or v > best[0]):
                best = (v, named)
            if best is not None and good > 20:
                break
        if best is None and good == 0:
            # path too thin for random points: perturb-free solver models
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(self.solver.assertions())
            if s.check() == z3.sat:
                m = self.read_model(s.model())
                env = {}
                for k, v in m.items():
                    env[list(self.inputs[k].t)[0][0][0]] = v
                try:
                    v = abs(core.evaluate(d, env))
                    if v > tol:
                        return (v, m)
                except (ValueError, ZeroDivisionError, OverflowError, Unsupported):
                    pass
        return best

    def sample_cond(self, nb, n=200):
        rng = random.Random(self.seed * 104729 + 7)
        for _ in range(n):
            env, named = self.draw(rng)
            if self.holds(env, nb):
                return named
        return None


def conv(v, a):
    try:
        if z3.is_int_value(v):
            return int(v.as_long())
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
    except Exception:
        pass
    lo = a.lo if a.lo != -INF else -1.0
    hi = a.hi if a.hi != INF else 1.0
    if a.sort == "I":
        return int(math.ceil(lo))
    return lo + 0.4142 * (hi - lo)


def ev_bool(b, env, memo):
    if not isinstance(b, SymBool):
        return bool(b)
    if b.k == "cmp":
        v = core.evaluate(b.a[0], env, memo)
        return {
            "<": v < 0,
            "<=": v <= 0,
            ">": v > 0,
            ">=": v >= 0,
            "==": v == 0,
            "!=": v != 0,
        }[b.a[1]]
    if b.k == "not":
        return not ev_bool(b.a[0], env, memo)
    if b.k == "and":
        return all(ev_bool(x, env, memo) for x in b.a)
    return any(ev_bool(x, env, memo) for x in b.a)


def repr_key(b):
    if b.k == "cmp":
        return ("cmp", b.a[0].key(), b.a[1])
    return (b.k,) + tuple(repr_key(x) if isinstance(x, SymBool) else x for x in b.a)
