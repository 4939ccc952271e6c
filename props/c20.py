"""Replica exchange: acceptance, restoration, bookkeeping."""

from symx.base import harness
from props.common import *

PRELOAD = PRE + ["ipi.engine.smotion.remd"]
BOUNDS = "2-3 systems, 1 atom, 1-2 beads, constant-volume and isotropic constant-pressure dynamics, with and without GLE thermostats; any temperatures, pressures, potentials, bias and force weights, momenta and random numbers; non-equilibrium GLE matrices and external stress differences below 1e-10 are outside."


class UPrng(Stub):
    """uniform numbers: any values"""

    def __init__(self, cx, tag):
        self.cx, self.tag, self.n, self.log = cx, tag, 0, []

    @property
    def u(self):
        self.n += 1
        v = self.cx.real("%s%d" % (self.tag, self.n), 0.001, 0.999)
        self.log.append(v)
        return v


class Out(Stub):
    def __init__(self):
        self.text = ""

    def get_output(self, name, *a, **k):
        return self

    def write(self, s):
        self.text += s

    def force_flush(self):
        pass


def gle(cx):
    T = cx.mod("ipi.engine.thermostats")
    return T.ThermoGLE(temp=1.0, dt=0.5, A=cx.np.array([[1.0, 0.3], [-0.3, 0.7]]), ethermo=0.0)


def system(cx, k, nb, kind, thermo, hw, bw, T0=None, light=False):
    np = cx.np
    D = cx.mod("ipi.engine.motion").Dynamics
    B = cx.mod("ipi.engine.barostats")
    T = cx.mod("ipi.engine.thermostats")
    t = "s%d" % k
    ffs = {"fa": uf_ff(cx, 1, "fa", vir=False), "fb": uf_ff(cx, 1, "fb", vir=False), "bias": uf_ff(cx, 1, "bias", vir=False)}
    comps = [component(cx, "fa"), component(cx, "fb", weight=1.5)]
    ek = {}
    if hw:
        ek["hweights"] = np.asarray([cx.real(t + "h%d" % i, 0.25, 1) for i in range(2)])
    if bw:
        ek["bcomponents"] = [component(cx, "bias")]
        ek["bweights"] = np.asarray([cx.real(t + "b", 0.25, 1)])
    tau = 2.0
    kw = {}
    th, bth = None, None
    if thermo == "gle":
        th, bth = gle(cx), gle(cx)
    elif thermo == "multi":
        th = T.MultiThermo(temp=1.0, dt=0.5, thermolist=[T.ThermoLangevin(temp=1.0, dt=0.5, tau=2.0, ethermo=0.0), gle(cx)])
    elif thermo == "langevin":
        th = T.ThermoLangevin(temp=1.0, dt=0.5, tau=2.0, ethermo=0.0)
    if kind == "npt":
        ek["pext"] = 0.125 * k if light else cx.real(t + "pext", -0.25, 0.25)
        kw["barostat"] = B.BaroBZP(p=cx.real(t + "P", 0.5, 2), tau=tau, **({"thermostat": bth} if bth else {}))
    elif kind == "nst":
        S = np.zeros((3, 3), float)
        for i in range(3):
            for j in range(i, 3):
                S[i, j] = S[j, i] = cx.real(t + "S%d%d" % (i, j), -1, 1) if i == j else 0.125 * (i + j) * (k + 1)
        ek["stressext"] = S
        P = np.zeros((3, 3), float)
        P[0, 0] = cx.real(t + "P", 0.5, 2)
        P[0, 1] = 0.5
        kw["barostat"] = B.BaroRGB(p=P, tau=tau, h0=cx.mod("ipi.engine.cell").Cell(h=np.identity(3) * (3.0 + 0.5 * k)), **({"thermostat": bth} if bth else {}))
    mot = D(timestep=0.5, mode=kind, thermostat=th or T.Thermostat(), **kw)
    if thermo == "multimotion":
        th = gle(cx)
        mot = cx.mod("ipi.engine.motion").MultiMotion(motionlist=[D(timestep=0.5, mode=kind, thermostat=th, **kw), D(timestep=0.5, mode="nve", thermostat=gle(cx))])
    h = np.identity(3) * 2.0
    if kind != "nvt":
        h = h * (1.0 + 0.25 * k)
    q = np.zeros((nb, 3), float)
    for b in range(nb):
        q[b] = [cx.real(t + "q%d" % b, -1, 1) if b == 0 and nb > 1 else 0.5 * b, 0.25 * k, -0.5 + 0.25 * b]
    p = np.zeros((nb, 3), float)
    for b in range(nb):
        p[b] = [cx.real(t + "p%d" % b, -1, 1) if b == 0 else 0.75, 0.5, -0.25 * k]
    s = build(cx, nb, 1, motion=mot, ffs=ffs, comps=comps, ens_kw=ek, temp=cx.real(t + "T", 0.75, 1.25) ** 2 if T0 is None else T0[k], cell=make_cell(cx, h), beads=make_beads(cx, nb, 1, masses=np.asarray([1.25]), q=q, p=p), prng=cx.prng(t + "rnd"))
    s.kind, s.nb, s.hasb = kind, nb, bw
    s.gles = []
    mots = mot.mlist if thermo == "multimotion" else [mot]
    for m in mots:
        ths = m.thermostat.tlist if thermo == "multi" else [m.thermostat]
        if kind != "nvt" and bth:
            ths = ths + [m.barostat.thermostat]
        s.gles += [x for x in ths if hasattr(x, "s")]
    for i, x in enumerate(s.gles):
        v = np.zeros(x.s.shape, float)
        v.reshape(-1)[:] = 0.25
        v.reshape(-1)[-1] = cx.real(t + "s%d" % i, -1, 1)
        x.s = v
    return s


def state(cx, s):
    """everything an attempted exchange may touch"""
    D = cx.mod("ipi.utils.depend").dstrip
    e = s.ensemble
    d = dict(temp=e.temp, pext=e.pext, stress=D(e.stressext).copy(), bw=D(e.bweights).copy(), hw=D(e.hweights).copy(), p=D(s.beads.p).copy(), q=D(s.beads.q).copy(), m=D(s.beads.m).copy(), h=D(s.cell.h).copy(), eens=e.eens, econs=e.econs, lpens=e.lpens)
    for i, x in enumerate(s.gles):
        d["gle%d" % i] = D(x.s).copy()
    if s.kind != "nvt" and hasattr(s.motion, "barostat"):
        b = s.motion.barostat
        d["bp"] = D(b.p).copy()
        if hasattr(b, "h0"):
            d["h0"] = D(b.h0.h).copy()
    return d


ENS = ("temp", "pext", "stress", "bw", "hw")
SYS = ("q", "m", "h")


def logp(cx, s, d, e, scale):
    """log probability of the configuration d in the ensemble e (the energies
    re-evaluated from the force providers)"""
    np = cx.np
    C = cx.mod("ipi.utils.units").Constants
    nb = s.nb
    U = 0.0
    for b in range(nb):
        v = [s.fflist[n].fun(d["q"][b], d["h"])[0] for n in ("fa", "fb", "bias")]
        U = U + e["hw"][0] * v[0] + e["hw"][1] * 1.5 * v[1]
        if s.hasb:
            U = U + e["bw"][0] * v[2]
    kT = C.kb * e["temp"]
    ratio = e["temp"] / d["temp"] if scale else 1.0
    kin = (d["p"] ** 2).sum() / 2.0 / d["m"][0] * ratio
    spring = 0.0
    w2 = (kT * nb / C.hbar) ** 2
    for b in range(nb):
        if nb > 1:
            spring = spring + 0.5 * d["m"][0] * w2 * ((d["q"][b] - d["q"][b - 1]) ** 2).sum()
    tot = U + kin + spring
    x = -tot / (kT * nb)
    if s.kind == "npt":
        V = d["h"][0, 0] * d["h"][1, 1] * d["h"][2, 2]
        x = x - e["pext"] * V / kT
        x = x + np.log(V)
        # piston mass 3 N tau^2 kT: its momentum is rescaled by the ratio of temperatures
        W = 3.0 * 1 * 2.0**2 * kT * nb
        bp = d["bp"].reshape(-1)[0] * ratio
        x = x - bp**2 / (2.0 * W) / (kT * nb)
    return x


def swapped(cx, a, b, n, krescale, what):
    """system a holds its own configuration and the ensemble b had"""
    np = cx.np
    for k in ENS:
        cx.eq(n[k], b[k], what + ": %s is the one of the other system" % k)
    for k in SYS:
        cx.eq(n[k], a[k], what + ": %s untouched" % k)
    r = b["temp"] / a["temp"]
    cx.eq(n["p"], a["p"] * np.sqrt(r) if krescale else a["p"], what + ": momenta follow the temperature")
    if "bp" in a:
        cx.eq(n["bp"], a["bp"] * r if krescale else a["bp"], what + ": piston momentum follows the temperature")
    if "h0" in a:
        cx.eq(n["h0"], b["h0"], what + ": reference cell goes with the ensemble")
    for k in a:
        if k.startswith("gle"):
            cx.eq(n[k][1:], a[k][1:] * np.sqrt(r), what + ": auxiliary thermostat momenta keep their distribution")


def same(cx, a, n, what):
    for k in a:
        if k == "lpens":
            continue
        cx.eq(n[k], a[k], what + ": %s is as before" % k)


TT = ((1.0, 0.25), (0.25, 1.0), (0.5, 0.5))
CASES = (
    [dict(kind="nvt", nb=1, thermo="gle", krescale=True, hw=True, bw=False), dict(kind="nvt", nb=1, thermo="multimotion", krescale=True, hw=False, bw=True)]
    + [dict(kind="nvt", nb=2, thermo="langevin", krescale=True, hw=False, bw=True, T0=t) for t in TT]
    + [dict(kind="nvt", nb=2, thermo="multi", krescale=False, hw=True, bw=True, T0=t) for t in TT[:2]]
    + [dict(kind="npt", nb=1, thermo="gle", krescale=True, hw=False, bw=False, T0=t) for t in TT]
    + [dict(kind="npt", nb=2, thermo="langevin", krescale=True, hw=True, bw=True, T0=TT[0]), dict(kind="npt", nb=1, thermo="langevin", krescale=False, hw=False, bw=True, T0=TT[1]), dict(kind="nst", nb=1, thermo="langevin", krescale=True, hw=False, bw=False, T0=TT[0])]
)


@harness(params=CASES, bounds="two systems, one attempt", witnesses=1, limit=200)
def exchange(cx, kind, nb, thermo, krescale, hw, bw, T0=None):
    """an attempted exchange is accepted exactly with the ratio of the joint
    probabilities; if accepted the ensembles change places, otherwise nothing
    changes; the conserved quantity never jumps"""
    np = cx.np
    RE = cx.mod("ipi.engine.smotion.remd").ReplicaExchange
    S = [system(cx, k, nb, kind, thermo, hw, bw, T0) for k in range(2)]
    out = Out()
    pr = UPrng(cx, "u")
    stride = cx.real("stride", 1, 3) if T0 is None else 2.0
    rx = RE(stride=stride, krescale=krescale)
    rx.bind(S, pr, out)
    A = [state(cx, s) for s in S]
    rx.step(7)
    N = [state(cx, s) for s in S]
    cx.check(len(pr.log) in (1, 2), "one number decides on the attempt, one on the acceptance")
    for k in range(2):
        cx.eq(N[k]["econs"], A[k]["econs"], "conserved quantity is continuous", tol=1e-7)
    tried = len(pr.log) == 2
    if tried:
        cx.check(1.0 / stride >= pr.log[0], "an exchange is tried with probability 1/stride")
    else:
        cx.check(1.0 / stride <= pr.log[0], "an exchange is tried with probability 1/stride")
    done = list(rx.repindex) != [0, 1]
    if not done:
        for k in range(2):
            same(cx, A[k], N[k], "no exchange")
        cx.check(out.text == "", "nothing is written without an exchange")
    else:
        cx.check(list(rx.repindex) == [1, 0], "the replica index records the exchange")
        cx.check(out.text.split() == ["7", "1", "0"], "the exchange is written with its step")
        for k in range(2):
            swapped(cx, A[k], A[1 - k], N[k], krescale, "exchange")
    if tried and kind != "nst":
        x = 0.0
        for k in range(2):
            a = {**A[k]}
            x = x + logp(cx, S[k], a, A[1 - k], krescale) - logp(cx, S[k], a, A[k], False)
        cx.eq(A[0]["lpens"] + A[1]["lpens"], logp(cx, S[0], A[0], A[0], False) + logp(cx, S[1], A[1], A[1], False), "probability of the configurations", tol=1e-7)
        if done:
            cx.eq(N[0]["lpens"] + N[1]["lpens"] - A[0]["lpens"] - A[1]["lpens"], x, "change of probability", tol=1e-7)
            cx.check(np.exp(x) >= pr.log[1] * (1 - 1e-9), "accepted only with the ratio of probabilities")
        else:
            cx.check(np.exp(x) <= pr.log[1] * (1 + 1e-9), "rejected only with one minus the ratio of probabilities")


@harness(params=[dict(kind="nvt"), dict(kind="npt")], bounds="three systems, every pair attempted once", witnesses=1, limit=200, max_paths=64)
def three(cx, kind):
    """with several systems each pair is attempted in turn: the replica index is
    a permutation saying which ensemble every system has now, the written line
    carries it, and each configuration has momenta of its present temperature"""
    np = cx.np
    RE = cx.mod("ipi.engine.smotion.remd").ReplicaExchange
    S = [system(cx, k, 1, kind, "none", False, False, (1.0, 0.25, 4.0), light=True) for k in range(3)]
    out = Out()
    pr = UPrng(cx, "u")
    start = [2, 0, 1] if cx.bool("restart") else [0, 1, 2]
    rx = RE(stride=1.0, krescale=True, repindex=np.asarray(start))
    rx.bind(S, pr, out)
    A = [state(cx, s) for s in S]
    rx.step(3)
    N = [state(cx, s) for s in S]
    ri = [int(x) for x in rx.repindex]
    cx.check(sorted(ri) == [0, 1, 2], "the replica index is a permutation")
    for k in range(3):
        src = start.index(ri[k])
        cx.eq(N[k]["econs"], A[k]["econs"], "conserved quantity is continuous", tol=1e-7)
        if src == k:
            same(cx, A[k], N[k], "unmoved")
        else:
            swapped(cx, A[k], A[src], N[k], True, "exchange")
    if ri != start:
        cx.check([int(x) for x in out.text.split()] == [3] + ri, "the line written is the new replica index")


@harness(params=[dict()], bounds="two systems, two steps", witnesses=1, limit=100)
def twice(cx):
    """every accepted round appends one line, in order"""
    np = cx.np
    RE = cx.mod("ipi.engine.smotion.remd").ReplicaExchange
    S = [system(cx, k, 1, "nvt", "none", False, True, (1.0, 0.25)) for k in range(2)]
    out = Out()
    rx = RE(stride=1.0)
    rx.bind(S, UPrng(cx, "u"), out)
    exp = []
    cur = [0, 1]
    A = [state(cx, s) for s in S]
    for step in (4, 9):
        rx.step(step)
        n = [int(x) for x in rx.repindex]
        if n != cur:
            exp.append([step] + n)
        cur = n
    cx.check([[int(x) for x in l.split()] for l in out.text.splitlines()] == exp, "one line per step with exchanges")
    N = [state(cx, s) for s in S]
    for k in range(2):
        if cur == [0, 1]:
            same(cx, A[k], N[k], "two exchanges or none")
        else:
            swapped(cx, A[k], A[1 - k], N[k], True, "one exchange")


@harness(params=[dict()], bounds="repindex of a wrong length, stride zero", witnesses=1)
def setup(cx):
    """a replica index that does not fit is refused; stride 0 switches exchanges
    off"""
    np = cx.np
    RE = cx.mod("ipi.engine.smotion.remd").ReplicaExchange
    S = [system(cx, k, 1, "nvt", "none", False, True) for k in range(2)]
    bad = False
    try:
        RE(stride=1.0, repindex=np.asarray([0, 1, 2])).bind(S, UPrng(cx, "u"), Out())
    except ValueError:
        bad = True
    cx.check(bad, "a replica index of the wrong size is refused")
    rx = RE(stride=0.0)
    pr = UPrng(cx, "u")
    rx.bind(S, pr, Out())
    A = [state(cx, s) for s in S]
    rx.step(1)
    N = [state(cx, s) for s in S]
    for k in range(2):
        same(cx, A[k], N[k], "switched off")
    cx.check(list(rx.repindex) == [0, 1] and pr.log == [], "no attempt with stride zero")
