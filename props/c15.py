"""Restart: a simulation rebuilt from its checkpoint continues as if it had not
been interrupted."""

import numbers

from symx.base import harness, ListPrng
from props.common import *

V_ = False
PRELOAD = PRE + ["ipi.engine.simulation", "ipi.inputs.simulation", "ipi.engine.initializer", "ipi.engine.motion.dynamics", "ipi.engine.motion", "ipi.pes.dummy", "ipi.utils.io.inputs.io_xml"]
BOUNDS = "one checkpoint taken at the start of, or after, a step; 1-2 atoms, 1-3 beads; arbitrary state, forces and random numbers; checkpoint precision."


class P(ListPrng):
    def gamma(self, k, theta=1.0):
        self.log.append(("gam", k))
        return theta * (k + 0.25)

    get_gamma = gamma

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.cx.np.zeros(size) + 0.25

    def shuffle(self, x, axis=0):
        pass

    def poisson(self, lam=1.0, size=None):
        return 1

    def integers(self, low, high=None, size=None, **k):
        self.k_ = getattr(self, "k_", 0) + 1
        return (self.k_ - 1) % high

    def load(self, vals):
        self.k_ = 0
        return super().load(vals)


def arr(cx, a, name, extra=""):
    f = a.reshape(-1)
    return "<%s shape='(%s)'%s> [ %s ] </%s>" % (name, ", ".join(str(x) for x in a.shape), extra, ", ".join("%16.8e" % x for x in f), name)


def val(name, v, extra=""):
    return "<%s%s> %16.8e </%s>" % (name, extra, v, name)


def doc(cx, nbeads, natoms, motion, ens="", nm="", forces=None, names=None, extra="", cell=None, step=0, attrs="", masses=None, few=False, out="", ff="<ffdirect name='ff'><pes>dummy</pes></ffdirect>"):
    np = cx.np
    if few is None:
        # everything but what is given is concrete
        q = (np.arange(nbeads * 3 * natoms) * 0.375).reshape((nbeads, 3 * natoms))
        p = 1.0 - q
        real = lambda n, a, b: 0.5 * (a + b)
    else:
        q = cx.reals("q", (nbeads, 3 * natoms), -2, 2)
        p = cx.reals("p", (nbeads, 3 * natoms), -2, 2)
        real = cx.real
    if few:
        q[:, 1:] = 0.75
        p[:, 1:] = -0.25
    m = cx.reals("m", (natoms,), 0.5, 2) if masses is None else np.array(masses[:natoms])
    if cell is None:
        cell = np.identity(3) * 20.0
    names = names or ["H", "O", "C"][:natoms]
    return """<simulation verbosity='quiet' %s> <step> %d </step> <total_steps> 100 </total_steps>
    <prng><seed> 7 </seed></prng>
    <output prefix='x'><properties stride='3' filename='o'> [ step, time ] </properties> %s </output>
    %s %s
    <system prefix='s'>
    <beads natoms='%d' nbeads='%d'> %s %s %s <names> [ %s ] </names></beads>
    %s
    <forces> %s </forces>
    <ensemble> %s %s %s %s </ensemble> %s
    <motion mode='%s'> %s </motion>
    </system></simulation>""" % (
        attrs,
        step,
        out,
        ff,
        extra,
        natoms,
        nbeads,
        arr(cx, q, "q"),
        arr(cx, p, "p"),
        arr(cx, m, "m"),
        ", ".join(names),
        arr(cx, cell, "cell"),
        forces or "<force forcefield='ff'></force>",
        val("temperature", real("temp", 0.25, 2)),
        val("eens", real("eens", -2, 2)),
        val("time", real("time", 0, 9)),
        ens,
        nm,
        motion[0],
        motion[1],
    )


def load(cx, text, rnd, ffs=("ff",)):
    S = cx.mod("ipi.engine.simulation")
    stubs = {}

    def hook(sim):
        for n in ffs:
            ff = sim.fflist[n]
            nat = sim.syslist[0].beads.natoms
            st = uf_ff(cx, nat, n)
            stubs[n] = st
            ff.queue = st.queue
            ff.release = st.release
            ff.start = lambda: None
        for s in sim.syslist:
            s.prng = P(cx)
            s.prng.load(rnd)

    return S.Simulation.load_from_xml(text, read_only=True, post_init_hook=hook)


def checkpoint(cx, sim):
    I = cx.mod("ipi.inputs.simulation").InputSimulation()
    I.store(sim)
    I.step.store(sim.step + 1)
    return I.write(name="simulation")


def state(cx, s):
    D = cx.mod("ipi.utils.depend").dstrip
    r = {"positions": D(s.beads.q), "momenta": D(s.beads.p), "masses": D(s.beads.m), "cell": D(s.cell.h), "temperature": s.ensemble.temp, "pressure": s.ensemble.pext, "stress": D(s.ensemble.stressext), "ensemble energy": s.ensemble.eens, "elapsed time": s.ensemble.time}
    m = s.motion
    for mm in getattr(m, "mlist", [m]):
        t = getattr(mm, "thermostat", None)
        if t is not None:
            r["thermostat energy"] = t.ethermo
            if hasattr(t, "s"):
                r["thermostat momenta"] = D(t.s)
        b = getattr(mm, "barostat", None)
        if b is not None and hasattr(b, "p"):
            r["barostat momentum"] = D(b.p)
            r["barostat thermostat energy"] = b.thermostat.ethermo
            if hasattr(b, "h0"):
                r["reference cell"] = D(getattr(b.h0, "h", b.h0))
    return r


def compare(cx, a, b, what, tol):
    x, y = state(cx, a), state(cx, b)
    for k in x:
        cx.eq(x[k], y[k], "%s %s" % (k, what), tol=tol)
    cx.check([str(n) for n in a.beads.names] == [str(n) for n in b.beads.names], "labels")


def thermo(cx, kind, n=1):
    e = val("tau", 1.25)
    np = cx.np
    if kind == "":
        return ""
    if kind in ("gle", "nm_gle", "nm_gle_g"):
        A = np.array([[0.5, 0.25], [-0.25, 0.75]])
        if kind == "gle":
            return "<thermostat mode='gle'> %s %s %s</thermostat>" % (arr(cx, A, "A"), arr(cx, cx.reals("s", (2, n * 3), -1, 1), "s"), val("ethermo", cx.real("eth", -2, 2)))
        A = np.array([[[0.5, 0.25], [-0.25, 0.75]]] * 2)
        return "<thermostat mode='%s'> %s %s %s %s</thermostat>" % (kind, arr(cx, A, "A"), arr(cx, cx.reals("s", (2, 2, n * 3), -1, 1), "s"), e if kind == "nm_gle_g" else "", val("ethermo", cx.real("eth", -2, 2)))
    x = ""
    if kind.startswith("pile"):
        x = val("pile_lambda", 0.75) + val("pile_centroid_t", 0.5)
    if kind == "ffl":
        x = "<flip> soft </flip>"
    if kind == "cl":
        x = val("intau", 3.0) + val("idtau", 2.5) + val("apat", 0.0)
    if kind == "multi":
        return "<thermostat mode='multi'><thermostat mode='langevin'> %s %s</thermostat><thermostat mode='svr'> %s %s</thermostat></thermostat>" % (val("tau", 2.0), val("ethermo", cx.real("eth", -2, 2)), val("tau", 4.0), val("ethermo", cx.real("eth2", -2, 2)))
    return "<thermostat mode='%s'> %s %s %s</thermostat>" % (kind, e, x, val("ethermo", cx.real("eth", -2, 2)))


def baro(cx, kind):
    np = cx.np
    t = "<thermostat mode='langevin'> %s %s</thermostat>" % (val("tau", 3.0), val("ethermo", cx.real("beth", -2, 2)))
    if kind in ("isotropic", "sc-isotropic"):
        return "<barostat mode='%s'> %s %s %s</barostat>" % (kind, val("tau", 5.0), arr(cx, cx.reals("bp", (1,), -1, 1), "p"), t)
    p = np.zeros((3, 3), float)
    for i in range(3):
        for j in range(i, 3):
            p[i, j] = cx.real("bp%d%d" % (i, j), -1, 1)
    if kind == "anisotropic":
        h0 = np.identity(3) * 18.0
        h0[0, 1] = cx.real("h001", -1, 1)
        return "<barostat mode='anisotropic'> %s %s %s %s <hfix> [ xy ] </hfix></barostat>" % (val("tau", 5.0), arr(cx, p, "p"), arr(cx, h0, "h0"), t)
    return "<barostat mode='flexible'> %s %s %s <hfix> [ offdiagonal ] </hfix> <vol_constraint> %s </vol_constraint></barostat>" % (val("tau", 5.0), arr(cx, p, "p"), t, "True" if kind == "volume" else "False")


CFG = []
for th in ("langevin", "svr", "pile_l", "pile_g", "gle", "nm_gle", "nm_gle_g", "cl", "ffl", "multi"):
    CFG.append(dict(mode="nvt", th=th, ba="", nb=1 if th in ("langevin", "svr", "gle", "cl", "ffl", "multi") else 2, pre=th not in ("svr", "pile_g", "nm_gle_g", "ffl", "multi")))
CFG.append(dict(mode="nve", th="", ba="", nb=2, pre=True))
CFG.append(dict(mode="nvt-cc", th="pile_l", ba="", nb=2, pre=True))
CFG.append(dict(mode="sc", th="langevin", ba="", nb=2, pre=False))
for ba in ("isotropic", "flexible", "anisotropic", "volume"):
    CFG.append(dict(mode="nst" if ba == "anisotropic" else "npt", th="langevin", ba=ba, nb=1, pre=False))
SCNPT = [dict(mode="scnpt", th="langevin", ba="sc-isotropic", nb=2, pre=False)]


@harness(params=CFG, thorough=CFG + SCNPT, bounds="dynamics with every thermostat and barostat; the state arbitrary, checkpoint before and (where listed) after a step", tokens=True, witnesses=1, limit=100, ctimeout=100)
def dynamics(cx, mode, th, ba, nb, pre):
    """a step taken after reloading the checkpoint is the step the original takes"""
    np = cx.np
    r1 = [cx.real("r%d" % i, -2, 2) for i in range(24)]
    r2 = [cx.real("r%d" % i, -2, 2) for i in range(24, 64)]
    fixcom = th == "pile_l" or mode == "nve"
    spl = "splitting='baoab'" if mode not in ("sc", "scnpt", "nvt-cc") else ""
    sc = mode in ("sc", "scnpt")
    mo = "<dynamics mode='%s' %s> %s %s %s %s</dynamics> <fixcom> %s </fixcom>" % (mode, spl, val("timestep", cx.real("dt", 0.125, 0.5) if not ba and "gle" not in th and not sc else 0.25), thermo(cx, th), baro(cx, ba) if ba else "", "<nmts> [ 2 ] </nmts>" if mode == "nve" else "", "True" if fixcom else "False")
    ens = ""
    if ba == "sc-isotropic":
        ens = val("pressure", cx.real("pext", -1, 1))
    elif mode == "npt":
        ens = val("pressure", cx.real("pext", -1, 1))
    elif ba:
        ens = arr(cx, np.identity(3) * cx.real("sext", -1, 1), "stress")
    nm = "<normal_modes propagator='%s'></normal_modes>" % ("cayley" if mode == "nve" else "exact")
    nat = 2 if fixcom and nb == 1 else 1
    h = np.identity(3) * 20.0
    h[0, 1] = cx.real("h01", -1, 1) if mode != "scnpt" else 0.5
    few = ba in ("flexible", "volume", "anisotropic")
    if few:
        h[0, 1] = 0.5
        r2 = [x if i % 9 == 0 else 0.125 * (i % 5 - 2) for i, x in enumerate(r2)]
    if few:
        # (symbolic exponentials of the cell velocity are out of reach)
        cx.patch(cx.mod("ipi.engine.barostats"), "matrix_exp", lambda M, *a, **k: np.identity(len(M)) * 1.25)
    text = doc(cx, nb, nat, ("dynamics", mo), ens, nm, few=few, cell=h, masses=[1.25, 0.5] if sc or ba else None)
    A = load(cx, text, r1)
    a = A.syslist[0]
    if pre:
        a.motion.step(step=0)
        A.step = 0
    text2 = checkpoint(cx, A)
    B = load(cx, text2, r2)
    b = B.syslist[0]
    cx.check(B.step == A.step + 1, "step counter")
    compare(cx, a, b, "in the checkpoint", 1e-5)
    a.prng.load(r2)
    a.motion.step(step=1)
    b.motion.step(step=1)
    compare(cx, a, b, "after the next step", 1e-4)
    cx.eq(a.ensemble.econs, b.ensemble.econs, "conserved quantity", tol=1e-4)


# ---------------------------------------------------------------------------
# every option of the input survives


def isnum(x):
    return type(x).__name__ == "Sym" or (isinstance(x, numbers.Number) and not isinstance(x, bool))


def isarr(x):
    return hasattr(x, "shape") and hasattr(x, "reshape")


def variants(cx, cls, name, spec, shapes):
    """XML fragments giving an option an arbitrary value that is not its default"""
    V = cx.mod("ipi.utils.inputvalue")
    kind, kw = spec[0], spec[1]
    dt, df, opts = kw.get("dtype"), kw.get("default", None), kw.get("options")
    tmap = {cx.float: float, cx.inttype: int}
    dt = [tmap.get(t, t) for t in dt] if isinstance(dt, (list, tuple)) else tmap.get(dt, dt)
    if kind in (V.InputValue,):
        if opts:
            return ["<%s> %s </%s>" % (name, o, name) for o in opts if o != df]
        if dt is bool:
            return ["<%s> %s </%s>" % (name, not df, name)]
        if dt is int:
            return ["<%s> %d </%s>" % (name, (df or 0) + 1, name)]
        if dt is str:
            return ["<%s> zz </%s>" % (name, name)]
        return [val(name, cx.real("o_" + name, 0.25, 0.75))]
    if kind is V.InputArray:
        out = []
        for sh in shapes:
            if dt is int:
                a = cx.np.arange(int(cx.np.prod(sh))).reshape(sh) % 3
                out.append("<%s shape='%s'> [ %s ] </%s>" % (name, "(%s)" % ", ".join(str(x) for x in sh), ", ".join(str(int(x)) for x in a.reshape(-1)), name))
            elif dt is str:
                out.append("<%s> [ %s ] </%s>" % (name, ", ".join("n%d" % i for i in range(sh[0])), name))
            elif dt is bool:
                out.append("<%s shape='(%d,)'> [ %s ] </%s>" % (name, sh[0], ", ".join("True" if i % 2 else "False" for i in range(sh[0])), name))
            else:
                out.append(arr(cx, cx.reals("o_" + name + "x".join(str(x) for x in sh), tuple(sh), 0.25, 0.75), name))
        return out
    if kind is V.InputDictionary:
        parts = []
        for i, o in enumerate(opts or []):
            t = dt[i] if isinstance(dt, (list, tuple)) else dt
            v = "%16.8e" % cx.real("o_%s_%s" % (name, o), 0.25, 0.75) if t is float else ("5" if t is int else ("True" if t is bool else "zz"))
            parts.append("<%s> %s </%s>" % (o, v, o))
        return ["<%s> %s </%s>" % (name, " ".join(parts), name)]
    return []


SKIP = {"uid", "f_start", "seed", "messages", "rid", "feval", "threadlock", "thread", "hessian_init"}


def deep(cx, a, b, path, seen, depth=0):
    """compares what two freshly built objects are made of"""
    d = cx.mod("ipi.utils.depend")
    np = cx.np
    if id(a) in seen or depth > 14:
        return
    if isinstance(a, d.depend_base) or isinstance(a, d.depend_value):
        if getattr(a, "_func", None) is not None:
            return
        a, b = (a.get() if hasattr(a, "get") and not isinstance(a, d.depend_array) else d.dstrip(a)), (b.get() if hasattr(b, "get") and not isinstance(b, d.depend_array) else d.dstrip(b))
    t = type(a).__name__
    if a is None or isinstance(a, (str, bool)):
        cx.check(type(a) == type(b) and a == b, "%s" % path)
    elif isnum(a):
        cx.check(isnum(b), "%s" % path) if not isnum(b) else cx.eq(a, b, path, tol=1e-6)
    elif isarr(a):
        ok = isarr(b) and tuple(a.shape) == tuple(b.shape)
        cx.check(ok, "%s shape" % path)
        if ok and a.size:
            if all(isnum(x) for x in a.reshape(-1)):
                cx.eq(a, b, path, tol=1e-6)
            else:
                cx.check([str(x) for x in a.reshape(-1)] == [str(x) for x in b.reshape(-1)], path)
    elif isinstance(a, (list, tuple)):
        cx.check(isinstance(b, (list, tuple)) and len(a) == len(b), "%s length" % path)
        if isinstance(b, (list, tuple)) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                deep(cx, x, y, "%s[%d]" % (path, i), seen, depth + 1)
    elif isinstance(a, dict):
        cx.check(isinstance(b, dict) and list(a) == list(b), "%s keys" % path)
        if isinstance(b, dict):
            for k in a:
                if k in b and k not in SKIP:
                    deep(cx, a[k], b[k], "%s[%s]" % (path, k), seen, depth + 1)
    elif type(a).__module__.startswith("ipi."):
        seen[id(a)] = a
        cx.check(type(a) is type(b), "%s class" % path)
        if type(a) is type(b):
            for k, v in sorted(a.__dict__.items()):
                if k.lstrip("_") in SKIP or k in SKIP or not hasattr(b, k):
                    continue
                deep(cx, v, b.__dict__[k], "%s.%s" % (path, k.lstrip("_")), seen, depth + 1)


CASES = {}


def case(name, module, cls, mode, xml, shapes=(), skip=(), place="motion", **kw):
    CASES[name] = (module, cls, mode, xml, shapes, skip, place, kw)


GM = "<optimizer mode='%s'> @@ </optimizer>"
# options that the method does not use, or that hold nothing beyond a step
GN = {
    "sd": ("biggest_step", "old_direction", "old_force", "corrections_lbfgs", "glist_lbfgs", "qlist_lbfgs", "scale_lbfgs", "invhessian_bfgs", "hessian_trm", "tr_trm"),
    "cg": ("biggest_step", "corrections_lbfgs", "glist_lbfgs", "qlist_lbfgs", "scale_lbfgs", "invhessian_bfgs", "hessian_trm", "tr_trm"),
    "bfgs": ("old_force", "corrections_lbfgs", "glist_lbfgs", "qlist_lbfgs", "scale_lbfgs", "hessian_trm", "tr_trm"),
    "bfgstrm": ("ls_options", "old_force", "old_direction", "corrections_lbfgs", "glist_lbfgs", "qlist_lbfgs", "scale_lbfgs", "invhessian_bfgs"),
    "lbfgs": ("old_force", "invhessian_bfgs", "hessian_trm", "tr_trm"),
    "damped_bfgs": ("ls_options", "old_force", "old_direction", "corrections_lbfgs", "glist_lbfgs", "qlist_lbfgs", "scale_lbfgs", "hessian_trm", "tr_trm"),
}
for m in GN:
    case("geop-" + m, "ipi.inputs.motion.geop", "InputGeop", "minimize", GM % m, [(1, 6), (6, 6), (6,), (1,)], skip=("old_pos", "old_pot") + GN[m])
case("neb", "ipi.inputs.motion.neb", "InputNEB", "neb", "<neb_optimizer mode='fire'> @@ </neb_optimizer>", [(3, 6), (6, 6), (18,), (3,), (1, 6), (6,)], nb=3, skip=("corrections_lbfgs",))
HS = "<hessian shape='(6, 18)'> [ %s ] </hessian>" % ", ".join("%.4f" % ((i * 7 % 11) * 0.25 + (3.0 if i % 19 == 0 else 0.0)) for i in range(108))
IN = {"hessian": HS}
FRIC = ("hessian_init", "eta", "fric_hessian", "fric_spec_dens", "fric_spec_dens_ener", "frictionSD", "old_pos")
HES = ("hessian", "hessian_update", "hessian_asr")
LB = ("corrections_lbfgs", "glist_lbfgs", "qlist_lbfgs", "scale_lbfgs", "ls_options", "old_direction")
for m in ("nichols", "NR", "lanczos", "lbfgs"):
    case("instanton-" + m, "ipi.inputs.motion.instanton", "InputInst", "instanton", "<instanton mode='rate'> <opt> %s </opt> @@ </instanton>" % m, [(3, 6), (6, 18), (3,)], nb=3, base={} if m == "lbfgs" else IN, skip=("opt",) + FRIC + (HES if m == "lbfgs" else LB))
case("vibrations", "ipi.inputs.motion.phonons", "InputDynMatrix", "vibrations", "<vibrations mode='fd'> @@ </vibrations>", [(6, 6), (6,)])
case("scp", "ipi.inputs.motion.scphonons", "InputSCPhonons", "scp", "<scp mode='qn'> @@ </scp>", [(6, 6), (6,), (1, 6)], base={"max_steps": "<max_steps> 8 </max_steps>"}, skip=("random_type",))
case("normalmodes", "ipi.inputs.motion.vscf", "InputNormalMode", "normalmodes", "<normalmodes mode='imf'> @@ </normalmodes>", [(6,)], skip=("dynmat",))
case("alchemy", "ipi.inputs.motion.alchemy", "InputAlchemy", "alchemy", "<alchemy> @@ </alchemy>", [(2,)])
case("atomswap", "ipi.inputs.motion.atomswap", "InputAtomSwap", "atomswap", "<atomswap> @@ </atomswap>", [(2,)])
case("t_ramp", "ipi.inputs.motion.ramp", "InputTemperatureRamp", "t_ramp", "<t_ramp> @@ </t_ramp>")
case("p_ramp", "ipi.inputs.motion.ramp", "InputPressureRamp", "p_ramp", "<p_ramp> @@ </p_ramp>")
case("dynamics", "ipi.inputs.motion.dynamics", "InputDynamics", "dynamics", "<dynamics mode='nve'> @@ </dynamics>", [(1,), (2,)])
case("motion", "ipi.inputs.motion.motion", "InputMotionBase", "dynamics", "<dynamics mode='nve'></dynamics> @@", [(2,)])


I_ = "ipi.inputs."
case("ensemble", I_ + "ensembles", "InputEnsemble", "", "@@", [(1,), (3, 3)], place="ens", skip=("temperature", "eens", "time", "bias"), base={"bias": "<bias> <force forcefield='ff'></force></bias>"})
case("nm", I_ + "normalmodes", "InputNormalModes", "", "<normal_modes @A@> @@ </normal_modes>", [(1,), (2,)], place="nm", skip=("frequencies", "bosons"), nb=3)
case("frequencies", I_ + "normalmodes", "InputNormalModes", "", "<normal_modes> @@ </normal_modes>", [], place="nm", nb=3, custom=[("frequencies", "<frequencies style='%s'> [ 0.25, 0.5 ] </frequencies>" % st) for st in ("manual", "pa-cmd", "wmax-cmd", "pa-rpmd", "wmax-rpmd")] + [("bosons", "<bosons id='index'> [ 0, 1 ] </bosons>"), ("bosons", "<bosons id='label'> [ H, O ] </bosons>"), ("bosons", "<bosons> [ 1 ] </bosons>")])
case("force", I_ + "forces", "InputForceComponent", "", "<force forcefield='ff' @A@> @@ </force>", [(1,), (2,)], place="forces", nb=3)
case("biasforce", I_ + "forces", "InputForceComponent", "", "<bias> <force forcefield='ff' @A@> @@ </force></bias>", [(1,), (2,)], place="ens", nb=3)
case("ffsocket", I_ + "forcefields", "InputFFSocket", "", "<ffsocket name='fs' @A@> @@ </ffsocket>", [(2,)], place="extra", skip=("parameters",), attrs=("mode",))
case("ffdirect", I_ + "forcefields", "InputFFDirect", "", "<ffdirect name='fs' @A@> @@ </ffdirect>", [(2,)], place="extra", base={"pes": "<pes> harmonic </pes>", "parameters": "<parameters> { k1: 1.5 } </parameters>"}, custom=[("parameters", "<parameters> { k1: 2.5 } </parameters>"), ("pes", "<pes> dummy </pes>")], skip=("parameters", "pes"))
case("fflj", I_ + "forcefields", "InputFFLennardJones", "", "<fflj name='fs' @A@> @@ </fflj>", [(2,)], place="extra", base={"parameters": "<parameters> { eps: 0.5, sigma: 1.5 } </parameters>"}, custom=[("parameters", "<parameters> { eps: 0.75, sigma: 1.25 } </parameters>")], skip=("parameters",))
case("ffdebye", I_ + "forcefields", "InputFFDebye", "", "<ffdebye name='fs' @A@> @@ </ffdebye>", [(6,), (6, 6)], place="extra", skip=("parameters", "hessian"), custom=[("hessian", "<hessian shape='(6, 6)'> [ %s ] </hessian>" % ", ".join("%.2f" % (4.0 if i % 7 == 0 else 0.25 * (i % 6 + i // 6)) for i in range(36)))], base={"hessian": HS.replace("6, 18", "6, 6").split("]")[0].replace("[", "[ " + ", ".join(["1.0"] * 36) + "]<!--").split("]")[0] + "] </hessian>", "x_reference": "<x_reference> [ 0, 1, 2, 3, 4, 5 ] </x_reference>"})
case("ffdmd", I_ + "forcefields", "InputFFdmd", "", "<ffdmd name='fs' @A@> @@ </ffdmd>", [(1,)], place="extra", skip=("parameters",), base={"dmd_coupling": "<dmd_coupling> [ 0.25 ] </dmd_coupling>", "dmd_freq": "<dmd_freq> 0.5 </dmd_freq>", "dmd_dt": "<dmd_dt> 0.5 </dmd_dt>"})
case("ffcommittee", I_ + "forcefields", "InputFFCommittee", "", "<ffcommittee name='fs' @A@> <ffdirect name='c1'><pes>dummy</pes></ffdirect> <ffdirect name='c2'><pes>dummy</pes></ffdirect> @@ </ffcommittee>", [(2,)], place="extra", skip=("parameters",))
case("ffrotations", I_ + "forcefields", "InputFFRotations", "", "<ffrotations name='fs' @A@> <ffdirect name='c1'><pes>dummy</pes></ffdirect> @@ </ffrotations>", [(2,)], place="extra", skip=("parameters", "ffsocket", "ffdirect"))
case("ffcavph", I_ + "forcefields", "InputFFCavPhSocket", "", "<ffcavphsocket name='fs' @A@> @@ </ffcavphsocket>", [(2,), (6,)], place="extra", skip=("parameters",))
case("remd", I_ + "smotion.remd", "InputReplicaExchange", "", "<smotion mode='remd'> <remd> @@ </remd></smotion>", [(1,)], place="extra")
case("metad", I_ + "smotion.metad", "InputMetaDyn", "", "<smotion mode='metad'> <metad> @@ </metad></smotion>", [(1,)], place="extra", base={"metaff": "<metaff> [ ff ] </metaff>"})
case("dmd", I_ + "smotion.dmd", "InputDMD", "", "<smotion mode='dmd'> <dmd> @@ </dmd></smotion>", [(1,)], place="extra", base={"dmdff": "<dmdff> [ ff ] </dmdff>"})
case("properties", I_ + "outputs", "InputProperties", "", "<properties @A@> [ step, potential{electronvolt} ] </properties>", [], place="out")
case("trajectory", I_ + "outputs", "InputTrajectory", "", "<trajectory @A@> positions{angstrom} </trajectory>", [], place="out")
case("checkpoint", I_ + "outputs", "InputCheckpoint", "", "<checkpoint @A@> 3 </checkpoint>", [], place="out")
case("simulation", I_ + "simulation", "InputSimulation", "", "@@", [], place="extra", skip=("step", "total_steps", "output", "prng", "smotion"), attrplace="attrs", noattr=("verbosity", "floatformat"), customattr=[("floatformat", "floatformat='%20.12e'")])


@harness(params=[dict(name=n) for n in CASES], bounds="one option at a time, with any value", tokens=True, witnesses=1, limit=120, ctimeout=120)
def options(cx, name):
    """every option that can be set in the input is still in force after a restart"""
    module, cls, mode, xml, shapes, skip, place, kw = CASES[name]
    C = getattr(cx.mod(module), cls)
    fields = dict(getattr(C, "fields", {}))
    base = kw.get("base", {})
    todo = [(f, v, "") for f, v in kw.get("custom", [])]
    for f in sorted(fields):
        if f not in skip and not (name == "frequencies"):
            todo += [(f, v, "") for v in variants(cx, C, f, fields[f], shapes)]
    if "@A@" in xml or "attrplace" in kw:
        for f, spec in sorted(getattr(C, "attribs", {}).items()):
            if f not in ("name", "units", "shape", "verbosity", "forcefield", "mode" if place == "out" else "") + tuple(kw.get("noattr", ())):
                for v in variants(cx, C, f, (cx.mod("ipi.utils.inputvalue").InputValue, spec[1]), shapes):
                    todo.append((f, "", "%s='%s'" % (f, v[len(f) + 2 : -len(f) - 3].strip())))
    todo += [(f, "", a) for f, a in kw.get("customattr", [])]
    motion = (mode, xml) if place == "motion" else ("dynamics", "<dynamics mode='nve'></dynamics>")
    done = set()
    for f, v, at in todo:
        rest = " ".join(base[k] for k in base if k != f)
        t = lambda x: x.replace("@@", v + rest).replace("@A@", at)
        more = {place: t(xml)} if place != "motion" else {}
        if kw.get("attrplace") and at:
            more["attrs"] = at
        text = doc(cx, kw.get("nb", 1), 2, (motion[0], t(motion[1])), few=None, masses=[1.25, 0.5], **more)
        try:
            A = load(cx, text, [])
        except (ValueError, TypeError, KeyError, AttributeError, IndexError, NameError, SystemExit) as e:
            if V_:
                print("SKIP", name, f, type(e), str(e)[:100], file=open("/tmp/skip.log", "a"))
            continue
        done.add(f)
        B = load(cx, checkpoint(cx, A), [])
        A.step = A.step + 1
        deep(cx, A, B, "%s %s:" % (name, f), {})
        if V_ and hasattr(cx, "failures"):
            for x in cx.failures:
                print("FAIL", str(x)[:150], file=open("/tmp/skip.log", "a"))
            pass
    if V_:
        for f in {x[0] for x in todo} - done:
            print("NONE", name, f, file=open("/tmp/skip.log", "a"))


RAMP = "<motion mode='t_ramp'> <t_ramp> %s %s <total_steps> 7 </total_steps> <current_step> 3 </current_step> <logscale> %s </logscale></t_ramp></motion>"
LANG = "<motion mode='dynamics'> <dynamics mode='nvt'> <timestep> 0.25 </timestep> <thermostat mode='langevin'> <tau> 2.0 </tau> %s</thermostat></dynamics> <fixcom> False </fixcom> <fixatoms_dof> [ 1, 2 ] </fixatoms_dof></motion>"


@harness(params=[dict(kind=k) for k in ("ramp", "logramp", "swap", "alchemy", "fixed")], bounds="a list of motions; two atoms, one bead (two for alchemy); checkpoint after a step", tokens=True, witnesses=1, limit=120, ctimeout=100)
def composite(cx, kind):
    """composite motions continue where they were"""
    np = cx.np
    eth = val("ethermo", cx.real("eth", -2, 2))
    nb = 2 if kind == "alchemy" else 1
    if kind in ("ramp", "logramp"):
        m = RAMP % (val("t_start", cx.real("t0", 0.25, 0.5)), val("t_end", cx.real("t1", 1, 2)), "True" if kind == "logramp" else "False") + LANG % eth
    elif kind == "swap":
        m = "<motion mode='atomswap'> <atomswap> <names> [ H, O ] </names> <nxc> 1 </nxc> %s </atomswap></motion>" % val("ealc", cx.real("ea", -2, 2)) + LANG % eth
    elif kind == "alchemy":
        m = "<motion mode='alchemy'> <alchemy> <names> [ H, O ] </names> <nxc> 1 </nxc> %s </alchemy></motion>" % val("ealc", cx.real("ea", -2, 2)) + LANG % eth
    else:
        m = LANG % eth + LANG.replace("langevin", "svr") % val("ethermo", cx.real("eth2", -2, 2))
    r1 = [cx.real("r%d" % i, 0.0625, 0.9375) for i in range(24)]
    r2 = [cx.real("r%d" % i, 0.0625, 0.9375) for i in range(24, 64)]
    text = doc(cx, nb, 2, ("multi", m), masses=[1.25, 0.5], few=kind in ("swap", "alchemy"))
    A = load(cx, text, r1)
    a = A.syslist[0]
    if kind != "fixed":
        a.motion.step(step=0)
    A.step = 0
    B = load(cx, checkpoint(cx, A), r2)
    b = B.syslist[0]
    compare(cx, a, b, "in the checkpoint", 1e-5)
    a.prng.load(r2)
    a.motion.step(step=1)
    b.motion.step(step=1)
    compare(cx, a, b, "after the next step", 1e-4)
    for x, y in zip(a.motion.mlist, b.motion.mlist):
        for k in ("ealc", "current_step"):
            if hasattr(x, k):
                cx.eq(getattr(x, k), getattr(y, k), k, tol=1e-5)
    cx.eq(a.ensemble.econs, b.ensemble.econs, "conserved quantity", tol=1e-4)


@harness(params=[dict(n=n) for n in (1, 3)], bounds="any state of the generators (a stand-in for numpy's)", tokens=True, witnesses=1)
def prng(cx, n):
    """the restarted generators go on with the sequence of the original ones"""
    np = cx.np
    U = cx.mod("ipi.utils.prng")
    I = cx.mod("ipi.inputs.prng")
    X = cx.mod("ipi.utils.io.inputs.io_xml")

    class Bits:
        def __init__(self, s=None):
            self.state = {"bit_generator": "MT19937", "state": {"key": np.zeros(3), "pos": 0}}

    class Gen:
        def __init__(self, b):
            self.bit_generator = b

        def uniform(self, *a, **k):
            s = self.bit_generator.state["state"]
            return cx.ufunc("u", [s["key"][0], s["key"][1], s["key"][2], s["pos"]], 1)[0]

    class R:
        Generator = Gen
        MT19937 = Bits

        class SeedSequence:
            def __init__(self, seed):
                pass

            def spawn(self, n):
                return list(range(n))

    class NP:
        random = R

        def __getattr__(self, k):
            return getattr(np, k)

    cx.patch(U, "np", NP())
    A = U.Random(seed=5, n_threads=n)
    if len(A.rng) != n or not isinstance(A.rng[0], Gen):
        raise HarnessLimit("generators not observed")
    for i in range(n):
        A.rng[i].bit_generator.state = {"bit_generator": "MT19937", "state": {"key": cx.reals("k%d" % i, 3, 0, 4), "pos": 3 + i}}
    J = I.InputRandom()
    J.store(A)
    K = I.InputRandom()
    K.parse(X.xml_parse_string(J.write("prng")).fields[0][1])
    B = K.fetch()
    cx.check(B.n_threads == n and len(B.rng) == n, "number of threads")
    for i in range(n):
        s, t = A.rng[i].bit_generator.state, B.rng[i].bit_generator.state
        cx.eq(np.array(s["state"]["key"]), np.array(t["state"]["key"]), "state of generator %d" % i)
        cx.eq(s["state"]["pos"], t["state"]["pos"], "position of generator %d" % i)
    cx.eq(A.u, B.u, "next number")
