"""Input documents: values, units and defaults survive being written and read."""

from symx.base import harness
from props.common import *

PRELOAD = ["ipi.utils.inputvalue", "ipi.utils.io.inputs.io_xml", "ipi.utils.io.inputs.io_json", "ipi.utils.units", "ipi.inputs.cell", "ipi.inputs.beads", "ipi.inputs.thermostats"]
BOUNDS = "arrays of up to 12 elements and 3 dimensions, arbitrary numbers (to the printed precision), strings without XML markup."

UN = [("energy", "electronvolt"), ("energy", "kilocal/mol"), ("time", "femtosecond"), ("temperature", "kelvin"), ("pressure", "megapascal"), ("mass", "dalton"), ("length", "angstrom"), ("frequency", "inversecm"), ("force", "ev/ang"), ("undefined", "automatic")]


def reparse(cx, inp, mk, name="tag"):
    X = cx.mod("ipi.utils.io.inputs.io_xml")
    txt = inp.write(name)
    n = mk()
    n.parse(X.xml_parse_string(txt).fields[0][1])
    return n


def prior(cx, inp, kind, dim, unit, arr=False):
    """history of the object before it is used: fresh, read from a file with its own
    units, or stored before"""
    X = cx.mod("ipi.utils.io.inputs.io_xml")
    np = cx.np
    if kind == "parsed":
        val = "[ 1.5, 2.5 ]" if arr else "1.5"
        inp.parse(X.xml_parse_string("<tag units='%s'> %s </tag>" % (unit, val)).fields[0][1])
    elif kind == "stored":
        inp.store(np.array([1.5, 2.5]) if arr else 1.5)
    elif kind == "stored_units":
        inp.store(np.array([1.5, 2.5]) if arr else 1.5, unit)


@harness(params=[dict(iu=i, hist=h) for i in range(len(UN)) for h in ("fresh", "parsed")] + [dict(iu=i, hist=h) for i in (1, 3) for h in ("stored", "stored_units")], bounds="any value; any earlier use of the same object", tokens=True, witnesses=1)
def float_values(cx, iu, hist):
    I = cx.mod("ipi.utils.inputvalue")
    dim, unit = UN[iu]
    conv = cx.mod("ipi.utils.units").unit_to_internal(dim, unit, 1.0)
    X = cx.mod("ipi.utils.io.inputs.io_xml")
    mk = lambda: I.InputValue(dtype=cx.float, default=0.25, dimension=dim, help="x")
    v = cx.real("v", -9, 9)
    # value given by the user, in the user's units
    i = mk()
    prior(cx, i, hist, dim, unit)
    i.parse(X.xml_parse_string("<tag units='%s'> %16.8e </tag>" % (unit, v)).fields[0][1])
    cx.eq(i.fetch() / conv, v, "value in the units given", tol=1e-5)
    # writing what was read and reading it again
    cx.eq(reparse(cx, i, mk).fetch() / conv, v, "read, written and read again", tol=1e-5)
    # value stored by the program
    i = mk()
    prior(cx, i, hist, dim, unit)
    i.store(v)
    cx.eq(i.fetch(), v, "stored value", tol=1e-5)
    cx.eq(reparse(cx, i, mk).fetch(), v, "stored, written and read", tol=1e-5)
    i = mk()
    prior(cx, i, hist, dim, unit)
    i.store(v, unit)
    cx.eq(i.fetch() / conv, v / conv, "stored with units", tol=1e-4)
    cx.eq(reparse(cx, i, mk).fetch() / conv, v / conv, "stored with units, written and read", tol=1e-4)


@harness(params=[dict(shape=s, iu=i, hist=h) for s, i, h in [((3,), 1, "fresh"), ((7,), 6, "parsed"), ((2, 3), 3, "parsed"), ((2, 3), 5, "stored"), ((1, 2, 3), 9, "fresh"), ((12,), 2, "fresh"), ((0,), 6, "parsed"), ((1,), 4, "parsed"), ((3, 1), 9, "fresh"), ((2, 5), 7, "stored_units")]], bounds="arrays of the listed shapes", tokens=True, witnesses=1)
def float_arrays(cx, shape, iu, hist):
    I = cx.mod("ipi.utils.inputvalue")
    np = cx.np
    dim, unit = UN[iu]
    X = cx.mod("ipi.utils.io.inputs.io_xml")
    conv = cx.mod("ipi.utils.units").unit_to_internal(dim, unit, 1.0)
    mk = lambda: I.InputArray(dtype=cx.float, default=I.input_default(factory=np.zeros, args=(0,)), dimension=dim, help="x")
    v = cx.reals("v", shape, -9, 9) if shape != (0,) else np.zeros(0, float)
    i = mk()
    prior(cx, i, hist, dim, unit, True)
    i.store(v)
    w = i.fetch()
    cx.check(tuple(w.shape) == tuple(v.shape), "shape")
    cx.eq(w, v, "stored array", tol=1e-5)
    w = reparse(cx, i, mk).fetch()
    cx.check(tuple(w.shape) == tuple(v.shape), "shape after reading")
    cx.eq(w, v, "stored, written and read", tol=1e-5)
    txt = "<tag units='%s' shape='(%s)'> [ %s ] </tag>" % (unit, ", ".join(str(x) for x in shape) + ("," if len(shape) == 1 else ""), ", ".join("%16.8e" % x for x in v.reshape(-1)))
    if len(shape) == 1:
        txt = txt.replace(",)'", ")'")
    i = mk()
    prior(cx, i, hist, dim, unit, True)
    i.parse(X.xml_parse_string(txt).fields[0][1])
    w = i.fetch()
    cx.check(tuple(w.shape) == tuple(v.shape), "shape given")
    if v.size:
        cx.eq(w / conv, v, "array in the units given", tol=1e-5)
    # what is handed out is not the storage
    if v.size and hist == "fresh":
        i = mk()
        i.store(v)
        w = i.fetch()
        w[...] = 0.0
        v2 = v.copy()
        cx.eq(i.fetch(), v2, "stored data is private", tol=1e-5)


@harness(params=[dict(kind=k) for k in ("int", "bool", "tuple", "str", "ints", "bools", "strs", "dict")], bounds="integers of either sign, all booleans, a few strings", tokens=True, witnesses=1)
def other_types(cx, kind):
    I = cx.mod("ipi.utils.inputvalue")
    np = cx.np
    n = [cx.conc(cx.int("n%d" % k, -1, 1)) * 7 ** (k + 1) for k in range(3)]
    b = [cx.bool("b%d" % k) for k in range(3)]
    if kind == "int":
        mk = lambda: I.InputValue(dtype=cx.inttype, default=3, help="x")
        i = mk()
        i.store(n[0])
        cx.check(i.fetch() == n[0] and reparse(cx, i, mk).fetch() == n[0], "integer")
    elif kind == "bool":
        mk = lambda: I.InputValue(dtype=bool, default=True, help="x")
        i = mk()
        i.store(b[0])
        r = reparse(cx, i, mk).fetch()
        cx.check(i.fetch() == b[0] and r == b[0] and type(r) is bool, "boolean")
    elif kind == "tuple":
        mk = lambda: I.InputArray(dtype=cx.float, default=I.input_default(factory=np.zeros, args=(0,)), help="x")
        i = mk()
        i.shape.store((abs(n[0]), 2))
        cx.check(i.shape.fetch() == (abs(n[0]), 2), "tuple")
    elif kind == "str":
        mk = lambda: I.InputValue(dtype=str, default="z", help="x")
        for s in ["abc", "a b", "simulation.out_3", "{x: 1}", "[a,b]", ""]:
            i = mk()
            i.store(s)
            cx.check(i.fetch() == s and reparse(cx, i, mk).fetch() == s, "string %r" % s)
    elif kind in ("ints", "bools", "strs"):
        dt, v = {"ints": (cx.inttype, n), "bools": (bool, b), "strs": (str, ["H", "O12", "a.b"])}[kind]
        v = v * 3
        mk = lambda: I.InputArray(dtype=dt, default=I.input_default(factory=np.zeros, args=(0, dt)), help="x")
        for m in (0, 1, 3, 6, 9):
            i = mk()
            i.store(np.array(v[:m], dtype=dt))
            cx.check(list(i.fetch()) == v[:m], "array of %s" % kind)
            cx.check([x for x in reparse(cx, i, mk).fetch()] == v[:m], "array of %s read back" % kind)
    else:
        mk = lambda: I.InputValue(dtype=dict, default={}, help="x")
        i = mk()
        d = {"a": n[0], "k": "text", "flag": b[0], "c-d": 2.5}
        i.store(d)
        r = reparse(cx, i, mk).fetch()
        cx.check(r == d and all(type(r[k]) is type(d[k]) for k in d), "dictionary")
        i.store({})
        cx.check(reparse(cx, i, mk).fetch() == {}, "empty dictionary")


def node_eq(a, b):
    if a.name != b.name or {k: str(v) for k, v in a.attribs.items()} != {k: str(v) for k, v in b.attribs.items()}:
        return False
    fa = [(k, v.strip() if k == "_text" else v) for k, v in a.fields]
    fb = [(k, v.strip() if k == "_text" else v) for k, v in b.fields]
    fa = [x for x in fa if x != ("_text", "")]
    fb = [x for x in fb if x != ("_text", "")]
    if sorted(k for k, v in fa) != sorted(k for k, v in fb):
        return False
    for t in set(k for k, v in fa):
        va, vb = [v for k, v in fa if k == t], [v for k, v in fb if k == t]
        for x, y in zip(va, vb):
            if t == "_text":
                if x != y:
                    return False
            elif not node_eq(x, y):
                return False
    return True


DOC = """<simulation verbosity='low'><step> %d </step><output prefix='p'><properties stride='%d' filename='out'> [ step, time{picosecond} ] </properties>
<trajectory filename='pos' stride='20' format='xyz'> positions{angstrom} </trajectory><trajectory filename='vel' stride='%d'> velocities </trajectory></output>
<system><cell shape='(3, 3)'> [ %16.8e, 0.5, 0.0, 0.0, 2.0, 0.0, 0.0, 0.0, 3.0 ] </cell></system><system prefix='b'></system></simulation>"""


@harness(params=[dict(how=h) for h in ("json", "rewrite")], bounds="documents with repeated and nested tags, any numbers", tokens=True, witnesses=1)
def documents(cx, how):
    """the JSON form of a document, and the document written out again, mean the same"""
    X = cx.mod("ipi.utils.io.inputs.io_xml")
    J = cx.mod("ipi.utils.io.inputs.io_json")
    doc = DOC % (cx.conc(cx.int("s", 0, 2)), 10, cx.conc(cx.int("t", 1, 2)), cx.real("a", 1, 9))
    root = X.xml_parse_string(doc)
    if how == "rewrite":
        again = X.xml_parse_string(X.xml_write(root))
        cx.check(node_eq(again.fields[0][1], root.fields[0][1]), "written document is the same document")
    else:
        import json

        d = J.xmlnode_to_json(root.fields[0][1])
        back = J.json_parse_string(json.dumps(d))
        cx.check(back.name == "root" and back.fields[0][0] == "simulation", "root")
        cx.check(node_eq(back.fields[0][1], root.fields[0][1]), "JSON document is the same document")
        full = J.json_parse_string(json.dumps({"simulation": d}))
        cx.check(node_eq(full.fields[0][1], root.fields[0][1]), "JSON document with the outer tag")


@harness(params=[dict(k=k) for k in ("value", "array", "dict", "thermo", "beads")], bounds="", tokens=True, witnesses=1)
def private_defaults(cx, k):
    """filling one input object leaves the defaults of the others alone"""
    I = cx.mod("ipi.utils.inputvalue")
    np = cx.np
    v = cx.real("v", 1, 9)
    if k == "value":
        A = lambda: I.InputValue(dtype=cx.float, default=0.25, help="x")
        a = A()
        a.store(v)
        cx.eq(A().fetch(), 0.25, "default")
        a.set_default()
        cx.eq(a.fetch(), 0.25, "default restored")
    elif k == "array":
        tpl = I.input_default(factory=np.ones, args=(2,))
        A = lambda: I.InputArray(dtype=cx.float, default=tpl, help="x")
        a = A()
        w = a.fetch()
        w[:] = v
        a.value[:] = v
        cx.eq(A().fetch(), [1.0, 1.0], "default array")
    elif k == "dict":
        A = lambda: I.InputDictionary(options=["p", "q"], default=[1.0, 2.0], dtype=cx.float, help="x")
        a = A()
        a.store({"p": v})
        b = A()
        cx.eq([b.fetch()["p"], b.fetch()["q"]], [1.0, 2.0], "default dictionary")
        cx.eq([a.fetch()["p"], a.fetch()["q"]], [v, 2.0], "stored dictionary")
    elif k == "thermo":
        T = cx.mod("ipi.inputs.thermostats").InputThermo
        E = cx.mod("ipi.engine.thermostats")
        a = T()
        a.store(E.ThermoLangevin(tau=v, ethermo=v))
        b = T()
        cx.eq(b.ethermo.fetch(), 0.0, "default energy")
    else:
        B = cx.mod("ipi.inputs.beads").InputBeads
        a = B()
        a.store(make_beads(cx, 1, 2))
        b = B()
        cx.check(b.q.fetch().size == 0 and b.names.fetch().size == 0, "default bead arrays")


@harness(params=[dict(k=k) for k in ("tag", "attribute", "missing", "option", "type", "unit", "delims")], bounds="", witnesses=1)
def rejected(cx, k):
    """what cannot be understood is refused, not ignored"""
    X = cx.mod("ipi.utils.io.inputs.io_xml")
    I = cx.mod("ipi.utils.inputvalue")
    doc = {
        "tag": ("thermo", "<thermostat mode='langevin'><tauu>1.0</tauu></thermostat>"),
        "attribute": ("thermo", "<thermostat mod='langevin'><tau>1.0</tau></thermostat>"),
        "missing": ("val", "<tag></tag>"),
        "option": ("thermo", "<thermostat mode='langevn'><tau>1.0</tau></thermostat>"),
        "type": ("val", "<tag> abc </tag>"),
        "unit": ("val", "<tag units='meter'> 1.0 </tag>"),
        "delims": ("arr", "<tag> 1, 2, 3 </tag>"),
    }[k]
    node = X.xml_parse_string(doc[1]).fields[0][1]
    mk = {"thermo": cx.mod("ipi.inputs.thermostats").InputThermo, "val": lambda: I.InputValue(dtype=cx.float, dimension="energy", help="x"), "arr": lambda: I.InputArray(dtype=cx.float, help="x")}[doc[0]]
    i = mk()
    bad = False
    try:
        i.parse(node)
        i.fetch()
    except (NameError, ValueError, TypeError, IndexError):
        bad = True
    cx.check(bad, "refused: " + k)
