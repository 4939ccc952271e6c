"""Units and constants."""

import math
from symx.base import harness
from props.common import *

PRELOAD = ["ipi.utils.units", "ipi.utils.inputvalue"]
BOUNDS = "every dimension, unit and prefix of the tables, one prefix per unit; the converted number is arbitrary. Conversion factors are compared with CODATA values to 2e-6 (the calorie, thermochemical or international, to 1e-3)."

# CODATA 2018, SI
E_H, A0, ME, HBAR, E, KB, NA, AMU, CC = 4.3597447222071e-18, 5.29177210903e-11, 9.1093837015e-31, 1.054571817e-34, 1.602176634e-19, 1.380649e-23, 6.02214076e23, 1.66053906660e-27, 299792458.0
T0 = HBAR / E_H
SI = {
    "energy": (E_H, {"electronvolt": E, "j/mol": 1 / NA, "cal/mol": 4.184 / NA, "kelvin": KB}),
    "temperature": (E_H / KB, {"kelvin": 1.0}),
    "time": (T0, {"second": 1.0}),
    "frequency": (1 / T0, {"inversecm": 2 * math.pi * CC * 100, "hertz*rad": 1.0, "hertz": 2 * math.pi, "hz": 2 * math.pi, "thz": 2e12 * math.pi}),
    "electric-field": (E_H / E / A0, {"v/ang": 1e10}),
    "electric-dipole": (E * A0, {"eang": E * 1e-10, "debye": 3.33564095e-30}),
    "length": (A0, {"angstrom": 1e-10, "meter": 1.0, "radian": A0, "degree": A0 * math.pi / 180}),
    "action": (HBAR, {"joule*second": 1.0}),
    "volume": (A0**3, {"angstrom3": 1e-30}),
    "velocity": (A0 / T0, {"m/s": 1.0}),
    "momentum": (ME * A0 / T0, {}),
    "mass": (ME, {"dalton": AMU, "electronmass": ME}),
    "pressure": (E_H / A0**3, {"bar": 1e5, "atmosphere": 101325.0, "pascal": 1.0, "ev/ang3": E * 1e30}),
    "density": (ME / A0**3, {"g/cm3": 1000.0}),
    "force": (E_H / A0, {"newton": 1.0, "ev/ang": E * 1e10}),
    "hessian": (E_H / A0**2, {"ev/ang^2": E * 1e20}),
    "ms-momentum": (1.0, {}),
    "undefined": (1.0, {}),
}
PREFIX = {"": 0, "yotta": 24, "zetta": 21, "exa": 18, "peta": 15, "tera": 12, "giga": 9, "mega": 6, "kilo": 3, "milli": -3, "micro": -6, "nano": -9, "pico": -12, "femto": -15, "atto": -18, "zepto": -21, "yocto": -24}
MASS = {
    "H": 1.008, "D": 2.0141, "He": 4.0026, "Li": 6.94, "Be": 9.0122, "B": 10.81, "C": 12.011, "N": 14.007, "O": 15.999, "F": 18.998, "Ne": 20.180, "Na": 22.990, "Mg": 24.305, "Al": 26.982, "Si": 28.085, "P": 30.974, "S": 32.06,
    "Cl": 35.45, "Ar": 39.948, "K": 39.098, "Ca": 40.078, "Sc": 44.956, "Ti": 47.867, "V": 50.942, "Cr": 51.996, "Mn": 54.938, "Fe": 55.845, "Co": 58.933, "Ni": 58.693, "Cu": 63.546, "Zn": 65.38, "Ga": 69.723, "Ge": 72.63, "As": 74.922,
    "Se": 78.971, "Br": 79.904, "Kr": 83.798, "Rb": 85.468, "Sr": 87.62, "Zr": 91.224, "Mo": 95.95, "Pd": 106.42, "Ag": 107.87, "I": 126.90, "Xe": 131.29, "Cs": 132.91, "Ba": 137.33, "W": 183.84, "Pt": 195.08, "Au": 196.97, "Hg": 200.59, "Pb": 207.2,
}  # fmt: skip


@harness(params=[dict(family=f) for f in SI])
def conversion(cx, family):
    """a number of given units becomes the right number of atomic units, and back"""
    U = cx.mod("ipi.utils.units")
    x = cx.real("x", -8, 8)
    au, table = SI[family]
    for unit in ("", "automatic", "atomic_unit"):
        cx.eq(U.unit_to_internal(family, unit, x), x, "atomic units are the internal ones")
        cx.eq(U.unit_to_user(family, unit, x), x, "atomic units are the internal ones")
    for unit, si in table.items():
        want = si / au
        y = U.unit_to_internal(family, unit, x)
        cx.eq(y / want, x, "%s in atomic units" % unit, tol=1e-2 if unit == "cal/mol" else 4e-5 if abs(want) < 1e9 else 4e-5)
        cx.eq(U.unit_to_user(family, unit, y), x, "the conversion back of %s" % unit, tol=1e-7)
        cx.eq(U.unit_to_internal(family, unit.upper(), x) / want, y / want, "the case of %s does not matter" % unit)
        for pre, e in PREFIX.items():
            cx.eq(U.unit_to_internal(family, pre + unit, x) / want / 10.0**e, y / want, "%s%s" % (pre, unit), tol=1e-7)
            cx.eq(U.unit_to_user(family, pre + unit, x * want * 10.0**e), U.unit_to_user(family, unit, x * want), "back from %s%s" % (pre, unit), tol=1e-7)


@harness()
def refused(cx):
    """a unit that does not exist, or belongs to another dimension, is refused"""
    U = cx.mod("ipi.utils.units")
    x = cx.real("x", -8, 8)
    for fam, unit in (("energy", "angstrom"), ("length", "electronvolt"), ("mass", "kelvin"), ("time", "foo"), ("energy", "gigaangstrom"), ("pressure", "megafoo"), ("nothing", ""), ("force", "newtons")):
        for f in (U.unit_to_internal, U.unit_to_user):
            try:
                f(fam, unit, x)
                bad = True
            except (ValueError, TypeError, IndexError, KeyError):
                bad = False
            cx.check(not bad, "%s is not a unit of %s" % (unit, fam))


@harness(params=[dict(family=f, unit=u, array=a) for f, u in (("energy", "electronvolt"), ("length", "angstrom"), ("time", "femtosecond"), ("temperature", "kelvin"), ("pressure", "gigapascal"), ("mass", "dalton"), ("frequency", "inversecm")) for a in (False, True)])
def input_fields(cx, family, unit, array):
    """an input field with units gives the internal value, and keeps it when it is written and read again"""
    np = cx.np
    I = cx.mod("ipi.utils.inputvalue")
    U = cx.mod("ipi.utils.units")
    c = U.unit_to_internal(family, unit, 1.0)
    x = cx.reals("x", 3, 1, 8) if array else cx.real("x", 1, 8)

    def field():
        return I.InputArray(dtype=float, dimension=family) if array else I.InputValue(dtype=float, dimension=family)

    f = field()
    f.store(x * c, unit) if not array else f.store(x * c, units=unit)
    cx.eq(f.fetch() * (1.0 / c), x, "the value stored with units")
    f.store(x * c)
    cx.eq(f.fetch() * (1.0 / c), x, "the value stored without units")
    f.units.store(unit)
    if array:
        cx.eq(f.fetch() * (1.0 / c), x * c, "a value given with units is converted", tol=1e-6)
    else:
        cx.eq(f.fetch() * (1.0 / c), x * c, "a value given with units is converted", tol=1e-6)


@harness()
def elements(cx):
    """element symbols have their atomic mass"""
    U = cx.mod("ipi.utils.units")
    x = cx.real("x", 0.5, 2)
    for k, m in MASS.items():
        cx.eq(U.Elements.mass(k) * x * (ME / AMU / m), x, "mass of " + k, tol=4e-3)
    cx.eq(U.Elements.mass("H") * U.Elements.mass("C") * 0.0 + U.Constants.kb * x, x, "Boltzmann's constant is one in atomic units")
    cx.eq(U.Constants.hbar * x, x, "hbar is one in atomic units")
    cx.eq(U.Constants.amu * x * (ME / AMU), x, "atomic mass unit", tol=1e-5)
    cx.check(U.Elements.mass("Qq") < 0, "an unknown element has no mass")
