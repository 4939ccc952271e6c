"""Loads ipi.* from /repo with symbolic builtins and the numpy shim.

The source is read from the working tree on every run and compiled unchanged;
only the names `numpy`, `math`, `float`, `int`, `print` seen by the modules differ,
`x op= v` on a local name may upcast a numeric array to hold symbolic values, and
log messages show 0 in place of a symbolic number."""

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import os
import sys

import numpy as np

from . import npshim

REPO = os.environ.get("VP_REPO", "/repo")
PREFIXES = ("ipi",)
STUBS = {}  # module name -> stand-in object, consulted by __import__
LOADED = []

_real_import = builtins.__import__


def _sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in STUBS:
            return STUBS[name]
        root = name.split(".")[0]
        if root == "numpy":
            if name == "numpy":
                return npshim.shim
            if name in ("numpy.linalg", "numpy.fft"):
                return getattr(npshim.shim, name.split(".")[1]) if fromlist else npshim.shim
            m = _real_import(name, globals, locals, fromlist, level)
            return m if fromlist else npshim.shim
        if name == "scipy.linalg":
            _real_import(name)
            return npshim.scipyshim.linalg if fromlist else npshim.scipyshim
        if name == "math":
            return npshim.mathshim
        if name == "json":
            return npshim.jsonshim
    return _real_import(name, globals, locals, fromlist, level)


def _print(*a, **k):
    pass


def make_builtins():
    d = dict(builtins.__dict__)
    d["__import__"] = _sym_import
    d["float"] = npshim.SFloat
    d["int"] = npshim.SInt
    d["print"] = _print
    return d


BUILTINS = make_builtins()

_OPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv, "Pow": operator.ipow}


def _iop(op, x, v):
    """x op= v on a local name; a numeric array receiving symbolic values is
    upcast (numpy would refuse to store them)"""
    if type(x) is np.ndarray and x.dtype != object and npshim.has_sym(v):
        x = x.astype(object)
    return _OPS[op](x, v)


def _astype(x, *a, **k):
    """x.astype(int) on a plain numeric or text array"""
    if a and a[0] is npshim.SInt and type(x) is np.ndarray and x.dtype != object:
        a = (int,) + a[1:]
    return x.astype(*a, **k)


def _message(text, args):
    """text % args of a message passed to info() or warning()"""
    one = not isinstance(args, tuple)
    new = tuple(0.0 if npshim.has_sym(x) else x for x in ((args,) if one else args))
    return text % new


def _item(x, name):
    """x.copy() and x.item() of a number: a reduction of an object array is a
    plain float where numpy would give a numpy scalar"""
    if type(x) in (float, int):
        return x
    return getattr(x, name)()


BUILTINS["__symx_message__"] = _message
BUILTINS["__symx_item__"] = _item
BUILTINS["__symx_iop__"] = _iop
BUILTINS["__symx_astype__"] = _astype


class _Aug(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "astype":
            new = ast.Call(ast.Name("__symx_astype__", ast.Load()), [node.func.value] + node.args, node.keywords)
            return ast.fix_missing_locations(ast.copy_location(new, node))
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "item") and not node.args and not node.keywords:
            new = ast.Call(ast.Name("__symx_item__", ast.Load()), [node.func.value, ast.Constant(node.func.attr)], [])
            return ast.fix_missing_locations(ast.copy_location(new, node))
        if isinstance(node.func, ast.Name) and node.func.id in ("info", "warning"):
            for i, a in enumerate(node.args):
                if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mod) and isinstance(a.left, ast.Constant) and isinstance(a.left.value, str):
                    new = ast.Call(ast.Name("__symx_message__", ast.Load()), [a.left, a.right], [])
                    node.args[i] = ast.copy_location(new, a)
            ast.fix_missing_locations(node)
        return node

    def visit_AugAssign(self, node):
        op = type(node.op).__name__
        if not isinstance(node.target, ast.Name) or op not in _OPS:
            return self.generic_visit(node)
        new = ast.Assign(
            targets=[ast.Name(node.target.id, ast.Store())],
            value=ast.Call(
                ast.Name("__symx_iop__", ast.Load()),
                [ast.Constant(op), ast.Name(node.target.id, ast.Load()), self.visit(node.value)],
                [],
            ),
        )
        return ast.fix_missing_locations(ast.copy_location(new, node))


def sym_compile(src, path):
    return compile(_Aug().visit(ast.parse(src, path)), path, "exec")



class SymLoader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def get_resource_reader(self, name):
        from importlib.readers import FileReader

        return FileReader(self)

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        code = sym_compile(src, self.path)
        module.__dict__["__builtins__"] = BUILTINS
        LOADED.append(self.path)
        exec(code, module.__dict__)


class SymFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        root = fullname.split(".")[0]
        if root not in PREFIXES:
            return None
        rel = fullname.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(fullname, SymLoader(p, True), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        p = base + ".py"
        if os.path.exists(p):
            spec = importlib.machinery.ModuleSpec(fullname, SymLoader(p, False), origin=p)
            spec.has_location = True
            return spec
        return None


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    for k in list(sys.modules):
        if k == "ipi" or k.startswith("ipi."):
            raise RuntimeError("ipi already imported")
    sys.meta_path.insert(0, SymFinder())


def load_file(path, name):
    """load a stand-alone python file (e.g. drivers/py) symbolically"""
    import types

    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__["__builtins__"] = BUILTINS
    with open(path, "rb") as f:
        src = f.read()
    LOADED.append(path)
    exec(sym_compile(src, path), m.__dict__)
    return m
