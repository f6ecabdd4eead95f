"""Imports the repository's package from source, AST-instrumented so that the *unmodified algorithms* run
on symbolic scalars.  The rewriting is purely mechanical and independent of what the code does:

  f(x)            -> __sx_call__(f, x)      only for bare-name calls (float/int/bool/isinstance/... hooks)
  o.astype(T)     -> __sx_astype__(o, T)    a symbolic object array asked to become float stays symbolic
  o.dtypes        -> __sx_dtypes__(o)       the same for every column of a frame
  o.dtype         -> __sx_dtype__(o)        an object array of symbolic reals reports float64
  o[i]            -> o[__sx_idx__(i)]       symbolic integers used as an index are case-split
  o.min()/.max()/.any()/.all() -> __sx_red__   one ite/or/and term instead of a case split
  ~x              -> __sx_inv__(x)          logical not on arrays of (symbolic) truth values
  print(...)      -> arguments are formatted with placeholders (printing never forks)

`import numpy/h5py/pandas` inside the package resolve to the shims below.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import inspect
import os
import sys

import numpy as np
import pandas as pd

from . import values as V
from .values import SymB, SymF, SymI, Sym

REPO = os.environ.get("MCSAS3_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class Rewriter(ast.NodeTransformer):
    def __init__(self, name=""):
        self.name = name

    def visit_ClassDef(self, node):
        name, self.name = self.name, self.name + node.name + "."
        self.generic_visit(node)
        self.name = name
        return node

    def visit_FunctionDef(self, node):
        """every function notes that it was entered"""
        name, self.name = self.name, self.name + node.name + "."
        node.body = [self.visit(b) for b in node.body]
        self.name = name
        doc = bool(node.body) and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
        call = ast.Expr(ast.Call(ast.Name("__sx_ran__", ast.Load()), [ast.Constant(name + node.name)], []))
        ast.copy_location(call, node.body[0])
        node.body.insert(int(doc), call)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name):
            if node.func.id in ("super", "locals", "globals", "vars", "dir"):
                return node
            if node.func.id == "print":
                return ast.copy_location(
                    ast.Call(
                        func=ast.Name("__sx_print__", ast.Load()),
                        args=[
                            ast.Lambda(
                                args=ast.arguments(
                                    posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]
                                ),
                                body=ast.Tuple(elts=list(node.args), ctx=ast.Load()),
                            )
                        ],
                        keywords=node.keywords,
                    ),
                    node,
                )
            return ast.copy_location(
                ast.Call(
                    func=ast.Name("__sx_call__", ast.Load()),
                    args=[node.func] + node.args,
                    keywords=node.keywords,
                ),
                node,
            )
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("float64", "double", "longdouble"):
            return ast.copy_location(
                ast.Call(func=ast.Name("__sx_call__", ast.Load()), args=[node.func] + node.args, keywords=node.keywords),
                node,
            )
        if isinstance(node.func, ast.Attribute) and node.func.attr == "astype":
            return ast.copy_location(
                ast.Call(
                    func=ast.Name("__sx_astype__", ast.Load()),
                    args=[node.func.value] + node.args,
                    keywords=node.keywords,
                ),
                node,
            )
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("min", "max", "any", "all"):
            return ast.copy_location(
                ast.Call(
                    func=ast.Name("__sx_red__", ast.Load()),
                    args=[ast.Constant(node.func.attr), node.func.value] + node.args,
                    keywords=node.keywords,
                ),
                node,
            )
        return node

    def visit_Set(self, node):
        """{a, b} -> set([a, b]): the order of a set is a matter of the process (see common.another_process)"""
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=ast.Name("set", ast.Load()), args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        comp = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(ast.Call(func=ast.Name("set", ast.Load()), args=[comp], keywords=[]), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Invert):
            return ast.copy_location(
                ast.Call(func=ast.Name("__sx_inv__", ast.Load()), args=[node.operand], keywords=[]), node
            )
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == "dtype" and isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                ast.Call(func=ast.Name("__sx_dtype__", ast.Load()), args=[node.value], keywords=[]), node
            )
        if node.attr == "dtypes" and isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                ast.Call(func=ast.Name("__sx_dtypes__", ast.Load()), args=[node.value], keywords=[]), node
            )
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        s = node.slice
        if isinstance(s, ast.Constant):
            return node
        node.slice = ast.copy_location(
            ast.Call(func=ast.Name("__sx_idx__", ast.Load()), args=[self._sl(s)], keywords=[]), s
        )
        return node

    def _sl(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(
                func=ast.Name("__sx_slice__", ast.Load()),
                args=[s.lower or none, s.upper or none, s.step or none],
                keywords=[],
            )
        if isinstance(s, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in s.elts):
            return ast.Tuple(elts=[self._sl(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_AnnAssign(self, node):
        # leave annotations alone
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


def sx_print(thunk, **kw):
    c = V.CTX
    if c is None:
        return builtins.print(*thunk(), **kw)
    old = c.printing
    c.printing = True
    try:
        a = thunk()
        builtins.print(*a, **kw)
    finally:
        c.printing = old


def sx_idx(i):
    if isinstance(i, (SymI, SymB)):
        return int(i)
    if type(i) is tuple:
        return tuple(sx_idx(e) for e in i)
    if type(i) is list and any(isinstance(e, (SymI, SymB)) for e in i):  # a list of flags or of positions
        if all(isinstance(e, (SymB, bool, np.bool_)) for e in i):
            return [bool(e) for e in i]
        return [int(e) if isinstance(e, (SymI, SymB)) else e for e in i]
    if isinstance(i, np.ndarray) and i.dtype == object and i.size:
        if all(isinstance(e, (SymB, bool, np.bool_)) for e in i.flat):
            return np.array([bool(e) for e in i.flat]).reshape(i.shape)
        if all(isinstance(e, (SymI, int, np.integer)) for e in i.flat):
            return np.array([int(e) for e in i.flat]).reshape(i.shape)
    return i


def sx_slice(a, b, c):
    f = lambda x: int(x) if isinstance(x, (SymI, SymB)) else x
    return slice(f(a), f(b), f(c))


def sx_red(name, o, *args, **kw):
    """o.min() / o.max() / o.any() / o.all(): one term instead of a case split per element"""
    if isinstance(o, np.ndarray) and o.dtype == object and o.size and not args and not kw and V.has_sym(o):
        from .npshim import _sel

        els = list(o.flat)
        if name in ("min", "max"):
            return _sel(els, V.smax2 if name == "max" else V.smin2)
        return sx_call(any if name == "any" else all, els)
    if isinstance(o, np.ndarray) and o.dtype == object and name in ("any", "all") and V.has_sym(o) and set(kw) <= {"axis"} and len(args) + len(kw) == 1:
        from .npshim import shim

        return shim._ov[name](o, *args, **kw)
    return getattr(o, name)(*args, **kw)


def sx_inv(o):
    if isinstance(o, np.ndarray) and o.dtype == object:
        from .npshim import shim

        return shim.invert(o)
    return ~o


_NUMKINDS = "fiub"


def sx_dtype(o):
    d = o.dtype
    if d == np.dtype(object):
        a = getattr(o, "_values", o)
        if isinstance(a, np.ndarray) and a.size and V.has_sym(a) and V.all_numeric_obj(a):
            if all(isinstance(e, (SymI, int, np.integer)) and not isinstance(e, bool) for e in a.flat):
                return np.dtype(np.int64)
            return np.dtype(np.float64)
    return d


def sx_dtypes(o):
    d = o.dtypes
    if isinstance(o, pd.DataFrame) and any(t == np.dtype(object) for t in d):
        d = d.copy()
        for i in range(len(d)):
            if d.iloc[i] == np.dtype(object):
                d.iloc[i] = sx_dtype(o.iloc[:, i])
    elif isinstance(o, pd.Series):
        d = sx_dtype(o)
    return d


def _is_floatish(t):
    try:
        return np.dtype(t).kind in "fc"
    except Exception:
        return False


def _is_intish(t):
    try:
        return np.dtype(t).kind in "iu"
    except Exception:
        return False


def sx_astype(o, *args, **kw):
    t = args[0] if args else kw.get("dtype")
    if V.has_sym(o) and not isinstance(t, dict):
        if _is_floatish(t):
            return o.copy()
        a = getattr(o, "_values", o)
        if t in (bool, np.bool_, "bool") and isinstance(o, np.ndarray):
            return np.array([bool(e) for e in o.flat], dtype=bool).reshape(o.shape)
        if _is_intish(t) and isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            for i, e in np.ndenumerate(o):
                out[i] = V.trunc_int(e) if isinstance(e, SymF) else (e if isinstance(e, SymI) else int(e))
            return out
    return o.astype(*args, **kw)


def sx_call(f, *args, **kw):
    if f is isinstance:
        x, T = args
        if isinstance(x, Sym):
            Ts = []

            def flat(t):
                if isinstance(t, tuple):
                    for e in t:
                        flat(e)
                elif hasattr(t, "__args__"):
                    for e in t.__args__:
                        flat(e)
                else:
                    Ts.append(t)

            flat(T)
            want = {
                SymF: (float, np.float64, np.floating, np.number, np.generic, np.inexact),
                SymI: (int,),
                SymB: (bool, int),
            }[type(x)]
            import numbers

            if isinstance(x, (SymF, SymI)):
                want = want + (numbers.Number, numbers.Real)
            return any(t in want for t in Ts) or isinstance(x, T)
        return isinstance(x, T)
    if args and isinstance(args[0], Sym) and len(args) == 1 and not kw:
        x = args[0]
        if f in (float, np.float64, np.longdouble):
            return x if isinstance(x, SymF) else V.SymF(V.lift(x)[1])
        if f is int:
            return V.trunc_int(x) if isinstance(x, SymF) else (x if isinstance(x, SymI) else x._i())
        if f is bool:
            return bool(x)
    if f in (max, min) and not kw:
        it = args[0] if len(args) == 1 else args
        it = list(it)
        if it and all(isinstance(e, Sym) or V.is_num(e) for e in it) and V.has_sym(it):
            r = it[0]
            for e in it[1:]:
                # builtin max keeps the first of equal items and skips NaN comparisons like Python does
                r = V.ite(e > r, e, r) if f is max else V.ite(e < r, e, r)
            return r
    if f in (any, all) and len(args) == 1:
        it = list(args[0])
        if V.has_sym(it):
            import functools

            ts = []
            for e in it:
                if isinstance(e, (SymF, SymI)):
                    e = e != 0
                ts.append(e.t if isinstance(e, SymB) else V.z3.BoolVal(bool(e)))
            return SymB(V.z3.Or(*ts) if f is any else V.z3.And(*ts))
        return f(it)
    return f(*args, **kw)


class Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path = path
        self.ispkg = ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Rewriter(os.path.relpath(self.path, REPO) + ":").visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__.update(
            __file__=self.path,
            __sx_call__=sx_call,
            __sx_ran__=RAN.add,
            __sx_astype__=sx_astype,
            __sx_dtype__=sx_dtype,
            __sx_dtypes__=sx_dtypes,
            __sx_idx__=sx_idx,
            __sx_slice__=sx_slice,
            __sx_print__=sx_print,
            __sx_red__=sx_red,
            __sx_inv__=sx_inv,
        )
        b = dict(builtins.__dict__)
        b["__import__"] = shim_import
        module.__dict__["__builtins__"] = b
        exec(code, module.__dict__)
        ENCODED.add(os.path.relpath(self.path, REPO))


ENCODED = set()
RAN = set()  # the functions of the code that were entered, "file:Class.function"


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "mcsas3" and not fullname.startswith("mcsas3."):
            return None
        rel = fullname.replace(".", "/")
        p = os.path.join(SRC, rel)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            spec = importlib.util.spec_from_loader(fullname, Loader(f, True), origin=f, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        f = p + ".py"
        if os.path.isfile(f):
            return importlib.util.spec_from_loader(fullname, Loader(f, False), origin=f)
        return None


SHIMS = {}


def shim_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name.split(".")[0] in SHIMS:
        __import__(name)
        parts = name.split(".")
        shim = SHIMS[parts[0]]
        if not fromlist or len(parts) == 1:
            return shim
        o = shim
        for p in parts[1:]:
            o = getattr(o, p)
        return o
    return builtins.__import__(name, globals, locals, fromlist, level)


def install():
    """make `import mcsas3...` yield the instrumented package in this process"""
    from . import h5fake, npshim

    for m in list(sys.modules):
        if m == "mcsas3" or m.startswith("mcsas3."):
            raise RuntimeError("mcsas3 already imported")
    sys.meta_path.insert(0, Finder())
    SHIMS["numpy"] = npshim.shim
    SHIMS["math"] = npshim.mathshim
    SHIMS["h5py"] = h5fake.module
    npshim.patch_pandas()
    npshim.patch_attrs()
