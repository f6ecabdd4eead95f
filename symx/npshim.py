"""numpy / pandas / attrs glue for symbolic object arrays (every override falls back to the real function)."""
import types

import numpy as np
import pandas

from . import values as V
from .values import Sym, SymB, SymF, SymI, has_sym, isnan_, smax2, smin2


def _obj(x):
    return x if isinstance(x, np.ndarray) else np.asarray(x)


def arr_of(xs, shape=None):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a if shape is None else a.reshape(shape)


class Shim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_ov"] = {}

    def __getattr__(self, n):
        ov = self.__dict__["_ov"]
        if n in ov:
            return ov[n]
        return getattr(np, n)


shim = Shim()


def override(f):
    shim._ov[f.__name__.rstrip("_")] = f
    return f


def _symbolic():
    return V.CTX is not None and not V.CTX.replay_only


def _floatish(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind == "f"
    except Exception:
        return False


def _fz(name):
    real = getattr(np, name)

    def f(shape, dtype=None, *a, **k):
        if _symbolic() and _floatish(dtype):
            r = np.empty(shape, dtype=object)
            r.fill({"zeros": 0.0, "ones": 1.0, "empty": 0.0}[name])
            return r
        return real(shape, dtype if dtype is not None else float, *a, **k)

    f.__name__ = name
    override(f)


for _n in ("zeros", "ones", "empty"):
    _fz(_n)


def _fl(name, val):
    real = getattr(np, name)

    def f(a, *args, **k):
        if _symbolic() and has_sym(a) or (
            isinstance(a, np.ndarray) and _symbolic() and a.dtype.kind == "f" and not args and not k
        ):
            r = np.empty(np.shape(a), dtype=object)
            r.fill(val)
            return r
        return real(a, *args, **k)

    f.__name__ = name
    override(f)


_fl("zeros_like", 0.0)
_fl("ones_like", 1.0)
_fl("empty_like", 0.0)


@override
def full(shape, fill_value, dtype=None, **k):
    if _symbolic() and (has_sym(fill_value) or (_floatish(dtype) and isinstance(fill_value, float))):
        r = np.empty(shape, dtype=object)
        r[...] = fill_value
        return r
    return np.full(shape, fill_value, dtype, **k)


@override
def full_like(a, fill_value, dtype=None, **k):
    return full(np.shape(a), fill_value, dtype)


def _mkarray(name):
    real = getattr(np, name)

    def f(x, dtype=None, *a, **k):
        if has_sym(x):
            if dtype is not None and _floatish(dtype):
                dtype = object
            if isinstance(x, Sym):
                r = np.empty((), dtype=object)
                r[()] = x
                return r
        return real(x, dtype, *a, **k)

    f.__name__ = name
    override(f)


for _n in ("array", "asarray", "asanyarray", "ascontiguousarray"):
    _mkarray(_n)


def _pred(name, onsym, real):
    def f(x, *a, **k):
        if isinstance(x, Sym):
            return onsym
        v = getattr(x, "_values", x)
        v = v if isinstance(v, np.ndarray) else np.asarray(v)
        if v.dtype == object:
            r = np.array(
                [onsym if isinstance(e, Sym) else bool(real(float(e))) for e in v.flat], dtype=bool
            ).reshape(v.shape)
            if isinstance(x, pandas.Series):
                return pandas.Series(r, index=x.index)
            return r if r.ndim else bool(r)
        return real(x, *a, **k)

    f.__name__ = name
    override(f)


_pred("isnan", False, np.isnan)
_pred("isinf", False, np.isinf)
_pred("isfinite", True, np.isfinite)


def _sel(xs, f2):
    r = xs[0]
    for e in xs[1:]:
        r = f2(r, e)
    return r


def _reduce(name, f2):
    real = getattr(np, name)

    def f(a, axis=None, *args, **k):
        if isinstance(a, Sym):
            return a
        if has_sym(a) and axis is None and not k and not args:
            v = getattr(a, "_values", a)
            v = np.array(v, dtype=object) if not isinstance(v, np.ndarray) else v
            els = []

            def fl(v):
                for e in v.flat if isinstance(v, np.ndarray) else v:
                    if isinstance(e, (np.ndarray, list, tuple)):
                        fl(e)
                    else:
                        els.append(e)

            fl(v)
            if name.startswith("nan"):
                els = [e for e in els if not isnan_(e)] or [float("nan")]
            return _sel(els, f2)
        return real(a, axis, *args, **k)

    f.__name__ = name
    override(f)


_reduce("max", smax2)
_reduce("amax", smax2)
_reduce("min", smin2)
_reduce("amin", smin2)
_reduce("nanmax", smax2)
_reduce("nanmin", smin2)


def _elementwise2(name, f2):
    real = getattr(np, name)
    ufn = np.frompyfunc(f2, 2, 1)

    def f(a, b, *args, **k):
        if (has_sym(a) or has_sym(b)) and not args and not k:
            return ufn(a, b)
        if args and isinstance(args[0], np.ndarray) and args[0].dtype == object:
            args, k = args[1:], dict(k, out=args[0])
        out = k.get("out")
        out = out[0] if isinstance(out, tuple) else out
        if (has_sym(a) or has_sym(b)) or isinstance(out, np.ndarray) and out.dtype == object:
            return ufn(a, b, *args, **k)
        return real(a, b, *args, **k)

    def method(m):
        def g(a, *args, **k):
            if has_sym(a):
                v = a if isinstance(a, np.ndarray) else shim.asarray(list(a) if not isinstance(a, (list, tuple)) else a, dtype=object)
                return getattr(ufn, m)(v, *args, **k)
            return getattr(real, m)(a, *args, **k)

        return g

    f.reduce, f.accumulate, f.outer, f.at = method("reduce"), method("accumulate"), method("outer"), real.at
    f.__name__ = name
    override(f)


_elementwise2("maximum", smax2)
_elementwise2("minimum", smin2)
_elementwise2("fmax", lambda a, b: b if isnan_(a) else a if isnan_(b) else smax2(a, b))
_elementwise2("fmin", lambda a, b: b if isnan_(a) else a if isnan_(b) else smin2(a, b))


@override
def clip(a, lo=None, hi=None, **k):
    if has_sym(a) or has_sym(lo) or has_sym(hi):

        def c(x, lo, hi):
            if lo is not None:
                x = smax2(x, lo)
            if hi is not None:
                x = smin2(x, hi)
            return x

        each = [v if v is None or isinstance(v, Sym) or np.ndim(v) == 0 else np.asarray(v, dtype=object) for v in (a, lo, hi)]
        if any(isinstance(v, np.ndarray) for v in each):
            return np.frompyfunc(c, 3, 1)(*each)
        return c(a, lo, hi)
    return np.clip(a, lo, hi, **k)


@override
def median(a, axis=None, *args, **k):
    v = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    if not has_sym(v) or axis not in (None, 0) or (axis == 0 and v.ndim > 1) or v.size == 0:
        return np.median(a, axis, *args, **k)
    els = list(v.flat)
    if any(V.isnan_(e) for e in els):
        return float("nan")
    n = len(els)
    q = sorted(els)
    return q[n // 2] if n % 2 else (q[n // 2 - 1] + q[n // 2]) / 2


@override
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if has_sym(a) or has_sym(b):
        return np.frompyfunc(lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y)), 2, 1)(a, b)
    return np.isclose(a, b, rtol, atol, equal_nan)


@override
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if has_sym(a) or has_sym(b):
        return bool(np.all(isclose(a, b, rtol, atol, equal_nan)))
    return np.allclose(a, b, rtol, atol, equal_nan)


def _tb(e):
    if isinstance(e, SymB):
        return e
    if isinstance(e, (SymF, SymI)):
        return SymB(V.z3.Not(e.t == 0))
    return SymB(V.z3.BoolVal(bool(e)))


for _n, _f in (
    ("logical_and", lambda a, b: _tb(a) & _tb(b)),
    ("logical_or", lambda a, b: _tb(a) | _tb(b)),
    ("logical_xor", lambda a, b: _tb(a) ^ _tb(b)),
):
    _elementwise2(_n, _f)
_elementwise2("float_power", lambda a, b: a**b)
_elementwise2("copysign", lambda a, b: V.ite(b >= 0, abs(a), -abs(a)))
_elementwise2("heaviside", lambda a, b: V.ite(a > 0, 1.0, V.ite(a < 0, 0.0, b)))
_elementwise2("arctan2", lambda a, b: SymF(V.ctx().uf("arctan2!", 2)(V.lift(a)[1], V.lift(b)[1])))
_elementwise2("ldexp", lambda a, b: a * 2.0**b)


def _anyall(name, op, unit):
    real = getattr(np, name)

    def f(a, axis=None, *args, **k):
        if args or k or not has_sym(a):
            return real(a, axis, *args, **k)
        v = getattr(a, "_values", a)
        v = v if isinstance(v, np.ndarray) else shim.asarray(v, dtype=object)
        from .loader import sx_call

        if axis is None:
            return sx_call(any if name == "any" else all, list(v.flat))
        r = shim._ov[op].reduce(v, axis=axis)
        return pandas.Series(r, index=a.columns if axis == 0 else a.index) if isinstance(a, pandas.DataFrame) and r.ndim == 1 else r

    f.__name__ = name
    override(f)


_anyall("any", "logical_or", False)
_anyall("all", "logical_and", True)


@override
def isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


@override
def isposinf(x, *a, **k):
    return shim.isinf(x) & (x > 0) if has_sym(x) else np.isposinf(x, *a, **k)


@override
def isneginf(x, *a, **k):
    return shim.isinf(x) & (x < 0) if has_sym(x) else np.isneginf(x, *a, **k)


@override
def signbit(x, *a, **k):
    return x < 0 if has_sym(x) else np.signbit(x, *a, **k)


@override
def fromiter(it, dtype, count=-1, **k):
    xs = list(it)
    if has_sym(xs) and _floatish(dtype):
        return arr_of(xs if count < 0 else xs[:count])
    return np.fromiter(xs, dtype, count, **k)


@override
def divmod_(a, b):
    return (np.floor_divide(a, b), np.mod(a, b)) if has_sym(a) or has_sym(b) else np.divmod(a, b)


shim._ov["divmod"] = shim._ov.pop("divmod")


@override
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None or not (has_sym(x) or has_sym(xp) or has_sym(fp)):
        return np.interp(x, xp, fp, left, right, period)
    xp, fp = _flat(xp), _flat(fp)
    lo, hi = fp[0] if left is None else left, fp[-1] if right is None else right

    def one(v):
        if bool(v < xp[0]):
            return lo
        for i in _py_range(len(xp) - 1):
            if bool(v < xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1] if bool(v == xp[-1]) else hi

    return one(x) if isinstance(x, Sym) or np.ndim(x) == 0 else np.frompyfunc(one, 1, 1)(_obj(x))


@override
def bincount(x, weights=None, minlength=0):
    if not has_sym(weights):
        return np.bincount(x, weights, minlength)
    x = [int(i) for i in _flat(x)]
    out = [0.0] * max([minlength] + [i + 1 for i in x])
    for i, w in zip(x, _flat(weights)):
        out[i] = out[i] + w
    return arr_of(out)


def _inv1(e):
    if isinstance(e, SymB):
        return ~e
    if isinstance(e, (bool, np.bool_)):
        return not e
    return ~e


@override
def invert(x, *a, **k):
    if isinstance(x, np.ndarray) and x.dtype == object and not a and not k:
        return np.frompyfunc(_inv1, 1, 1)(x)
    if isinstance(x, SymB):
        return ~x
    return np.invert(x, *a, **k)


shim._ov["bitwise_not"] = invert
shim._ov["logical_not"] = lambda x, *a, **k: invert(x) if has_sym(x) else np.logical_not(x, *a, **k)


@override
def count_nonzero(a, *r, **k):
    return np.count_nonzero(a, *r, **k)


@override
def float64(x=0.0):
    return x if isinstance(x, SymF) else np.float64(x)


# np.float64 is used as a type as well (astype, isinstance): keep the real type, calls on it are
# intercepted by the call hook only for bare names
del shim._ov["float64"]


@override
def nan_to_num(x, *a, **k):
    if has_sym(x):
        v = _obj(x)
        return np.frompyfunc(lambda e: e if isinstance(e, Sym) else float(np.nan_to_num(e)), 1, 1)(v)
    return np.nan_to_num(x, *a, **k)


def _nanless(fname):
    real = getattr(np, fname)
    base = getattr(np, fname[3:])

    def f(a, axis=None, *args, **k):
        if has_sym(a) and axis is None:
            v = arr_of([e for e in _obj(a).flat if not isnan_(e)])
            return base(v, *args, **k)
        return real(a, axis, *args, **k)

    f.__name__ = fname
    override(f)


for _n in ("nanmean", "nanstd", "nanvar", "nansum", "nanmedian"):
    _nanless(_n)


@override
def array_equal(a, b, **k):
    if has_sym(a) or has_sym(b):
        a, b = _obj(a), _obj(b)
        if a.shape != b.shape:
            return False
        return bool(all(bool(x == y) for x, y in zip(a.flat, b.flat)))
    return np.array_equal(a, b, **k)


@override
def cov(*a, **k):
    return np.cov(*a, **k)


# --------------------------------------------------------------------------- math
class MathShim(types.ModuleType):
    def __init__(self):
        import math

        super().__init__("math")
        self.__dict__["_m"] = math

    def __getattr__(self, n):
        return getattr(self.__dict__["_m"], n)


mathshim = MathShim()


def _mathfn(name, onsym):
    import math

    real = getattr(math, name)

    def f(*a, **k):
        return onsym(*a, **k) if has_sym(list(a)) else real(*a, **k)

    f.__name__ = name
    mathshim.__dict__[name] = f


def _domain(f, bad):
    def g(x, *a):
        if bool(bad(x)):
            raise ValueError("math domain error")
        return f(x, *a)

    return g


def _msum(xs, start=0.0):
    r = start
    for x in xs:
        r = r + x
    return r


def _mprod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


for _n in ("exp", "sin", "cos", "tan", "fabs", "exp2", "expm1", "cbrt", "hypot", "fmod", "degrees", "radians", "tanh", "sinh", "cosh"):
    _mathfn(_n, lambda x, *a, _n=_n: getattr(V.as_sym(x), _n)(*a))
_mathfn("sqrt", _domain(lambda x: V.as_sym(x).sqrt(), lambda x: x < 0))
_mathfn("log", _domain(lambda x, b=None: x.log() if b is None else x.log() / np.log(b), lambda x: x <= 0))
for _n in ("log10", "log2"):
    _mathfn(_n, _domain(lambda x, _n=_n: getattr(V.as_sym(x), _n)(), lambda x: x <= 0))
_mathfn("log1p", _domain(lambda x: x.log1p(), lambda x: x <= -1))
_mathfn("pow", lambda x, y: V.as_sym(x) ** y)
_mathfn("copysign", lambda x, y: V.ite(y >= 0, abs(x), -abs(x)))
for _n, _v in (("isnan", False), ("isinf", False), ("isfinite", True)):
    _mathfn(_n, lambda x, _v=_v: _v)
_mathfn("fsum", _msum)
_mathfn("sumprod", lambda p, q: _msum([x * y for x, y in zip(p, q)]))
_mathfn("prod", lambda xs, start=1: _mprod(xs, start))
_mathfn("dist", lambda p, q: _msum([(x - y) * (x - y) for x, y in zip(p, q)]).sqrt())
_mathfn("isclose", lambda a, b, rel_tol=1e-09, abs_tol=0.0: abs(a - b) <= smax2(rel_tol * smax2(abs(a), abs(b)), abs_tol))


# --------------------------------------------------------------------------- pandas
def _has_sym_data(d):
    if isinstance(d, dict):
        return any(has_sym(v) for v in d.values())
    if isinstance(d, pandas.DataFrame):
        return any(has_sym(d[c]) for c in d.columns) if d.columns.is_unique else False
    return has_sym(d)


def patch_frames():
    """a float column of symbolic reals is an object column: requests for a float type leave it as it is"""
    for cls in (pandas.DataFrame, pandas.Series):
        init = cls.__init__

        def __init__(self, data=None, *a, _init=init, dtype=None, **k):
            if dtype is not None and V.CTX is not None and _floatish(dtype) and _has_sym_data(data):
                dtype = None
            _init(self, data, *a, dtype=dtype, **k)

        cls.__init__ = __init__
        to_numpy = cls.to_numpy

        def to_numpy_(self, dtype=None, *a, _f=to_numpy, **k):
            if dtype is not None and V.CTX is not None and _floatish(dtype) and _has_sym_data(self):
                dtype = None
            return _f(self, dtype, *a, **k)

        cls.to_numpy = to_numpy_
        astype = cls.astype

        def astype_(self, dtype, *a, _f=astype, **k):
            if V.CTX is not None and not self.empty:
                if isinstance(dtype, dict):
                    dtype = {c: t for c, t in dtype.items() if not (_floatish(t) and c in self and has_sym(self[c]))}
                elif _floatish(dtype) and _has_sym_data(self):
                    return self.copy()
            return _f(self, dtype, *a, **k)

        cls.astype = astype_
    real_numeric = pandas.to_numeric

    def to_numeric(arg, *a, **k):
        return arg if has_sym(arg) else real_numeric(arg, *a, **k)

    pandas.to_numeric = to_numeric
    from pandas.core.groupby.groupby import GroupBy

    for n in ("std", "var", "sem", "median"):
        real = getattr(GroupBy, n)

        def f(self, *a, _real=real, _n=n, **k):
            if V.CTX is not None and _has_sym_data(self.obj):
                return self.agg(lambda x: getattr(x, _n)(*a, **k))
            return _real(self, *a, **k)

        setattr(GroupBy, n, f)


def _col(op, v, skipna, ddof):
    els = list(v)
    nn = [e for e in els if not (e is None or isnan_(e))]
    if len(nn) != len(els) and not skipna:
        return float("nan")
    if not nn:
        return float("nan")
    if op == "max":
        return _sel(nn, smax2)
    if op == "min":
        return _sel(nn, smin2)
    n = len(nn)
    s = nn[0]
    for e in nn[1:]:
        s = s + e
    if op == "sum":
        return s
    mean = s / n
    if op == "mean":
        return mean
    if op == "median":
        q = sorted(nn)
        return q[n // 2] if n % 2 else (q[n // 2 - 1] + q[n // 2]) / 2
    if n - ddof <= 0:
        return float("nan")
    ss = 0
    for e in nn:
        ss = ss + (e - mean) * (e - mean)
    var = ss / (n - ddof)
    if op == "var":
        return var
    if op == "std":
        return np.sqrt(var)
    if op == "sem":
        return np.sqrt(var) / np.sqrt(float(n)) if False else np.sqrt(var / n)
    raise V.EngineLimit(op)


def revive(a):
    """numbers read from a text that stand for symbolic terms (their literals were written into it)"""
    if V.CTX is None or not V.CTX.magic or not isinstance(a, np.ndarray) or a.dtype.kind != "f" or not (np.abs(a) > V.MAGIC_LO).any():
        return a
    out = np.empty(a.shape, dtype=object)
    for i, e in np.ndenumerate(a):
        out[i] = V.unmagic_near(e)
    return out


def patch_readers():
    import pandas

    for n in ("read_csv", "read_table", "read_fwf"):
        real = getattr(pandas, n)

        def f(*a, _real=real, **k):
            d = _real(*a, **k)
            if V.CTX is not None and isinstance(d, pandas.DataFrame):
                cols = {c: revive(d[c].to_numpy()) for c in d.columns}
                if any(v.dtype == object and has_sym(v) for v in cols.values()):
                    d = pandas.DataFrame({c: (cols[c] if has_sym(cols[c]) else d[c]) for c in d.columns}, index=d.index)
            return d

        f.__name__ = n
        setattr(pandas, n, f)
    for n in ("loadtxt", "genfromtxt", "fromstring"):
        real = getattr(np, n)

        def g(*a, _real=real, **k):
            return revive(_real(*a, **k))

        g.__name__ = n
        override(g)


def patch_pandas():
    from pandas.core import nanops

    patch_readers()
    patch_frames()
    from pandas.core.internals.blocks import Block

    coerce = Block.coerce_to_target_dtype

    def coerce_to_target_dtype(self, other, raise_on_upcast=True):
        # a symbolic real may be put into a column of numbers
        return coerce(self, other, raise_on_upcast and not has_sym(other if isinstance(other, (list, tuple, np.ndarray)) else [other]))

    Block.coerce_to_target_dtype = coerce_to_target_dtype

    def wrap(name, op, has_ddof=False):
        real = getattr(nanops, name)

        def f(values, *args, axis=None, skipna=True, mask=None, **k):
            v = values
            if isinstance(v, np.ndarray) and v.dtype == object and has_sym(v):
                ddof = k.get("ddof", args[0] if args else 1)
                if v.ndim == 1:
                    return _col(op, v, skipna, ddof)
                ax = 0 if axis is None else axis
                vv = v if ax == 1 else v.T
                return arr_of([_col(op, row, skipna, ddof) for row in vv])
            if isinstance(v, np.ndarray) and v.dtype == object and V.CTX is not None and v.size:
                # object columns that stand for float columns but hold only concrete values here
                try:
                    values = v.astype(float)
                except (TypeError, ValueError):
                    values = v
            return real(values, *args, axis=axis, skipna=skipna, mask=mask, **k)

        f.__name__ = name
        setattr(nanops, name, f)

    for n, op in (
        ("nanmean", "mean"),
        ("nanstd", "std"),
        ("nanvar", "var"),
        ("nansem", "sem"),
        ("nanmax", "max"),
        ("nanmin", "min"),
        ("nanmedian", "median"),
        ("nansum", "sum"),
    ):
        wrap(n, op)


def patch_attrs():
    import attr
    from attr import validators as av

    IV = av._InstanceOfValidator
    real = IV.__call__

    def call(self, inst, a, value):
        from .loader import sx_call

        if isinstance(value, Sym) and sx_call(isinstance, value, self.type):
            return
        return real(self, inst, a, value)

    IV.__call__ = call


# --------------------------------------------------------------------------- histograms
@override
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not (isinstance(start, Sym) or isinstance(stop, Sym)):
        return np.linspace(start, stop, num, endpoint, retstep, dtype, axis)
    num = int(num)
    d = num - 1 if endpoint else num
    step = (stop - start) / d if d > 0 else float("nan")
    out = [start + i * step if i else start + 0.0 for i in range(num)]
    if endpoint and num > 1:
        out[-1] = stop + 0.0
    a = arr_of(out)
    return (a, step) if retstep else a


@override
def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    if not (isinstance(start, Sym) or isinstance(stop, Sym)):
        return np.logspace(start, stop, num, endpoint, base, dtype, axis)
    return arr_of([base**e for e in linspace(start, stop, num, endpoint)])


@override
def geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    if not (isinstance(start, Sym) or isinstance(stop, Sym)):
        return np.geomspace(start, stop, num, endpoint, dtype, axis)
    a = logspace(np.log10(start), np.log10(stop), num, endpoint)
    if num > 0:
        a[0] = start
        if num > 1 and endpoint:
            a[-1] = stop
    return a


def _flat(a):
    v = getattr(a, "_values", a)
    return list(np.asarray(v, dtype=object).flat)


def _edges(a, bins, range):
    if np.ndim(bins):
        e = _flat(bins)
        for x, y in zip(e, e[1:]):
            if bool(x > y):
                raise ValueError("`bins` must increase monotonically, when an array")
        return e
    if isinstance(bins, str):
        raise V.EngineLimit("automatic number of bins of symbolic data")
    els = _flat(a)
    lo, hi = range if range is not None else ((_sel(els, smin2), _sel(els, smax2)) if els else (0.0, 1.0))
    if bool(lo > hi):
        raise ValueError("max must be larger than min in range parameter.")
    if bool(lo == hi):
        lo, hi = lo - 0.5, hi + 0.5
    return _flat(linspace(lo, hi, int(bins) + 1))


@override
def histogram_bin_edges(a, bins=10, range=None, weights=None):
    a = _plain(a)
    if not (has_sym(a) or has_sym(bins) or has_sym(range)):
        return np.histogram_bin_edges(_num(a), bins, range, weights)
    return arr_of(_edges(a, bins, range))


def _plain(a):
    """symbolic values that are constants (3.0 kept as a term) as the floats they are"""
    v = getattr(a, "_values", a)
    if isinstance(v, np.ndarray) and v.dtype == object and has_sym(v):
        out = np.empty(v.shape, dtype=object)
        for i, e in enumerate(v.flat):
            if isinstance(e, SymF):
                t = V.z3.simplify(e.t)
                if not V.isval(t):
                    return a
                f = t.as_fraction()
                if f.numerator / f.denominator != f:
                    return a
                e = f.numerator / f.denominator
            elif isinstance(e, Sym):
                return a
            out.flat[i] = e
        return out
    return a


def _num(a):
    v = getattr(a, "_values", a)
    return np.asarray(v, dtype=float) if isinstance(v, np.ndarray) and v.dtype == object else v


@override
def histogram(a, bins=10, range=None, density=None, weights=None):
    a, bins = _plain(a), _plain(bins)
    if not (has_sym(a) or has_sym(bins) or has_sym(range) or has_sym(weights)):
        return np.histogram(_num(a), _num(bins), range, density, weights)
    e = _edges(a, bins, range)
    els = _flat(a)
    ws = [1] * len(els) if weights is None else _flat(weights)
    if len(ws) != len(els):
        raise ValueError("weights should have the same shape as a.")
    n = len(e) - 1
    out = [SymI(V.z3.IntVal(0)) if weights is None else 0.0 for _ in _py_range(n)]
    for x, w in zip(els, ws):
        if isnan_(x):
            continue
        for i in _py_range(n):
            c = x >= e[i], (x <= e[i + 1] if i == n - 1 else x < e[i + 1])
            if not all(isinstance(t, SymB) for t in c):
                c = tuple(t if isinstance(t, SymB) else SymB(V.z3.BoolVal(bool(t))) for t in c)
            out[i] = out[i] + V.ite(c[0] & c[1], w, 0 if weights is None else 0.0)
    h = arr_of(out)
    edges = bins if isinstance(bins, np.ndarray) else arr_of(e)
    if density:
        tot = sum(out)
        h = arr_of([o / (e[i + 1] - e[i]) / tot for i, o in enumerate(out)])
    return h, edges


_py_range = __builtins__["range"] if isinstance(__builtins__, dict) else __builtins__.range


@override
def searchsorted(a, v, side="left", sorter=None):
    if not (has_sym(a) or has_sym(v)) or sorter is not None:
        return np.searchsorted(a, v, side, sorter)
    els = _flat(a)

    def one(x):
        k = 0
        for y in els:
            if bool(y < x) if side == "left" else bool(y <= x):
                k += 1
            else:
                break
        return k

    if isinstance(v, Sym) or np.ndim(v) == 0:
        return one(v)
    return np.array([one(x) for x in _flat(v)], dtype=int).reshape(np.shape(v))


@override
def digitize(x, bins, right=False):
    if not (has_sym(x) or has_sym(bins)):
        return np.digitize(x, bins, right)
    return searchsorted(bins, x, "left" if right else "right")
