"""Symbolic scalars (SymF real, SymI integer, SymB boolean) and the path context.

Floats are modelled as mathematical reals (finite); NaN and +/-inf never live inside a SymF, they are
ordinary Python floats that a harness (or a division by zero, log of a non-positive ...) introduces by
case split, so their IEEE propagation/comparison rules are the host's own.  A truth test of a symbolic
condition forks the path: the engine asks the solver which sides are feasible under the current path
condition and explores each of them by re-execution.
"""
import math
import numbers
import re
import sys
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    import z3

    sys.path.remove(_VT)

# roots of huge rationals in this heuristic take minutes and ignore the solver's time limit
z3.set_param("smt.arith.nl.grobner_perfect_squares", False)

import numpy as np


class PathAbort(BaseException):
    """the current path is infeasible or has been cut (assume)"""


class EngineLimit(Exception):
    """the engine cannot encode an operation"""


class Stop(BaseException):
    pass


CTX = None  # current path context (engine.Path)


def ctx():
    if CTX is None:
        raise EngineLimit("symbolic value used outside of a path")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


_RV = {}


def nice(x):
    """the number a float stands for: 0.1 is one tenth and 1 / 3 a third (rounding of constants is not modelled)"""
    f = Fraction(x)
    if f.denominator > 1 << 20:
        for g in (f.limit_denominator(1000), Fraction(repr(x)) if len(repr(x)) <= 14 else f):
            if float(g) == x:
                return g
    return f


def rv(x):
    """exact RealVal of a Python/numpy number"""
    if isinstance(x, bool) or isinstance(x, np.bool_):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    x = float(x)
    r = _RV.get(x)
    if r is None:
        f = nice(x)
        r = _RV[x] = z3.Q(f.numerator, f.denominator)
    return r


def is_num(x):
    return isinstance(x, (numbers.Real, np.number, np.bool_)) and not isinstance(x, (SymF, SymI, SymB))


def _finite(x):
    return math.isfinite(x)


MAGIC_LO = 1e200


def _unmagic(o):
    """a float literal that stands for a symbolic term (see SymF.__format__)"""
    if isinstance(o, (float, np.floating)) and abs(o) > MAGIC_LO and CTX is not None:
        t = CTX.magic.get(float(o))
        if t is not None:
            return t
        t = CTX.magic.get(-float(o))
        if t is not None:
            return -t
    return o


def unmagic_near(o):
    """the same for a literal read back by a parser that may be off by a rounding error"""
    o = float(o)
    if abs(o) > MAGIC_LO and math.isfinite(o) and CTX is not None:
        for k, t in CTX.magic.items():
            if abs(abs(o) - k) < 1e-9 * k:
                return t if o > 0 else -t
    return o


class Sym:
    __slots__ = ()
    __array_priority__ = 0


def isnan_(x):
    return isinstance(x, (float, np.floating)) and x != x


def lift(o):
    """-> ('s', z3 real term) | ('n', python float nan/inf) | None"""
    if isinstance(o, SymF):
        return "s", o.t
    if isinstance(o, SymI):
        return "s", z3.ToReal(o.t)
    if isinstance(o, SymB):
        return "s", z3.If(o.t, z3.RealVal(1), z3.RealVal(0))
    if is_num(o):
        if isinstance(o, (float, np.floating)):
            o2 = _unmagic(o)
            if o2 is not o:
                return lift(o2)
            if not _finite(o):
                return "n", float(o)
        return "s", rv(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return None


def as_sym(x):
    return x._i() if isinstance(x, SymB) else x if isinstance(x, Sym) else SymF(lift(x)[1])


def mk(t):
    return SymF(t)


_SPEC = re.compile(r"[ +-]?#?0?\d*(?:\.(\d+))?([gGeEfF]?)$")


def formatted(s, spec):
    """the number that a format specification writes for s (rounded to its digits)"""
    m = _SPEC.match(spec)
    if not m:
        raise EngineLimit(f"format specification {spec!r} of a symbolic number")
    digits, kind = m.group(1), m.group(2).lower()
    if kind == "" and digits is None:
        return s
    digits = 6 if digits is None else int(digits)
    if not CTX.rounds_formats:
        return s
    if kind == "f":
        return round(s, digits)
    digits = digits + 1 if kind == "e" else max(digits, 1)
    return s if digits >= 17 else CTX.round_digits(s, digits)


class SymF(Sym):
    """symbolic finite real number standing for a float64"""

    __slots__ = ("t", "__weakref__")

    def __init__(self, t):
        self.t = t

    # ---- conversions -------------------------------------------------
    def __float__(self):
        return ctx().concretise_real(self)

    def __complex__(self):
        raise TypeError("complex() of a symbolic real")

    def __int__(self):
        return ctx().concretise_int(trunc_int(self))

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __bool__(self):
        return ctx().fork(self.t != 0)

    __hash__ = object.__hash__

    def __repr__(self):
        return self.__format__("")

    __str__ = __repr__

    def __format__(self, spec):
        if CTX is None or CTX.printing:
            return "<sym>"
        return CTX.magic_literal(formatted(self, spec))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError("symbolic values are not picklable")

    # ---- numpy duck methods -----------------------------------------
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def is_integer(self):
        return bool(SymB(z3.ToReal(z3.ToInt(self.t)) == self.t))

    def squeeze(self):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def astype(self, t, *a, **k):
        return self

    def sqrt(self):
        return ctx().f_sqrt(self)

    def square(self):
        return self * self

    def log10(self):
        return ctx().f_log("log10", self)

    def log(self):
        return ctx().f_log("log", self)

    def log2(self):
        return ctx().f_log("log2", self)

    def exp(self):
        return ctx().f_exp("exp", self)

    def sin(self):
        return ctx().f_uf("sin", self, bounded=True)

    def cos(self):
        return ctx().f_uf("cos", self, bounded=True)

    def tan(self):
        return self.sin() / self.cos()

    def absolute(self):
        return abs(self)

    def fabs(self):
        return abs(self)

    def floor(self):
        return SymF(z3.ToReal(z3.ToInt(self.t)))

    def ceil(self):
        return SymF(-z3.ToReal(z3.ToInt(-self.t)))

    def trunc(self):
        return SymF(z3.ToReal(trunc_int(self).t))

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def hypot(self, o):
        return (self * self + (o * o if isinstance(o, Sym) else float(o) ** 2)).sqrt()

    def cbrt(self):
        return -((-self) ** (1.0 / 3)) if ctx().fork(self.t < 0) else self ** (1.0 / 3)

    def exp2(self):
        return ctx().f_exp("exp2", self)

    def expm1(self):
        return self.exp() - 1

    def log1p(self):
        return (self + 1).log()

    def deg2rad(self):
        return self * (math.pi / 180)

    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)

    degrees = rad2deg

    def fmod(self, o):
        q = self / o
        return self - q.trunc() * o if isinstance(q, SymF) else q

    def rint(self):
        h = z3.ToInt(self.t + rv(0.5))
        # ties to even
        return SymF(
            z3.ToReal(
                z3.If(
                    z3.And(z3.ToReal(h) == self.t + rv(0.5), h % 2 != 0),
                    h - 1,
                    h,
                )
            )
        )

    def __round__(self, n=None):
        if n is None:
            return SymI(z3.ToInt(self.rint().t))
        scale = Fraction(10) ** int(n)
        return (self * scale).rint() / scale

    def sign(self):
        return SymF(z3.If(self.t > 0, rv(1), z3.If(self.t < 0, rv(-1), rv(0))))

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    # ---- arithmetic ---------------------------------------------------
    def _bin(self, o, f, special, rev=False):
        l = lift(o)
        if l is None:
            return NotImplemented
        if l[0] == "n":
            return special(l[1])
        return SymF(f(l[1], self.t) if rev else f(self.t, l[1]))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda c: c)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda c: -c)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda c: c, rev=True)

    def _mulinf(self, c):
        if c != c:
            return c
        if ctx().fork(self.t == 0):
            return float("nan")
        return c if ctx().fork(self.t > 0) else -c

    def __mul__(self, o):
        return self._bin(o, mul, self._mulinf)

    __rmul__ = __mul__

    def __truediv__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        if l[0] == "n":
            return l[1] if l[1] != l[1] else 0.0
        return div(self.t, l[1])

    def __rtruediv__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        if l[0] == "n":
            c = l[1]
            if c != c:
                return c
            return c if ctx().fork(self.t >= 0) else -c
        return div(l[1], self.t)

    def __floordiv__(self, o):
        r = self / o
        return r.floor() if isinstance(r, SymF) else (r if r is NotImplemented else np.floor(r))

    def __rfloordiv__(self, o):
        r = self.__rtruediv__(o)
        return r.floor() if isinstance(r, SymF) else (r if r is NotImplemented else np.floor(r))

    def __mod__(self, o):
        q = self.__floordiv__(o)
        if q is NotImplemented:
            return q
        return self - q * o

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __rdivmod__(self, o):
        q = o // self
        return q, o - q * self

    def __neg__(self):
        return SymF(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if nonneg(self.t):
            return self
        return SymF(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, o, mod=None):
        return ctx().f_pow(self, o)

    def __rpow__(self, o):
        return ctx().f_rpow(o, self)

    # ---- comparisons ---------------------------------------------------
    def _cmp(self, o, f, special):
        l = lift(o)
        if l is None:
            return NotImplemented
        if l[0] == "n":
            c = l[1]
            if c != c:
                return special is None
            return special(c)
        return SymB(f(self.t, l[1]))

    def __lt__(self, o):
        return self._cmpn(o, lambda a, b: a < b, lambda c: c > 0)

    def __le__(self, o):
        return self._cmpn(o, lambda a, b: a <= b, lambda c: c > 0)

    def __gt__(self, o):
        return self._cmpn(o, lambda a, b: a > b, lambda c: c < 0)

    def __ge__(self, o):
        return self._cmpn(o, lambda a, b: a >= b, lambda c: c < 0)

    def _cmpn(self, o, f, special):
        l = lift(o)
        if l is None:
            return NotImplemented
        if l[0] == "n":
            return False if l[1] != l[1] else special(l[1])
        return SymB(f(self.t, l[1]))

    def __eq__(self, o):
        if o is self:
            return True
        l = lift(o)
        if l is None:
            return NotImplemented
        if l[0] == "n":
            return False
        return SymB(zero_cond(self.t) if isval(l[1]) and l[1].as_fraction() == 0 else self.t == l[1])

    def __ne__(self, o):
        if o is self:
            return False
        l = lift(o)
        if l is None:
            return NotImplemented
        if l[0] == "n":
            return True
        return SymB(z3.Not(zero_cond(self.t)) if isval(l[1]) and l[1].as_fraction() == 0 else self.t != l[1])

    def between(self, a, b):
        return (self >= a) & (self <= b)


_INTCMP = {}


def isval(t):
    return z3.is_rational_value(t)


def mul(a, b):
    if isval(a) and isval(b):
        return z3.simplify(a * b)
    if isval(b):
        a, b = b, a
    if isval(a):
        v = a.as_fraction()
        if v == 1:
            return b
        if v == 0:
            return a
    elif a.eq(b) and z3.is_app(a) and a.num_args() and a.decl().name() == "sqrt!":
        return a.arg(0)  # roots are only taken of what is known not to be negative
    return a * b


def div(num, den):
    """num / den with numpy's float semantics for a zero denominator (warnings aside)"""
    c = ctx()
    den_s = z3.simplify(den)
    if isval(den_s):
        z = den_s.as_fraction() == 0
        if not z:
            if isval(num):
                return SymF(z3.simplify(num / den_s))
            return SymF(mul(z3.simplify(1 / den_s), num))
    else:
        z = c.fork(zero_cond(den))
    if z:
        if c.fork(zero_cond(num)):
            return float("nan")
        return float("inf") if c.fork(num > 0) else float("-inf")
    # cancel a syntactic common factor
    r = cancel(num, den)
    if r is not None:
        return SymF(r)
    return SymF(num / den)


def _parts(t):
    """summands"""
    if z3.is_add(t):
        out = []
        for ch in t.children():
            out += _parts(ch)
        return out
    return [t]


def _squares(t):
    """-> (constant, squared bases, remaining factors) of a product"""
    c, rest = 1, []
    for f in factors(t):
        if isval(f):
            c *= f.as_fraction()
        elif z3.is_app_of(f, z3.Z3_OP_POWER) and isval(f.arg(1)) and f.arg(1).as_fraction() % 2 == 0 and f.arg(1).as_fraction() > 0:
            rest += [f.arg(0)] * int(f.arg(1).as_fraction())
        elif z3.is_div(f) and isval(f.arg(1)):
            c /= f.arg(1).as_fraction()
            rest += factors(f.arg(0))
        else:
            rest.append(f)
    sq, single = [], []
    while rest:
        f = rest.pop()
        for i, g in enumerate(rest):
            if g.eq(f):
                del rest[i]
                sq.append(f)
                break
        else:
            single.append(f)
    return c, sq, single


def nonneg(t, depth=4):
    """syntactically a sum of non-negative terms"""
    if depth == 0:
        return False
    for x in _parts(t):
        c, sq, single = _squares(x)
        if c < 0:
            return False
        for f in single:
            if z3.is_app(f) and f.decl().name() == "sqrt!":
                continue
            if z3.is_add(f) and nonneg(f, depth - 1):
                continue
            return False
    return True


def zero_cond(t, depth=5):
    """a condition equivalent to t == 0, with products and sums of squares taken apart"""
    if depth == 0 or isval(t):
        return t == 0
    ps = _parts(t)
    if len(ps) == 1:
        c, sq, single = _squares(t)
        if c == 0:
            return z3.BoolVal(True)
        fs = {f.get_id(): f for f in sq + single}
        out = []
        for f in fs.values():
            if z3.is_app(f) and f.decl().name() == "sqrt!":
                out.append(zero_cond(f.arg(0), depth - 1))
            elif z3.is_add(f):
                out.append(zero_cond(f, depth - 1))
            else:
                out.append(f == 0)
        return z3.Or(*out) if len(out) > 1 else out[0] if out else z3.BoolVal(False)
    if all(nonneg(x) for x in ps):
        return z3.And(*[zero_cond(x, depth - 1) for x in ps])
    return t == 0


def factors(t):
    if z3.is_mul(t):
        out = []
        for ch in t.children():
            out += factors(ch)
        return out
    return [t]


def cancel(num, den):
    fd = factors(den)
    fn = factors(num)
    rest_d = []
    hit = False
    for f in fd:
        for i, g in enumerate(fn):
            if g.eq(f) and not isval(f):
                del fn[i]
                hit = True
                break
        else:
            rest_d.append(f)
    if not hit:
        return None

    def prod(fs):
        r = z3.RealVal(1)
        for f in fs:
            r = mul(r, f)
        return r

    n, d = prod(fn), prod(rest_d)
    if isval(d) and d.as_fraction() == 1:
        return n
    return n / d


def trunc_int(x):
    return SymI(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))


class SymB(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().fork(self.t)

    __hash__ = object.__hash__

    def _l(self, o):
        if isinstance(o, SymB):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        l = self._l(o)
        return NotImplemented if l is None else SymB(z3.And(self.t, l))

    __rand__ = __and__

    def __or__(self, o):
        l = self._l(o)
        return NotImplemented if l is None else SymB(z3.Or(self.t, l))

    __ror__ = __or__

    def __xor__(self, o):
        l = self._l(o)
        return NotImplemented if l is None else SymB(z3.Xor(self.t, l))

    __rxor__ = __xor__

    def __invert__(self):
        return SymB(z3.Not(self.t))

    logical_not = __invert__

    def any(self, *a, **k):
        return self

    all = any

    def __eq__(self, o):
        l = self._l(o)
        if l is None:
            if isinstance(o, (int, np.integer)):
                return bool(self) == bool(o) if o in (0, 1) else False
            return NotImplemented
        return SymB(self.t == l)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymB) else not r

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def _i(self):
        return SymI(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + (o._i() if isinstance(o, SymB) else o)

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, (SymB, bool, np.bool_)):
            return self & o
        return self._i() * o

    __rmul__ = __mul__

    def __repr__(self):
        return "<symbool>"

    def __deepcopy__(self, memo):
        return self


class SymI(Sym):
    """symbolic integer (Python int: unbounded)"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __int__(self):
        return ctx().concretise_int(self)

    __index__ = __int__

    def __hash__(self):
        return hash(ctx().concretise_int(self))

    def __bool__(self):
        return ctx().fork(self.t != 0)

    def __float__(self):
        return float(ctx().concretise_int(self))

    def __repr__(self):
        return self.__format__("")

    __str__ = __repr__

    def __format__(self, spec):
        if CTX is None or CTX.printing:
            return "<symint>"
        return format(ctx().concretise_int(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def conjugate(self):
        return self

    def item(self):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return True

    def f(self):
        return SymF(z3.ToReal(self.t))

    def _li(self, o):
        if isinstance(o, SymI):
            return o.t
        if isinstance(o, SymB):
            return o._i().t
        if isinstance(o, (int, np.integer, np.bool_)):
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, name, f, rev=False):
        l = self._li(o)
        if l is None:
            if lift(o) is None:
                return NotImplemented
            return getattr(self.f(), name)(o)
        return SymI(f(l, self.t) if rev else f(self.t, l))

    def __add__(self, o):
        return self._bin(o, "__add__", lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, "__sub__", lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, "__rsub__", lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, "__mul__", lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.f() / (o.f() if isinstance(o, SymI) else o)

    def __rtruediv__(self, o):
        return self.f().__rtruediv__(o)

    @staticmethod
    def _fdiv(a, b):
        # z3 div: remainder is non-negative; Python floors
        c = ctx()
        if c.fork(b == 0):
            raise ZeroDivisionError("integer modulo by zero")
        if c.fork(b > 0):
            return a / b, a % b
        q = (-a) / (-b)
        return q, a - q * b

    def __floordiv__(self, o):
        l = self._li(o)
        if l is None:
            return self.f().__floordiv__(o)
        return SymI(self._fdiv(self.t, l)[0])

    def __mod__(self, o):
        l = self._li(o)
        if l is None:
            return self.f().__mod__(o)
        return SymI(self._fdiv(self.t, l)[1])

    def __rfloordiv__(self, o):
        return SymI(self._fdiv(self._li(o), self.t)[0])

    def __rmod__(self, o):
        return SymI(self._fdiv(self._li(o), self.t)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymI(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymI(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, o):
        return self.f() ** o

    def __rpow__(self, o):
        return self.f().__rpow__(o)

    def sqrt(self):
        return self.f().sqrt()

    def log10(self):
        return self.f().log10()

    def floor(self):
        return self

    ceil = rint = trunc = floor

    def __round__(self, n=None):
        return self

    def _cmp(self, o, name, f):
        l = self._li(o)
        if l is None:
            if lift(o) is None:
                return NotImplemented
            return getattr(self.f(), name)(o)
        return SymB(f(self.t, l))

    def __lt__(self, o):
        return self._cmp(o, "__lt__", lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, "__le__", lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, "__gt__", lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, "__ge__", lambda a, b: a >= b)

    def __eq__(self, o):
        if o is self:
            return True
        return self._cmp(o, "__eq__", lambda a, b: a == b)

    def __ne__(self, o):
        if o is self:
            return False
        return self._cmp(o, "__ne__", lambda a, b: a != b)


def _uf_method(n):
    def f(self):
        return ctx().f_uf(n, self)

    return f


for _n in ("arcsin", "arccos", "arctan", "sinh", "cosh", "tanh"):
    setattr(SymF, _n, _uf_method(_n))


def _via_float(n):
    def f(self, *a):
        return getattr(self.f(), n)(*a)

    return f


for _n in (
    "square cbrt exp exp2 expm1 log log2 log1p sin cos tan sign hypot fmod deg2rad rad2deg radians degrees arcsin arccos arctan sinh cosh tanh"
).split():
    if not hasattr(SymI, _n):
        setattr(SymI, _n, _via_float(_n))
for _n, _f in (("absolute", abs), ("fabs", abs)):
    if not hasattr(SymI, _n):
        setattr(SymI, _n, lambda self, _f=_f: _f(self))

numbers.Number.register(SymF) if False else None


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(e, depth - 1) for e in x.flat)
    if depth <= 0:
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(e, depth - 1) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e, depth - 1) for e in x.values())
    v = getattr(x, "_values", None)
    if isinstance(v, np.ndarray):
        return has_sym(v)
    return False


def all_numeric_obj(a):
    """object ndarray all of whose elements are symbolic or plain real numbers"""
    return all(isinstance(e, (SymF, SymI, SymB)) or is_num(e) for e in a.flat)


def ite(c, a, b):
    """value-level if-then-else without forking"""
    if isinstance(c, SymB):
        la, lb = lift(a), lift(b)
        if la and lb and la[0] == "s" and lb[0] == "s":
            if isinstance(a, (SymI, int)) and isinstance(b, (SymI, int)) and not isinstance(a, bool):
                ta = a.t if isinstance(a, SymI) else z3.IntVal(a)
                tb = b.t if isinstance(b, SymI) else z3.IntVal(b)
                return SymI(z3.If(c.t, ta, tb))
            return SymF(z3.If(c.t, la[1], lb[1]))
        return a if bool(c) else b
    return a if c else b


def smax2(a, b):
    if isnan_(a) or isnan_(b):
        return float("nan")
    return ite(a >= b, a, b)


def smin2(a, b):
    if isnan_(a) or isnan_(b):
        return float("nan")
    return ite(a <= b, a, b)
