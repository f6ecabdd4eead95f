"""Path engine: symbolic execution by re-execution with solver-decided forks."""
import json
import math
import multiprocessing
import os
import sys
import time
import traceback
from fractions import Fraction

from . import values as V
from .values import EngineLimit, PathAbort, SymB, SymF, SymI, z3

import numpy as np


class Stats(dict):
    KEYS = (
        "paths queries sat unsat unknown asserts discharged trivial inconclusive concretised reached "
        "aborted limits solver_ms"
    ).split()

    def __init__(self):
        super().__init__({k: 0 for k in self.KEYS})

    def merge(self, o):
        for k, v in o.items():
            self[k] = self.get(k, 0) + v


_LIN = {}


def linear(t):
    """no product or quotient of non-constants (cached per term; terms are kept alive by the cache)"""
    i = t.get_id()
    r = _LIN.get(i)
    if r is not None:
        return r[0]
    st = [t]
    while st:
        x = st[-1]
        if x.get_id() in _LIN:
            st.pop()
            continue
        kids = x.children()
        todo = [k for k in kids if k.get_id() not in _LIN]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        ok = all(_LIN[k.get_id()][0] for k in kids)
        if ok and z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL:
                ok = sum(not (V.isval(c) or z3.is_int_value(c)) for c in kids) <= 1
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                ok = V.isval(kids[1]) or z3.is_int_value(kids[1])
            elif k == z3.Z3_OP_POWER:
                ok = False
        _LIN[x.get_id()] = (ok, x)
    return _LIN[i][0]


_SQ = {}


def roots(t):
    """ids of the square roots occurring in a term"""
    i = t.get_id()
    if i in _SQ:
        return _SQ[i][0]
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().name() == "sqrt!":
            out.add(x.get_id())
        st.extend(x.children())
    _SQ[i] = (out, t)
    return out


_SYM = {}


def symbols(t):
    """names of the variables and uninterpreted functions in a term"""
    i = t.get_id()
    if i in _SYM:
        return _SYM[i][0]
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    out = frozenset(out)
    _SYM[i] = (out, t)
    return out


def components(cs):
    """constraints grouped such that no two groups have a variable or function in common"""
    groups = []  # [symbols, constraints]
    where = {}  # symbol -> group
    for c in cs:
        sy = symbols(c)
        g = None
        for x in sy:
            h = where.get(x)
            if h is None or h is g:
                continue
            if g is None:
                g = h
                continue
            if len(h[0]) > len(g[0]):
                g, h = h, g
            g[0] |= h[0]
            g[1] += h[1]
            for y in h[0]:
                where[y] = g
            h[1] = None
        if g is None:
            g = [set(), []]
            groups.append(g)
        g[1].append(c)
        for x in sy:
            if x not in g[0]:
                g[0].add(x)
                where[x] = g
    return [g[1] for g in groups if g[1] is not None]


def join(models):
    """one model of models without common symbols"""
    models = [m for m in models if m is not None and len(m)]
    if len(models) == 1:
        return models[0]
    out = z3.Model()
    for m in models:
        for d in m.decls():
            v = m[d]
            if isinstance(v, z3.FuncInterp) and v.else_value() is None:
                if not v.num_entries():
                    continue
                f = z3.Z3_add_func_interp(out.ctx.ref(), out.model, d.ast, v.entry(0).value().as_ast())
                f = z3.FuncInterp(f, out.ctx)
                for i in range(v.num_entries()):
                    e = v.entry(i)
                    w = z3.AstVector()
                    for j in range(e.num_args()):
                        w.push(e.arg_value(j))
                    z3.Z3_func_interp_add_entry(out.ctx.ref(), f.f, w.vector, e.value().as_ast())
                continue
            out.update_value(d, v)
    return out


class Dual:
    """z3 solver that first tries to refute with the linear constraints alone; the (always satisfiable) definitions
    of square roots are left out until a constraint mentions them; nonlinear constraints are decided in groups
    without common variables, of which only those that changed are decided again"""

    def __init__(self):
        self.s = z3.Solver()
        self.l = z3.Solver()
        self.nl = [0]
        self.defs = {}
        self.act = [frozenset()]
        self.m = None
        self.timeout = 8000
        self.done = {}

    def define(self, root, *cs):
        self.defs[root.get_id()] = (root, cs)

    def touch(self, *ts):
        """-> whether definitions became active"""
        hit = False
        for t in ts:
            for i in roots(t):
                if i in self.defs and i not in self.act[-1]:
                    hit = True
                    self.act[-1] = self.act[-1] | {i}
                    self.add(*self.defs[i][1])
        return hit

    def touch_all(self):
        self.touch(*[r for r, _ in self.defs.values()])

    def set(self, k, v):
        self.timeout = v
        self.s.set(k, v)
        self.l.set(k, v)

    def add(self, *cs):
        for c in cs:
            if z3.is_expr(c) and z3.is_and(c):
                self.add(*c.children())
                continue
            if self.defs and z3.is_expr(c):
                self.touch(c)
            self.s.add(c)
            if not z3.is_expr(c) or linear(c):
                self.l.add(c)
            else:
                self.nl[-1] += 1

    def push(self):
        self.s.push()
        self.l.push()
        self.nl.append(self.nl[-1])
        self.act.append(self.act[-1])

    def pop(self):
        self.s.pop()
        self.l.pop()
        self.nl.pop()
        self.act.pop()

    def check(self, *a):
        if self.nl[-1] and all(linear(x) for x in a):
            r = self.l.check(*a)
            if r == z3.unsat:
                return r
        if not self.nl[-1] and all(linear(x) for x in a):
            r = self.s.check(*a)
            self.m = self.s.model() if r == z3.sat else None
            return r
        # z3 gets lost in nonlinear arithmetic after incremental use (and ignores its timeout then)
        todo, models, unknown = [], [], False
        for g in components([*self.s.assertions(), *a]):
            k = tuple(c.get_id() for c in g)
            d = self.done.get(k)
            if d is None or d[0] == z3.unknown and d[3] < self.timeout:
                todo.append((k, g))
            elif d[0] == z3.unsat:
                return d[0]
            elif d[0] == z3.unknown:
                unknown = True
            else:
                models.append(d[1])
        for k, g in todo:
            s = z3.Solver()
            s.set("timeout", self.timeout)
            s.add(*g)
            r = s.check()
            m = s.model() if r == z3.sat else None
            self.done[k] = (r, m, g, self.timeout)
            if r == z3.unsat:
                return r
            unknown |= r == z3.unknown
            models.append(m)
        if unknown:
            return z3.unknown
        self.m = models
        return z3.sat

    def model(self):
        if isinstance(self.m, list):
            self.m = join(self.m)
        return self.m

    def num_scopes(self):
        return len(self.nl) - 1

    def assertions(self):
        return self.s.assertions()


class Violation(BaseException):
    def __init__(self, label, info):
        self.label = label
        self.info = info


class Path:
    """state of one execution path"""

    def __init__(self, prefix, stats, query_ms=8000, assert_ms=30000):
        self.prefix = prefix
        self.taken = []
        self.pending = []  # alternative prefixes found on this path
        self.stats = stats
        self.solver = Dual()
        self.query_ms = query_ms
        self.assert_ms = assert_ms
        self.solver.set("timeout", query_ms)
        self.model = None
        self.inputs = {}  # name -> (kind, term / meta)
        self.ufcalls = {}  # name -> [(argterms, term)]
        self.magic = {}
        self.rounds_formats = True  # False: formatted numbers keep all digits
        self.magic_terms = {}
        self.printing = False
        self.keep = []
        self.memo = {}
        self.known = {}
        self.logs = {}
        self.exps = {}
        self.ufs = {}
        self.ufd = {}
        self.lazy = []
        self.counter = 0
        self.degraded = 0
        self.observed = {}
        self.replay_only = False
        self.rounding = 0.0

    # ---------------------------------------------------------------- solver
    def add(self, c):
        if isinstance(c, SymB):
            c = c.t
        if z3.is_expr(c) and self.solver.touch(c):
            self.model = None
        self.solver.add(c)
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def _check(self, *assumps):
        t = time.time()
        self.stats["queries"] += 1
        r = self.solver.check(*assumps)
        self.stats["solver_ms"] += (time.time() - t) * 1000
        if r == z3.sat:
            self.stats["sat"] += 1
        elif r == z3.unsat:
            self.stats["unsat"] += 1
        else:
            self.stats["unknown"] += 1
        return r

    def feasible(self, c):
        """(r, model) of pc & c"""
        self.solver.push()
        self.solver.add(c)
        r = self._check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        return r, m

    def fork(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None:
            return k[0]
        d = self._fork(c)
        n = z3.simplify(z3.Not(c))
        self.known[c.get_id()] = (d, c)
        self.known[n.get_id()] = (not d, n)
        return d

    def _fork(self, c):
        if self.solver.touch(c):
            self.model = None
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.taken.append(d)
            self.solver.add(c if d else z3.Not(c))
            self.model = None
            return d
        # which sides are feasible?
        side = None
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if z3.is_true(v):
                side = True
            elif z3.is_false(v):
                side = False
        mt = mf = None
        if side is True:
            t_ok = True
            mt = self.model
            r, mf = self.feasible(z3.Not(c))
            f_ok = r != z3.unsat
        elif side is False:
            f_ok = True
            mf = self.model
            r, mt = self.feasible(c)
            t_ok = r != z3.unsat
        else:
            r, mt = self.feasible(c)
            t_ok = r != z3.unsat
            if t_ok:
                r, mf = self.feasible(z3.Not(c))
                f_ok = r != z3.unsat
            else:
                f_ok = True
        if t_ok and f_ok:
            self.pending.append(self.taken + [False])
        d = t_ok
        self.taken.append(d)
        self.solver.add(c if d else z3.Not(c))
        self.model = mt if d else mf
        if self.counter > 20000:
            raise EngineLimit("fork budget")
        self.counter += 1
        return d

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathAbort("infeasible")
            else:
                raise EngineLimit("unknown path condition")
        return self.model

    # ---------------------------------------------------------------- concretisation
    def concretise_int(self, x):
        if isinstance(x, SymI):
            t = z3.simplify(x.t)
        else:
            t = x
        if z3.is_int_value(t):
            return t.as_long()
        # enumerate the feasible values by forking (complete): candidates in the order a fixed solver
        # call proposes them, replayed deterministically from the prefix
        n = 0
        base = 0
        while True:
            # deterministic candidate order: 0, 1, -1, 2, -2 ... for small ranges
            k = base // 2 + 1 if base % 2 else -(base // 2)
            base += 1
            if self.fork(t == k):
                return k
            n += 1
            if n > 64:
                m = self.get_model()
                v = m.eval(t, model_completion=True).as_long()
                self.degraded += 1
                self.stats["concretised"] += 1
                self.add(t == v)
                return v

    def concretise_real(self, x):
        t = z3.simplify(x.t)
        if V.isval(t):
            return float(t.as_fraction())
        m = self.get_model()
        v = model_frac(m, t)
        self.degraded += 1
        self.stats["concretised"] += 1
        fv = float(v)
        self.solver.push()
        self.solver.add(t == V.rv(fv))
        r = self._check()
        if r == z3.sat:
            self.model = self.solver.model()
        else:
            self.solver.pop()
            self.add(t == z3.Q(v.numerator, v.denominator))
        return fv

    # ---------------------------------------------------------------- fresh/magic
    def fresh(self, base="t", sort="real"):
        self.memo["n"] = self.memo.get("n", 0) + 1
        nm = f"{base}!{self.memo['n']}"
        return z3.Real(nm) if sort == "real" else z3.Int(nm)

    def magic_literal(self, s):
        k = s.t.get_id()
        f = self.magic_terms.get(k)
        if f is None:
            f = 3.0e201 * (1 + (len(self.magic_terms) + 1) * 2.0**-20)
            self.magic_terms[k] = f
            self.magic[f] = s
            self.keep.append(s)
        return repr(f)

    # ---------------------------------------------------------------- functions
    def f_sqrt(self, x):
        t = z3.simplify(x.t)
        if V.isval(t):
            if t.as_fraction() < 0:
                return float("nan")
            c = _sqrt_const(t.as_fraction())
            if c is not None:
                return SymF(c)
        if not V.nonneg(t) and not V.nonneg(x.t) and self.fork(t < 0):
            return float("nan")
        return self._sqrt_pos(t)

    def _sqrt_pos(self, t):
        k = ("sqrt", t.get_id())
        if k not in self.memo:
            self.keep.append(t)
            # sqrt(c * p) as sqrt(c) * sqrt(p), p with leading coefficient one
            f, p = _content(t)
            kp = ("root", p.get_id())
            if kp not in self.memo:
                s = self.uf("sqrt!", 1)(p)
                self.solver.define(s, s >= 0, s * s == p)
                self.keep.append(p)
                self.memo[kp] = s
            self.memo[k] = self.memo[kp] if f is None else f * self.memo[kp]
        return SymF(self.memo[k])

    def uf(self, name, n):
        k = (name, n)
        if k not in self.ufd:
            self.ufd[k] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
        return self.ufd[k]

    def pinned(self, t):
        """the value of t if the path condition forces it to one rational constant, else t"""
        if V.isval(t):
            return t
        m = self.get_model()
        v = m.eval(t, model_completion=True)
        if not z3.is_rational_value(v):
            return t
        r, _ = self.feasible(t != v)
        return v if r == z3.unsat else t

    def f_log(self, name, x):
        t = self.pinned(z3.simplify(x.t))
        if V.isval(t):
            v = float(t.as_fraction())
            if v > 0:
                l = V.rv(getattr(math, name)(v))
                base = {"log10": "exp10", "log": "exp", "log2": "exp2"}[name]
                k = (name, t.get_id())
                if k not in self.memo:
                    self.memo[k] = l
                    self.keep.append(t)
                    for a, e in self.exps.get(base, []):
                        self.solver.add((a < l) == (e < t), (a == l) == (e == t))
                        self.model = None
                    for t2, l2 in self.logs.get(name, []):
                        if not (V.isval(t2) and V.isval(l2)):
                            self.solver.add((t < t2) == (l < l2), (t == t2) == (l == l2))
                            self.model = None
                    self.logs.setdefault(name, []).append((t, l))
                return SymF(l)
        if self.fork(t <= 0):
            return float("-inf") if self.fork(t == 0) else float("nan")
        k = (name, t.get_id())
        if k in self.memo:
            return SymF(self.memo[k])
        l = self.uf(name + "!", 1)(t)
        self.keep.append(t)
        self.memo[k] = l
        base = {"log10": "exp10", "log": "exp", "log2": "exp2"}[name]
        for t2, l2 in self.logs.get(name, []):
            self.solver.add((t < t2) == (l < l2), (t == t2) == (l == l2))
        for a, e in self.exps.get(base, []):
            self.solver.add((a < l) == (e < t), (a == l) == (e == t))
        one = z3.RealVal(1)
        self.solver.add((t > 1) == (l > 0), (t == one) == (l == 0))
        self.logs.setdefault(name, []).append((t, l))
        self.model = None
        return SymF(l)

    def f_exp(self, name, x):
        t = self.pinned(z3.simplify(x.t))
        fname = {"exp10": "log10", "exp": "log", "exp2": "log2"}[name]
        if V.isval(t):
            v = float(t.as_fraction())
            b = {"exp10": 10.0, "exp": math.e, "exp2": 2.0}[name]
            return SymF(V.rv(b**v if name != "exp" else math.exp(v)))
        k = (name, t.get_id())
        if k in self.memo:
            return self._rounded(SymF(self.memo[k]))
        e = self.uf(name + "!", 1)(t)
        self.keep.append(t)
        self.memo[k] = e
        self.solver.add(e > 0)
        for a2, e2 in self.exps.get(name, []):
            self.solver.add((t < a2) == (e < e2), (t == a2) == (e == e2))
        for tt, l in self.logs.get(fname, []):
            self.solver.add((t < l) == (e < tt), (t == l) == (e == tt))
        self.solver.add((t > 0) == (e > 1), (t == 0) == (e == 1))
        self.exps.setdefault(name, []).append((t, e))
        self.model = None
        return self._rounded(SymF(e))

    def _rounded(self, x):
        """result of a library function with a relative rounding error (only when asked for)"""
        if not self.rounding:
            return x
        r = self.fresh("rnd")
        self.keep.append(r)
        lo, hi = x.t * V.rv(1 - self.rounding), x.t * V.rv(1 + self.rounding)
        self.solver.add(r >= lo, r <= hi)
        self.model = None
        return SymF(r)

    def round_digits(self, x, p):
        """x rounded to p significant decimal digits: exact for 1e-8 <= |x| < 1e8, else some number that near"""
        if not self.rounds_formats:
            return x
        k = ("digits", p, x.t.get_id())
        if k not in self.memo:
            r, n = self.fresh("dig"), self.fresh("dig", "int")
            a = z3.If(x.t >= 0, x.t, -x.t)
            d = z3.If(r >= x.t, r - x.t, x.t - r)
            alt = [z3.And(x.t == 0, r == 0)]
            for e in range(-8, 8):
                lo, unit = Fraction(10) ** e, Fraction(10) ** (e - p + 1)
                alt.append(z3.And(a >= V.rv(lo), a < V.rv(lo * 10), r * V.rv(1 / unit) == z3.ToReal(n), d <= V.rv(unit / 2)))
            big = z3.Or(a < V.rv(Fraction(1, 10**8)), a >= V.rv(10**8))
            alt.append(z3.And(x.t != 0, big, d <= V.rv(Fraction(5) * Fraction(10) ** -p) * a))
            self.solver.add(z3.Or(alt))
            self.model = None
            self.keep += [x.t, r, n]
            self.memo[k] = r
        return SymF(self.memo[k])

    def f_uf(self, name, x, bounded=False):
        t = z3.simplify(x.t)
        if V.isval(t) and hasattr(math, name):
            return SymF(V.rv(getattr(math, name)(float(t.as_fraction()))))
        k = (name, t.get_id())
        if k not in self.memo:
            r = self.uf(name + "!", 1)(t)
            self.keep.append(t)
            if bounded:
                self.solver.add(r >= -1, r <= 1)
                self.model = None
            self.memo[k] = r
        return SymF(self.memo[k])

    def f_pow(self, x, o):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o.item()
        if isinstance(o, (SymF, SymI)):
            t = z3.simplify(o.t)
            if V.isval(t) or z3.is_int_value(t):
                o = float(t.as_fraction())
            else:
                l = V.lift(o)
                return SymF(self.uf("pow!", 2)(x.t, l[1]))
        if not V.is_num(o):
            return NotImplemented
        o = float(o)
        if o != o:
            return o
        if o == int(o) and abs(o) <= 12:
            n = int(abs(o))
            if n == 0:
                return SymF(z3.RealVal(1))
            r = x.t
            for _ in range(n - 1):
                r = V.mul(r, x.t)
            if o < 0:
                return V.div(z3.RealVal(1), r)
            return SymF(r)
        if 2 * o == int(2 * o) and abs(o) <= 6:  # x**1.5 = x * sqrt(x)
            s = self.f_sqrt(x)
            k = int(abs(o))
            r = s if k == 0 else s * self.f_pow(x, k)
            return r if o > 0 else 1.0 / r
        t = z3.simplify(x.t)
        if V.isval(t) and t.as_fraction() > 0:
            return SymF(V.rv(float(t.as_fraction()) ** o))
        return SymF(self.uf("pow!", 2)(x.t, V.rv(o)))

    def f_rpow(self, base, x):
        if isinstance(base, np.ndarray):
            return NotImplemented
        if V.is_num(base):
            if float(base) == 10.0:
                return self.f_exp("exp10", x)
            if float(base) == 2.0:
                return self.f_exp("exp2", x)
            if float(base) == math.e:
                return self.f_exp("exp", x)
        l = V.lift(base)
        if l is None:
            return NotImplemented
        return SymF(self.uf("pow!", 2)(l[1], x.t))


def _sqrt_const(fr):
    """square root of a constant: exact where it is rational, otherwise rounded as in the code"""
    n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if n * n == fr.numerator and d * d == fr.denominator:
        return z3.Q(n, d)
    if fr > Fraction(1, 10**12):
        return V.rv(math.sqrt(float(fr)))
    return None


def _content(t):
    """(sqrt(c), p) with t = c * p and p with leading coefficient 1; (None, t) where t is not a small polynomial"""
    if not _small(t, 150):
        return None, t
    s = z3.simplify(t, som=True)
    if not _small(s, 400):
        return None, t
    lead = s.arg(0) if z3.is_add(s) else s
    c = lead.arg(0) if z3.is_mul(lead) and V.isval(lead.arg(0)) else lead if V.isval(lead) else None
    if c is None:
        return None, s
    fr = abs(c.as_fraction())
    f = _sqrt_const(fr) if fr else None
    if f is None or fr == 1:
        return None, s
    return f, z3.simplify(s * z3.Q(fr.denominator, fr.numerator), som=True)


def _small(t, limit):
    st, n = [t], 0
    while st:
        x = st.pop()
        n += 1
        if n > limit:
            return False
        st.extend(x.children())
    return True


def model_frac(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.as_fraction()
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(30).as_fraction()
    raise EngineLimit(f"cannot evaluate {v} in the model")
