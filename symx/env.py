"""The harness environment.  A harness h(env) is one Python function that is run in two modes:

  SymEnv   inputs are symbolic, mcsas3 is the AST-instrumented package, checks are solver queries
  ConcEnv  inputs come from a solver model, mcsas3 is the unmodified package on the real numpy, pandas,
           h5py; checks are evaluated concretely (used to replay every counterexample and to validate
           the encoding on witnesses)
"""
import hashlib
import math
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as np
import pandas

from . import ratfun
from . import values as V
from .values import EngineLimit, PathAbort, Sym, SymB, SymF, SymI, z3


class CheckFailed(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label, detail)
        self.label = label
        self.detail = detail


class ReplayInvalid(BaseException):
    """the replayed input does not satisfy the harness' own assumptions"""


class PathEnd(BaseException):
    """stop this path after a candidate violation"""


MISSING = object()


class Base:
    def __init__(self, params):
        self.p = params
        self._undo = []
        self._tmp = None

    # ------------------------------------------------------------- environment control
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = os.path.realpath(tempfile.mkdtemp(prefix="symx_"))
        from pathlib import Path

        return Path(self._tmp)

    def patch(self, obj, name, val):
        had = name in vars(obj) if hasattr(obj, "__dict__") else True
        old = getattr(obj, name, MISSING)
        self._undo.append((obj, name, old, had))
        setattr(obj, name, val)

    def stub(self, name, f):
        """install a stand-in for an environment entry point (see stubs.POINTS)"""
        from . import stubs

        assert name in stubs.POINTS, name
        stubs.ACTIVE[name] = f

    def cleanup(self):
        from . import stubs

        stubs.ACTIVE.clear()
        for obj, name, old, had in reversed(self._undo):
            if old is MISSING or (not had and isinstance(obj, type)):
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self._undo = []
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def defer(self, obj, name, old):
        self._undo.append((obj, name, old, True))

    def all_digits(self):
        """formatted numbers are not rounded (where the text is only compared with itself)"""
        if self.symbolic:
            self.path.rounds_formats = False

    # ------------------------------------------------------------- containers
    def _ismode(self):
        return self.symbolic

    def arr(self, xs):
        raise NotImplementedError

    def df(self, cols, index=None):
        d = pandas.DataFrame(
            {k: self.arr(list(v)) for k, v in cols.items()},
            index=index,
        )
        return d

    # ------------------------------------------------------------- deep comparison
    def _flatten(self, a, b, where=""):
        """yield (a_i, b_i, path); a structural mismatch yields (False, None, path)"""
        a, b = self._plain(a), self._plain(b)
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
                yield MISSING, (a, b), where
                return
            for k in a:
                yield from self._flatten(a[k], b[k], f"{where}[{k}]")
            return
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            if not (isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray))):
                yield MISSING, (a, b), where
                return
            if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape:
                yield MISSING, (a, b), where
                return
            a, b = list(a), list(b)
            if len(a) != len(b):
                yield MISSING, (a, b), where
                return
            for i, (x, y) in enumerate(zip(a, b)):
                yield from self._flatten(x, y, f"{where}[{i}]")
            return
        yield a, b, where

    @staticmethod
    def _plain(x):
        if isinstance(x, pandas.DataFrame):
            return {c: np.asarray(x[c]._values) for c in x.columns}
        if isinstance(x, pandas.Series) or isinstance(x, pandas.Index):
            return np.asarray(x._values)
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return x[()]
        if isinstance(x, bytes):
            return x.decode()
        return x

    def raises(self, f, *a, **k):
        """run f; -> exception or None (engine control flow passes through)"""
        try:
            f(*a, **k)
        except EngineLimit:
            raise
        except Exception as e:
            return e
        return None

    def ge(self, a, b, label, **k):
        return self.le(b, a, label, **k)


def _isnum(x):
    return isinstance(x, Sym) or V.is_num(x)


# =================================================================================== symbolic
class SymEnv(Base):
    symbolic = True

    def __init__(self, path, params):
        super().__init__(params)
        self.path = path
        path.env = self
        self.candidates = []
        self.labels = {}

    @property
    def h5(self):
        from . import h5fake

        return h5fake.module

    @property
    def np(self):
        from . import npshim

        return npshim.shim

    # ---- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, default=None):
        assert name not in self.path.inputs, name
        t = z3.Real(name)
        self.path.inputs[name] = ("real", t)
        if lo is not None:
            self.path.add(t > V.rv(lo) if lo_open else t >= V.rv(lo))
        if hi is not None:
            self.path.add(t < V.rv(hi) if hi_open else t <= V.rv(hi))
        return SymF(t)

    def reals(self, name, n, lo=None, hi=None, **k):
        return [self.real(f"{name}{i}", lo, hi, **k) for i in range(n)]

    def integer(self, name, lo, hi):
        assert name not in self.path.inputs, name
        t = z3.Int(name)
        self.path.inputs[name] = ("int", t)
        self.path.add(z3.And(t >= lo, t <= hi))
        return SymI(t)

    def sbool(self, name):
        assert name not in self.path.inputs, name
        t = z3.Bool(name)
        self.path.inputs[name] = ("bool", t)
        return SymB(t)

    def flag(self, name):
        return bool(self.sbool(name))

    def choice(self, name, opts):
        opts = list(opts)
        if len(opts) == 1:
            return opts[0]
        t = self.integer(name, 0, len(opts) - 1).t
        for i in range(len(opts) - 1):
            if self.path.fork(t == i):
                return opts[i]
        return opts[-1]

    def count(self, name, lo, hi):
        """a case-split (concrete) integer"""
        return self.choice(name, range(lo, hi + 1))

    def value(self, name, specials=(), lo=None, hi=None, **k):
        """a symbolic real or one of the special concrete values (nan, inf...)"""
        s = self.choice(name + "?", ["real"] + list(specials))
        return self.real(name, lo, hi, **k) if isinstance(s, str) else s

    def ufun(self, name, *args, lo=None, hi=None, lo_open=False):
        ts = [V.lift(a)[1] for a in args]
        f = self.path.uf(name, len(ts))
        t = f(*ts)
        rec = self.path.ufcalls.setdefault(name, {})
        if t.get_id() not in rec:
            rec[t.get_id()] = (ts, t)
            if lo is not None:
                self.path.add(t > V.rv(lo) if lo_open else t >= V.rv(lo))
            if hi is not None:
                self.path.add(t <= V.rv(hi))
        return SymF(t)

    def const(self, x):
        return SymF(V.rv(x))

    def arr(self, xs):
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = x
        if not V.has_sym(a) and all(V.is_num(x) for x in xs):
            # keep concrete columns symbolic-typed so that they behave like the symbolic ones
            for i, x in enumerate(xs):
                if isinstance(x, (int, float, np.number)) and math.isfinite(x):
                    a[i] = SymF(V.rv(float(x)))
            if not V.has_sym(a):
                return np.array([float(x) for x in xs])
        return a

    def iarr(self, xs):
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = x
        return a

    # ---- logic
    @staticmethod
    def b(c):
        if isinstance(c, SymB):
            return c.t
        return z3.BoolVal(bool(c))

    def And(self, *cs):
        return SymB(z3.And(*[self.b(c) for c in cs]))

    def Or(self, *cs):
        return SymB(z3.Or(*[self.b(c) for c in cs]))

    def Not(self, c):
        return SymB(z3.Not(self.b(c)))

    def implies(self, a, b):
        return SymB(z3.Implies(self.b(a), self.b(b)))

    def ite(self, c, a, b):
        return V.ite(c, a, b)

    def assume(self, c):
        t = z3.simplify(self.b(c))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathAbort("assume")
        self.path.add(t)
        if self.path.model is None:
            r = self.path._check()
            if r == z3.unsat:
                raise PathAbort("assume")
            if r == z3.sat:
                self.path.model = self.path.solver.model()

    # ---- checks
    def check(self, cond, label, detail="", margin=None, tight=None, sides=None):
        p = self.path
        p.stats["asserts"] += 1
        if not isinstance(cond, SymB):
            if bool(cond):
                p.stats["trivial"] += 1
                p.stats["discharged"] += 1
                return
            self._violated(label, None, detail, None)
            return
        t = z3.simplify(cond.t)
        if z3.is_true(t):
            p.stats["trivial"] += 1
            p.stats["discharged"] += 1
            return
        p.solver.push()
        p.solver.add(z3.Not(t))
        p.solver.set("timeout", min(1000, p.assert_ms) if sides else p.assert_ms)
        r = p._check()
        if r == z3.unknown and sides:
            # no quick answer
            p.solver.pop()
            if self._rational(sides):
                p.solver.set("timeout", p.query_ms)
                p.stats["discharged"] += 1
                p.stats["rational"] = p.stats.get("rational", 0) + 1
                return
            p.solver.push()
            p.solver.add(z3.Not(t))
            p.solver.set("timeout", p.assert_ms)
            r = p._check()
        p.solver.set("timeout", p.query_ms)
        p.solver.pop()
        if r == z3.unsat:
            p.stats["discharged"] += 1
            return
        if r == z3.unknown:
            if self._guess(margin if margin is not None else z3.Not(t), label, detail):
                raise PathEnd(label)
            r2 = self._retry(t)
            if r2 == z3.unsat:
                p.stats["discharged"] += 1
                return
            if r2 == z3.unknown and tight is not None:
                r2 = self._retry(z3.Not(tight))
                if r2 == z3.unsat:
                    p.stats["discharged"] += 1
                    p.stats["rounded"] = p.stats.get("rounded", 0) + 1
                    return
            if r2 == z3.unknown:
                p.stats["inconclusive"] += 1
                self.labels[label] = self.labels.get(label, 0) + 1
                return
        neg = z3.Not(t)
        if tight is not None and r == z3.sat:
            # constants of the code are floats: equal up to their rounding?
            p.solver.push()
            p.solver.add(tight)
            p.solver.set("timeout", p.assert_ms)
            r = p._check()
            p.solver.set("timeout", p.query_ms)
            p.solver.pop()
            if r == z3.unsat:
                p.stats["discharged"] += 1
                p.stats["rounded"] = p.stats.get("rounded", 0) + 1
                return
            neg = tight
        self._violated(label, neg, detail, margin)

    def _guess(self, neg, label, detail):
        """no answer from the solver: evaluate the negated assertion in some models of the linear constraints; one in
        which it holds is a counterexample to be replayed (finding none decides nothing)"""
        import random

        p = self.path
        rnd = random.Random(len(p.taken))
        found = False
        l = p.solver.l
        reals = [t for k, t in p.inputs.values() if k == "real"]
        for _ in range(6):
            l.push()
            try:
                for t in rnd.sample(reals, len(reals)):
                    l.push()
                    l.add(t == rnd.choice([1, 2, 3, 5, 7, 0, -1, -4]))
                    if l.check() != z3.sat:
                        l.pop()
                if l.check() != z3.sat:
                    continue
                m = l.model()
                t, ok = neg, True
                subst = []
                for root, _ in p.solver.defs.values():
                    a = z3.simplify(m.eval(z3.substitute(root.arg(0), *subst) if subst else root.arg(0), model_completion=True))
                    if not V.isval(a) or a.as_fraction() < 0:
                        ok = False
                        break
                    subst.append((root, V.rv(math.sqrt(float(a.as_fraction())))))
                if not ok:
                    continue
                for c in p.solver.assertions():
                    c = z3.substitute(c, *subst) if subst else c
                    if not any(c.eq(d) for r, ds in p.solver.defs.values() for d in ds) and z3.is_false(m.eval(c, model_completion=True)):
                        ok = False
                        break
                if not ok or not z3.is_true(m.eval(z3.substitute(t, *subst) if subst else t, model_completion=True)):
                    continue
                self.candidates.append(dict(label=label, detail=str(detail)[:300], **describe(p, m)))
                found = True
                break
            finally:
                while l.num_scopes() > p.solver.num_scopes():
                    l.pop()
        return found

    def _rational(self, sides):
        """every pair of sides is the same rational function, with denominators that are not zero on this path"""
        p = self.path
        roots = {r.get_id(): r.arg(0) for r, _ in p.solver.defs.values()}
        dens = {}
        for a, b in sides:
            same, _, ds = ratfun.equal(a, b, roots)
            if not same:
                return False
            dens.update((d.get_id(), d) for d in ds)
        return all(p.feasible(d == 0)[0] == z3.unsat for d in dens.values())

    def _retry(self, t):
        """second opinion with a fresh (non-incremental) solver, which may use nlsat"""
        import time

        p = self.path
        t0 = time.time()
        s = z3.Then("simplify", "solve-eqs", "smt").solver() if False else z3.SolverFor("QF_UFNRA")
        s.set("timeout", p.assert_ms)
        s.add(*p.solver.assertions())
        s.add(z3.Not(t))
        p.stats["queries"] += 1
        r = s.check()
        p.stats["solver_ms"] += (time.time() - t0) * 1000
        p.stats["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
        return r

    def eq(self, a, b, label, rtol=1e-6, atol=1e-9):
        terms, margins, tight, sides = [], [], [], []
        for x, y, where in self._flatten(a, b):
            if x is MISSING:
                self.check(False, label, f"structure {where}: {_short(y)}")
                continue
            c = self._eq1(x, y)
            if not isinstance(c, SymB):
                c = bool(c)
            if c is True:
                continue
            if c is False:
                self.check(False, label, f"{where}: {_short(x)} != {_short(y)}")
                continue
            terms.append(c.t)
            if isinstance(x, (SymF, SymI)) or isinstance(y, (SymF, SymI)):
                lx, ly = V.lift(x), V.lift(y)
                if lx and ly and lx[0] == ly[0] == "s":
                    sides.append((lx[1], ly[1]))
                    d = lx[1] - ly[1]
                    scale = z3.If(ly[1] >= 0, ly[1], -ly[1])
                    m = V.rv(1e-3) * (1 + scale)
                    margins.append(z3.Or(d > m, -d > m))
                    m = V.rv(1e-12) + V.rv(1e-9) * scale
                    tight.append(z3.Or(d > m, -d > m))
                    continue
            tight.append(z3.Not(c.t))
        if not terms:
            self.path.stats["asserts"] += 1
            self.path.stats["trivial"] += 1
            self.path.stats["discharged"] += 1
            return
        cond = SymB(z3.And(*terms) if len(terms) > 1 else terms[0])
        self.check(cond, label, margin=z3.Or(*margins) if margins else None, tight=z3.Or(*tight) if margins else None, sides=sides if len(sides) == len(terms) else None)

    def _eq1(self, x, y):
        if x is y:
            return True
        if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
            return x is y if x is None or y is None else x == y
        if V.isnan_(x) or V.isnan_(y):
            return V.isnan_(x) and V.isnan_(y)
        if isinstance(x, Sym) or isinstance(y, Sym):
            if isinstance(x, SymB) or isinstance(y, SymB):
                r = x == y if isinstance(x, SymB) else y == x
                return r if isinstance(r, SymB) else bool(r)
            lx, ly = V.lift(x), V.lift(y)
            if lx is None or ly is None:
                return False
            if lx[0] == "n" or ly[0] == "n":
                return lx[0] == ly[0] and lx[1] == ly[1]
            d = z3.simplify(lx[1] - ly[1])
            if not V.isval(d) and _size(d) < 400:
                d = z3.simplify(d, som=True)
            if V.isval(d):
                # constants of the code are floats: equal up to their rounding?
                c = z3.simplify(ly[1])
                tol = 1e-12 + 1e-9 * (abs(float(c.as_fraction())) if V.isval(c) else 0)
                return abs(d.as_fraction()) <= tol
            return SymB(d == 0)
        if V.is_num(x) and V.is_num(y):
            x, y = float(x), float(y)
            # only concrete values: the same tolerance as in the replay
            return x == y or (math.isfinite(x) and math.isfinite(y) and abs(x - y) <= 1e-9 * max(abs(x), abs(y)))
        return bool(x == y)

    def le(self, a, b, label, rtol=1e-6, atol=1e-9):
        c = a <= b
        if isinstance(c, SymB):
            la, lb = V.lift(a), V.lift(b)
            scale = z3.If(lb[1] >= 0, lb[1], -lb[1])
            self.check(c, label, margin=la[1] > lb[1] + V.rv(1e-3) * (1 + scale))
        else:
            self.check(c, label, f"{_short(a)} <= {_short(b)}")

    def lt(self, a, b, label):
        self.check(a < b, label)

    def observe(self, name, val):
        self.path.observed[name] = val

    def same(self, a, b):
        """provably equal (no fork)"""
        for x, y, _ in self._flatten(a, b):
            if x is MISSING:
                return False
            c = self._eq1(x, y)
            if c is True:
                continue
            if c is False:
                return False
            r, _m = self.path.feasible(z3.Not(c.t))
            if r != z3.unsat:
                return False
        return True

    # ---- counterexamples
    def _violated(self, label, neg, detail, margin):
        p = self.path
        cands = []
        stages = []
        if margin is not None:
            stages.append([margin])
        if neg is not None:
            stages.append([neg])
        if neg is None and margin is None:
            stages.append([])
        # inputs of ordinary size first: the replay computes in floats
        small = [z3.And(t <= 10**6, t >= -(10**6)) for k, t in p.inputs.values() if k == "real"]
        if small:
            stages = [[*x, *small] for x in stages] + stages
        unk = False
        for i, extra in enumerate(stages):
            if small and i >= len(stages) // 2 and cands:
                break
            r, m = extract(p, extra)
            if r == z3.sat:
                cands.append(m)
            elif r != z3.unsat:
                unk = True
        if not cands:
            if unk:
                p.stats["inconclusive"] += 1
                raise PathEnd(label)
            p.stats["discharged"] += 1 if neg is None else 0
            if neg is None:
                raise PathAbort("infeasible at check")
            p.stats["inconclusive"] += 1
            raise PathEnd(label)
        for m in cands:
            self.candidates.append(
                dict(label=label, detail=str(detail)[:300], **m)
            )
        raise PathEnd(label)


def _size(t, limit=400):
    seen = 0
    st = [t]
    while st:
        x = st.pop()
        seen += 1
        if seen > limit:
            return seen
        st.extend(x.children())
    return seen


def _short(x):
    c = V.CTX
    if c is not None:
        old, c.printing = c.printing, True
    try:
        return str(x)[:120]
    finally:
        if c is not None:
            c.printing = old


def describe(p, m):
    from .engine import model_frac

    out = {}
    for n, (k, t) in p.inputs.items():
        if k == "real":
            out[n] = repr(float(model_frac(m, t)))
        elif k == "int":
            out[n] = int(m.eval(t, model_completion=True).as_long())
        else:
            out[n] = bool(z3.is_true(m.eval(t, model_completion=True)))
    ufs = {}
    for name, rec in p.ufcalls.items():
        ufs[name] = [
            ([repr(float(model_frac(m, a))) for a in ts], repr(float(model_frac(m, t))))
            for ts, t in rec.values()
        ]
    abstract = bool(p.logs or p.exps or p.ufs or any(k[0].endswith("!") and k[0] != "sqrt!" for k in p.ufd))
    return dict(inputs=out, ufuns=ufs, abstract=abstract, model=None, _m=m)


def extract(p, extra, polish=True):
    """model of pc & extra, with input values rounded to short dyadic numbers where possible"""
    from .engine import model_frac

    s = p.solver
    s.push()
    try:
        s.add(*extra)
        s.set("timeout", p.assert_ms)
        r = p._check()
        if r != z3.sat:
            return r, None
        m = s.model()
        if polish:
            s.set("timeout", 1500)
            fixed = 0
            reals = [(n, t) for n, (k, t) in p.inputs.items() if k == "real"]
            for n, t in reals[:24]:
                v = model_frac(m, t)
                for den in (1, 8, 1024, 1 << 20):
                    rnd = Fraction(round(v * den), den)
                    if rnd == v and den == 1:
                        s.add(t == z3.Q(v.numerator, v.denominator))
                        break
                    s.push()
                    s.add(t == z3.Q(rnd.numerator, rnd.denominator))
                    if p._check() == z3.sat:
                        m = s.model()
                        fixed += 1
                        break
                    s.pop()
        if not extra and s.defs:
            # the square roots of these inputs
            for k, t in p.inputs.values():
                s.add(t == m.eval(t, model_completion=True))
            for rec in p.ufcalls.values():
                for ts, t in rec.values():
                    s.add(t == m.eval(t, model_completion=True))
            s.touch_all()
            s.set("timeout", 3000)
            r = p._check()
            if r != z3.sat:
                return z3.unknown, None
            m = s.model()
        return r, describe(p, m)
    except (EngineLimit, OverflowError):
        return z3.unknown, None
    finally:
        while s.num_scopes() > 0:
            s.pop()
        s.set("timeout", p.query_ms)


def eval_obs(m, val):
    """evaluate an observed (symbolic) value in a model"""
    from .engine import model_frac

    val = Base._plain(val)
    if isinstance(val, dict):
        return {str(k): eval_obs(m, v) for k, v in val.items()}
    if isinstance(val, (list, tuple, np.ndarray)):
        return [eval_obs(m, v) for v in val]
    if isinstance(val, (SymF, SymI)):
        return float(model_frac(m, val.t))
    if isinstance(val, SymB):
        return bool(z3.is_true(m.eval(val.t, model_completion=True)))
    return conc_obs(val)


def conc_obs(val):
    val = Base._plain(val)
    if isinstance(val, dict):
        return {str(k): conc_obs(v) for k, v in val.items()}
    if isinstance(val, (list, tuple, np.ndarray)):
        return [conc_obs(v) for v in val]
    if isinstance(val, (bool, np.bool_)):
        return bool(val)
    if V.is_num(val):
        return float(val)
    if val is None or isinstance(val, str):
        return val
    return f"<{type(val).__name__}>"


def obs_close(a, b, rtol=1e-5, atol=1e-7):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(obs_close(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(obs_close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        return a == b or abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    return a == b


# =================================================================================== concrete
def _pseudo(name, args, lo, hi):
    key = name + "|" + ",".join(f"{float(a):.9e}" if V.is_num(a) else str(a) for a in args)
    h = int.from_bytes(hashlib.sha256(key.encode()).digest()[:6], "big") / 2**48
    if lo is None and hi is None:
        return h * 4 - 2
    if hi is None:
        return float(lo) + h * 3 + 0.01
    if lo is None:
        return float(hi) - h * 3 - 0.01
    return float(lo) + h * (float(hi) - float(lo))


class ConcEnv(Base):
    symbolic = False

    def __init__(self, params, inputs, ufuns):
        super().__init__(params)
        self.inputs = dict(inputs)
        self.ufuns = {k: [([float(x) for x in a], float(v)) for a, v in t] for k, t in ufuns.items()}
        self.observed = {}

    @property
    def h5(self):
        import h5py

        return h5py

    @property
    def np(self):
        return np

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, default=None):
        if name in self.inputs:
            v = float(self.inputs[name])
        else:
            v = _pseudo(name, (), lo, hi) if default is None else default
        if lo is not None and (v < lo or (lo_open and v <= lo)):
            raise ReplayInvalid(name)
        if hi is not None and (v > hi or (hi_open and v >= hi)):
            raise ReplayInvalid(name)
        return v

    def reals(self, name, n, lo=None, hi=None, **k):
        return [self.real(f"{name}{i}", lo, hi, **k) for i in range(n)]

    def integer(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    def sbool(self, name):
        return bool(self.inputs.get(name, False))

    flag = sbool

    def choice(self, name, opts):
        opts = list(opts)
        if len(opts) == 1:
            return opts[0]
        return opts[int(self.inputs.get(name, 0))]

    def count(self, name, lo, hi):
        return self.choice(name, range(lo, hi + 1))

    def value(self, name, specials=(), lo=None, hi=None, **k):
        s = self.choice(name + "?", ["real"] + list(specials))
        return self.real(name, lo, hi, **k) if isinstance(s, str) else s

    def ufun(self, name, *args, lo=None, hi=None, lo_open=False):
        args = [float(a) for a in args]
        best, bd = None, 1e-6
        for a, v in self.ufuns.get(name, ()):
            if len(a) == len(args):
                d = max([abs(x - y) / max(1.0, abs(x), abs(y)) for x, y in zip(a, args)], default=0.0)
                if d <= bd:
                    best, bd = v, d
        if best is None:
            best = _pseudo(name, args, lo, hi)
        return best

    def const(self, x):
        return float(x)

    def arr(self, xs):
        return np.array([float(x) for x in xs], dtype=float)

    def iarr(self, xs):
        return np.array([int(x) for x in xs], dtype=int)

    b = staticmethod(bool)

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def assume(self, c):
        if not bool(c):
            raise ReplayInvalid("assume")

    def check(self, cond, label, detail="", margin=None):
        if not bool(cond):
            raise CheckFailed(label, detail)

    def eq(self, a, b, label, rtol=1e-6, atol=1e-9):
        for x, y, where in self._flatten(a, b):
            if x is MISSING:
                raise CheckFailed(label, f"structure {where}: {str(y)[:200]}")
            if _isnum(x) and _isnum(y):
                x, y = float(x), float(y)
                ok = (x != x and y != y) or x == y or abs(x - y) <= atol + rtol * max(abs(x), abs(y))
            else:
                ok = bool(x == y) if x is not None and y is not None else x is y
            if not ok:
                self.pair = (x, y)
                raise CheckFailed(label, f"{where}: {x!r} != {y!r}")

    def le(self, a, b, label, rtol=1e-6, atol=1e-9):
        a, b = float(a), float(b)
        if not (a <= b or a <= b + atol + rtol * max(abs(a), abs(b))):
            raise CheckFailed(label, f"{a!r} > {b!r}")

    def lt(self, a, b, label):
        if not a < b:
            raise CheckFailed(label, f"{a!r} >= {b!r}")

    def same(self, a, b):
        return all(x is not MISSING and obs_close(conc_obs(x), conc_obs(y)) for x, y, _ in self._flatten(a, b))

    def observe(self, name, val):
        self.observed[name] = conc_obs(val)
