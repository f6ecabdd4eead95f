"""Equalities between rational functions.

An equation the solver gives no answer on is written over a common denominator: every term becomes num/den, two
polynomials (monomial -> Fraction) over the variables and the applications of uninterpreted functions in it.
a/b == c/d holds for every value of those where a*d and c*b have the same coefficients and b, d are not zero; the caller
has the solver show the latter.
"""

from fractions import Fraction

from .values import z3

LIMIT = 4000


class TooBig(Exception):
    pass


def _mul(a, b):
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mono(m, n)
            v = out.get(k, 0) + c * d
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    if len(out) > LIMIT:
        raise TooBig
    return out


def _mono(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def _add(a, b, f=1):
    out = dict(a)
    for k, c in b.items():
        v = out.get(k, 0) + f * c
        if v:
            out[k] = v
        else:
            out.pop(k, None)
    return out


ONE = {(): Fraction(1)}


class RatFun:
    def __init__(self, roots=None):
        self.memo = {}
        self.atoms = {}
        self.dens = {}
        self.roots = roots or {}  # term id of a square root -> its argument
        self.keep = []

    def atom(self, key):
        i = self.atoms.setdefault(key, len(self.atoms))
        return {((i, 1),): Fraction(1)}, ONE

    def of(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.keep.append(t)
            self.memo[k] = self._of(t)
        return self.memo[k]

    def _of(self, t):
        if z3.is_rational_value(t):
            return ({(): t.as_fraction()} if t.as_fraction() else {}), ONE
        if z3.is_int_value(t):
            return ({(): Fraction(t.as_long())} if t.as_long() else {}), ONE
        d = t.decl().kind()
        if d == z3.Z3_OP_TO_REAL:
            return self.of(t.arg(0))
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = self.of(t.arg(0))
            for i in range(1, t.num_args()):
                r = self.plus(r, self.of(t.arg(i)), -1 if d == z3.Z3_OP_SUB else 1)
            return r
        if d == z3.Z3_OP_UMINUS:
            n, e = self.of(t.arg(0))
            return {k: -c for k, c in n.items()}, e
        if d == z3.Z3_OP_MUL:
            n, e = self.of(t.arg(0))
            for i in range(1, t.num_args()):
                n2, e2 = self.of(t.arg(i))
                n, e = self.times(n, n2), self.times(e, e2)
            return n, e
        if d == z3.Z3_OP_DIV:
            a, b = self.of(t.arg(0)), self.of(t.arg(1))
            if not b[0]:
                raise TooBig
            if not z3.is_rational_value(t.arg(1)):
                self.dens[t.arg(1).get_id()] = t.arg(1)
            return self.times(a[0], b[1]), self.times(a[1], b[0])
        if d == z3.Z3_OP_POWER and (z3.is_int_value(t.arg(1)) or z3.is_rational_value(t.arg(1))):
            e = Fraction(str(t.arg(1)))
            if e.denominator == 1 and 0 <= e <= 12:
                n, m = ONE, ONE
                b = self.of(t.arg(0))
                for _ in range(int(e)):
                    n, m = self.times(n, b[0]), self.times(m, b[1])
                return n, m
        if d == z3.Z3_OP_UNINTERPRETED and t.num_args():
            if all(a.sort() in (z3.RealSort(), z3.IntSort()) for a in t.children()):
                args = tuple(tuple(tuple(sorted(p.items())) for p in self.of(a)) for a in t.children())
                return self.atom((t.decl().name(), args))
        return self.atom(("t", t.get_id()))

    def times(self, a, b):
        return self.reduce(_mul(a, b))

    def reduce(self, p):
        """squares of square roots become what the roots are taken of, where that is a polynomial"""
        if not self.roots:
            return p
        for tid, arg in self.roots.items():
            i = self.atoms.get(("t", tid))
            if i is None:
                continue
            if not any(e >= 2 for m in p for a, e in m if a == i):
                continue
            n, d = self.of(arg)
            if d != ONE:
                continue
            out = {}
            for m, c in p.items():
                e = dict(m).get(i, 0)
                rest = tuple(x for x in m if x[0] != i) + (((i, 1),) if e % 2 else ())
                q = {tuple(sorted(rest)): c}
                for _ in range(e // 2):
                    q = _mul(q, n)
                out = _add(out, q)
            p = out
        return p

    def plus(self, a, b, f):
        if a[1] == b[1]:
            return _add(a[0], b[0], f), a[1]
        return _add(self.times(a[0], b[1]), self.times(b[0], a[1]), f), self.times(a[1], b[1])


def equal(a, b, roots=None, rel=Fraction(1, 10**11)):
    """(equal, exactly, denominators): a and b are the same rational function, their coefficients up to rounding"""
    r = RatFun(roots)
    try:
        (n1, d1), (n2, d2) = r.of(a), r.of(b)
        p, q = r.times(n1, d2), r.times(n2, d1)
    except TooBig:
        return False, False, []
    except RecursionError:
        return False, False, []
    exact = p == q
    if not exact:
        if p.keys() != q.keys() or any(abs(c - q[k]) > rel * max(abs(c), abs(q[k])) for k, c in p.items()):
            return False, False, []
    return True, exact, list(r.dens.values())
