"""Lowering of float terms to real arithmetic (z3 nlsat): used to find counterexamples of tolerant claims, and to decide
claims that are identities or inequalities over the reals (rounding excluded, stated in the evidence)."""
import time
import z3
from fractions import Fraction as Q
from . import fp
from . import terms as t
from .smt import STATS


class NoReal(Exception):
    pass


class RealLower:
    def __init__(self, est=True, strict=False):
        self.memo = {}
        self.side = []
        self.n = 0
        self.strict = strict
        self.opaque = []

    def fresh(self, x, sort='r'):
        self.n += 1
        nm = f'k{x.id}'
        self.opaque.append(x)
        return z3.Bool(nm) if x.w == 0 else z3.Real(nm)

    def __call__(self, root):
        for x in t.postorder([root]):
            if x.id not in self.memo:
                try:
                    self.memo[x.id] = self.one(x)
                except NoReal:
                    if self.strict:
                        raise
                    self.memo[x.id] = self.fresh(x)
        return self.memo[root.id]

    def inv(self, x, y):
        q = z3.Real(f'q{x.id}')
        self.side += [y != 0, q * y == 1]
        return q

    def sqrt(self, x, y):
        s = z3.Real(f's{x.id}')
        self.side += [s >= 0, s * s == y]
        return s

    def one(self, x):
        op, w, A = x.op, x.w, x.args
        m = self.memo
        if op == 'const':
            if w == 0:
                return z3.BoolVal(bool(x.data))
            if w != 32:
                return None
            if x.data & 0x7FFFFFFF >= 0x7F800000:
                raise NoReal()
            q = Q(fp.tofloat(x.data))
            return z3.Q(q.numerator, q.denominator)
        if op == 'var':
            if w == 0:
                return z3.Bool(x.data)
            if w == 32:
                return z3.Real(x.data)
            return None
        a = [m[y.id] for y in A]
        if op in ('not', 'and', 'or', 'xorb'):
            return {'not': lambda: z3.Not(a[0]), 'and': lambda: z3.And(*a), 'or': lambda: z3.Or(*a), 'xorb': lambda: z3.Xor(*a)}[op]()
        if op == 'fcmp' and A[0].w == 32:
            if x.data in t.FCANON:
                p, neg = t.FNEG[x.data], True
            else:
                p, neg = x.data, False
            if p == 'ord':
                r = z3.BoolVal(True)
            elif any(z is None for z in a):
                raise NoReal()
            else:
                r = {'oeq': lambda: a[0] == a[1], 'olt': lambda: a[0] < a[1], 'ole': lambda: a[0] <= a[1]}[p]()
            return z3.Not(r) if neg else r
        if w == 32 and not any(z is None for z in a):
            if op == 'ite':
                return z3.If(*a)
            if op == 'fadd':
                return a[0] + a[1]
            if op == 'fsub':
                return a[0] - a[1]
            if op == 'fmul':
                return a[0] * a[1]
            if op == 'ffma':
                return a[0] * a[1] + a[2]
            if op == 'fdiv':
                return a[0] * self.inv(x, a[1])
            if op == 'fsqrt':
                return self.sqrt(x, a[0])
            if op == 'app' and x.data == 'rcp':
                return self.inv(x, a[0])
            if op == 'app' and x.data == 'rsqrt':
                return self.inv(x, self.sqrt(x, a[0]))
            if op == 'bvxor' and t.isc(A[1]) and A[1].data == 0x80000000:
                return -a[0]
            if op == 'bvand' and t.isc(A[1]) and A[1].data == 0x7FFFFFFF:
                return z3.If(a[0] < 0, -a[0], a[0])
            if op == 'fround':
                fl = z3.ToReal(z3.ToInt(a[0]))
                if x.data == 'RTN':
                    return fl
                if x.data == 'RTP':
                    return -z3.ToReal(z3.ToInt(-a[0]))
                if x.data == 'RTZ':
                    return z3.If(a[0] >= 0, fl, -z3.ToReal(z3.ToInt(-a[0])))
                return z3.ToReal(z3.ToInt(a[0] + z3.Q(1, 2)))
        if op == 'eq' and A[0].w == 32 and not any(z is None for z in a):
            return a[0] == a[1]
        if w == 0 or w == 32:
            raise NoReal()
        return None


def fromz3(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return Q(v.numerator_as_long(), v.denominator_as_long())
    return None


def solve_real(conds, extra=(), timeout=5000, kind='real'):
    """conds: Bool terms; extra: function(lower) -> list of z3 constraints"""
    L = RealLower()
    s = z3.Solver()
    s.set('timeout', timeout)
    cs = [L(c) for c in conds]
    if callable(extra):
        cs += extra(L)
    for c in cs + L.side:
        s.add(c)
    t0 = time.time()
    r = s.check()
    STATS.add(r, time.time() - t0, kind)
    m = {}
    if r == z3.sat:
        mod = s.model()
        for d in mod.decls():
            if d.arity() == 0 and d.name()[0] in 'io' and d.name()[1:].isdigit():
                q = fromz3(mod[d])
                if q is not None:
                    m[d.name()] = fp.round_frac(q)
    return str(r), m, L
