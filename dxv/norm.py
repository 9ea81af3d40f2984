"""Tolerant normal form: float sums are multisets of signed products, products multisets of factors; no distribution,
no cancellation.  Two terms with the same normal form differ only by association/commutation of sums and products,
fused multiply-add contraction, a*(1/b) versus a/b, and the sign of zero."""
from fractions import Fraction as Q
from . import fp
from . import terms as t
from .terms import mk, isc

SIGN = 0x80000000


class Norm:
    def __init__(self, est=False, nonan=False):
        self.nonan = nonan       # no intermediate result is NaN: comparisons are total, min and max commute
        self.memo = {}
        self.est = est
        self.lin = {}            # id of normalised term -> list of (coef, factors)

    def roots(self, rs):
        for x in t.postorder(rs):
            if x.id not in self.memo:
                self.memo[x.id] = self.one(x)
        return [self.memo[r.id] for r in rs]

    def n(self, x):
        return self.memo[x.id]

    # ---- views of a normalised term
    def sumof(self, y):
        """[(coef, (factors...))]"""
        if y.op == 'fsum':
            return [self.prodof(z) for z in y.args]
        if isc(y) and y.w == 32 and y.data & 0x7FFFFFFF == 0:
            return []
        return [self.prodof(y)]

    def prodof(self, y):
        if y.op == 'fprod':
            return (y.data, y.args)
        if isc(y) and y.w == 32 and (y.data & 0x7FFFFFFF) < 0x7F800000:
            return (Q(fp.tofloat(y.data)), ())
        return (Q(1), (y,))

    def mkprod(self, c, fs):
        # lift signs of sum factors
        out = []
        for f in fs:
            if f.op == 'fsum':
                s, g = self.unsign(f)
                c *= s
                out.append(g)
            else:
                out.append(f)
        if c == 0:
            return t.const(0, 32)
        if not out:
            b = fp.round_frac(c)
            if Q(fp.tofloat(b)) == c and b & 0x7FFFFFFF != fp.INF:
                return t.const(b, 32)
            return mk('fprod', 32, (), c)
        if len(out) == 1 and c == 1:
            return out[0]
        if len(out) == 1 and c == -1 and out[0].op == 'fsum':
            return self.neg(out[0])
        out.sort(key=lambda z: z.id)
        return mk('fprod', 32, out, c)

    def unsign(self, f):
        """canonical sign of a sum"""
        ps = [self.prodof(z) for z in f.args]
        ps.sort(key=lambda p: ([z.id for z in p[1]], abs(p[0])))
        keys = {(tuple(z.id for z in fs), c) for c, fs in ps}
        lead = ps[0][0]
        for c, fs in ps:                   # x and -x in one sum: decide by the first unpaired term
            if (tuple(z.id for z in fs), -c) not in keys:
                lead = c
                break
        else:
            return 1, f
        if lead < 0:
            return -1, self.mksum([(-c, fs) for c, fs in ps])
        return 1, f

    def mksum(self, ps):
        acc = {}
        for c, fs in ps:
            if c == 0:
                continue
            fs = tuple(sorted(fs, key=lambda z: z.id))
            k = (tuple(z.id for z in fs), c > 0)
            if k in acc:
                acc[k] = (acc[k][0] + c, fs)
            else:
                acc[k] = (c, fs)
        if not acc:
            return t.const(0, 32)
        l = [self.mkprod(c, fs) for c, fs in acc.values()]
        if len(l) == 1:
            return l[0]
        l.sort(key=lambda z: z.id)
        return mk('fsum', 32, l)

    def add(self, a, b):
        return self.mksum(self.sumof(a) + self.sumof(b))

    def neg(self, a):
        return self.mksum([(-c, fs) for c, fs in self.sumof(a)])

    def mul(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]):     # sign or mask selected by a condition
                return t.ite(x.args[0], self.mul(x.args[1], y), self.mul(x.args[2], y))
        if any(isc(z) and z.data & 0x7FFFFFFF == 0x7FC00000 for z in (a, b)):
            return t.const(0x7FC00000, 32)
        c1, f1 = self.prodof(a)
        c2, f2 = self.prodof(b)
        if c1 == 0 or c2 == 0:
            return t.const(0, 32)
        fs = list(f1) + list(f2)
        # sqrt(x)*sqrt(x) is not simplified; x * inv(x) is not cancelled
        return self.mkprod(c1 * c2, fs)

    def inv(self, b):
        c, fs = self.prodof(b)
        if c == 0:
            return mk('finv', 32, (b,))
        return self.mkprod(1 / c, [z.args[0] if z.op == 'finv' else mk('finv', 32, (z,)) for z in self._lift(fs)])

    def _lift(self, fs):
        return fs

    def one(self, x):
        op = x.op
        if op == 'const' or op == 'var':
            return x
        a = [self.n(y) for y in x.args]
        if x.w == 32:
            if op in ('fadd', 'fsub', 'ffma', 'fmul', 'fdiv', 'fsqrt') and any(isc(y) and y.data & 0x7FFFFFFF > 0x7F800000 for y in a):
                return t.const(0x7FC00000, 32)
            if op == 'fadd':
                return self.add(*a)
            if op == 'fsub':
                return self.add(a[0], self.neg(a[1]))
            if op == 'ffma':
                return self.add(self.mul(a[0], a[1]), a[2])
            if op == 'fmul':
                return self.mul(*a)
            if op == 'fdiv':
                return self.mul(a[0], self.sinv(a[1]))
            if op == 'app' and self.est and x.data == 'rcp':
                return self.sinv(a[0])
            if op == 'app' and self.est and x.data == 'rsqrt':
                return self.sinv(mk('fsqrt', 32, (a[0],)))
            if op == 'bvxor' and isc(x.args[1]) and x.args[1].data == SIGN and self.isf(a[0]):
                return self.neg(a[0])
            if op == 'bvand' and isc(x.args[1]) and x.args[1].data == 0x7FFFFFFF and self.isf(a[0]):
                return self.abs(a[0])
        if op == 'fcmp' and x.args[0].w == 32:
            return self.cmp(x.data, *a)
        if op == 'ite' and x.w == 32 and a[0].op == 'fcmp' and a[0].data in ('olt', 'ole'):
            p, q = a[0].args                   # max(x, -x) and min(x, -x)
            if {p.id, q.id} == {a[1].id, a[2].id} and q.op != 'const' and self.neg(p) is q:
                r = self.abs(p)
                return r if a[1] is q else self.neg(r)
        if self.nonan and op == 'ite' and x.w == 32:
            r = self.minmax(x.args[0], a[1], a[2])
            if r is not None:
                return r
            for q in (1, 2):               # a NaN selected for a special case
                if isc(a[q]) and a[q].data & 0x7FFFFFFF == 0x7FC00000 and (self.isf(a[3 - q]) or isc(a[3 - q])):
                    return a[3 - q]
        r = t.rebuild(x, a)
        if r.op == 'ite' and r.w == 32:
            return self.liftsign(r)
        return r

    def liftsign(self, y):
        """ite(c, -a, b) as -ite(c, a, -b): the first branch with a sign decides"""
        c, a, b = y.args
        if any(isc(z) and z.data == 0xFFFFFFFF for z in (a, b)):       # a mask
            return y
        if isc(a) != isc(b):
            if isc(a) and self.isf(b):
                a = self.canonc(a)
            elif isc(b) and self.isf(a):
                b = self.canonc(b)
            y = t.ite(c, a, b)
            if y.op != 'ite':
                return y
        c, a, b = y.args
        for z in (a, b):
            s = self.signof(z)
            if s:
                break
        if not any(self.signof(z) == -1 and z.op in ('fprod', 'fsum') for z in (a, b)) or s != -1:
            return y
        if not all(self.isf(z) or isc(z) for z in (a, b)):
            return y
        return self.mkprod(Q(-1), [t.ite(c, self.flip(a), self.flip(b))])

    def signof(self, z):
        if isc(z):
            m = z.data & 0x7FFFFFFF
            return 0 if m == 0 or m > fp.INF else (-1 if z.data & SIGN else 1)
        if z.op == 'fprod':
            return -1 if z.data < 0 else 1
        if z.op == 'fsum':
            return self.unsign(z)[0]
        return 1

    def canonc(self, z):
        m = z.data & 0x7FFFFFFF
        return t.const(0x7FC00000, 32) if m > fp.INF else (t.const(0, 32) if m == 0 else z)

    def flip(self, z):
        if isc(z):
            m = z.data & 0x7FFFFFFF
            return t.const(0x7FC00000, 32) if m > fp.INF else (z if m == 0 else t.const(z.data ^ SIGN, 32))
        return self.neg(z)

    def minmax(self, c, a, b):
        if c.op != 'fcmp' or c.data not in ('olt', 'ole'):
            return None
        p, q = (self.n(z) for z in c.args)
        if {p.id, q.id} != {a.id, b.id}:
            return None
        op = 'fminn' if a is p else 'fmaxn'
        xs = {}
        for z in (a, b):
            for v in (z.args if z.op == op else (z,)):
                xs[v.id] = v
        return mk(op, 32, sorted(xs.values(), key=lambda v: v.id)) if len(xs) > 1 else a

    def sinv(self, b):
        if b.op == 'fsum':
            s, g = self.unsign(b)
            return self.mkprod(Q(s), [mk('finv', 32, (g,))])
        return self.inv(b)

    def isf(self, y):
        return y.op in ('fsum', 'fprod', 'finv', 'fsqrt', 'app', 'ite', 'var', 'fround', 'fminn', 'fmaxn') or y.op in t.FOPS or y.op in t.CVT

    def abs(self, y):
        if y.op == 'fprod':
            return mk('bvand', 32, (self.mkprod(abs(y.data), y.args), t.const(0x7FFFFFFF, 32)))
        if y.op == 'fsum':
            y = self.unsign(y)[1]
        return t.bit('bvand', y, t.const(0x7FFFFFFF, 32))

    def cmp(self, p, a, b):
        if p in t.FCANON:
            return t.not_(self.cmp(t.FNEG[p], a, b))
        # move a common negative sign: -a < -b  ==  b < a
        ca, fa = self.prodof(a) if a.op != 'fsum' else (None, None)
        cb, fb = self.prodof(b) if b.op != 'fsum' else (None, None)
        if p in ('olt', 'ole') and ca is not None and cb is not None and ca <= 0 and cb <= 0 and (fa or fb):
            return t.fcmp(p, self.neg(b), self.neg(a))
        if isc(a) and a.data == SIGN:
            a = t.const(0, 32)
        if isc(b) and b.data == SIGN:
            b = t.const(0, 32)
        if self.nonan:
            if p == 'ord':
                return t.TRUE
            if p == 'ole':
                return t.not_(self.cmp('olt', b, a))
            if p == 'olt':                 # against the least or greatest of several: against each
                ma, mb = a.op in ('fminn', 'fmaxn'), b.op in ('fminn', 'fmaxn')
                if mb and not ma:
                    return (t.and_ if b.op == 'fminn' else t.or_)(*[self.cmp(p, a, z) for z in b.args])
                if ma and not mb:
                    return (t.or_ if a.op == 'fminn' else t.and_)(*[self.cmp(p, z, b) for z in a.args])
        return t.fcmp(p, a, b)
