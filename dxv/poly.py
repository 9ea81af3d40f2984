"""Expanded normal form: products distributed over sums, like terms collected (an identity of real arithmetic)."""
from fractions import Fraction as Q
from . import terms as t
from .norm import Norm
from .terms import mk, isc


class TooBig(Exception):
    pass


class PolyNorm(Norm):
    LIMIT = 4000

    def mkprod(self, c, fs):
        sums = [f for f in fs if f.op == 'fsum']
        if sums and c != 0:
            acc = [(c, tuple(f for f in fs if f.op != 'fsum'))]
            for s in sums:
                ps = self.sumof(s)
                if len(acc) * len(ps) > self.LIMIT:
                    raise TooBig()
                acc = [(c1 * c2, tuple(f1) + tuple(f2)) for c1, f1 in acc for c2, f2 in ps]
            return self.mksum(acc)
        if c != 0 and fs:
            fs = self.cancel(list(fs))
            if any(f.op == 'fsum' for f in fs):
                return self.mkprod(c, fs)
        return super().mkprod(c, fs)

    def cancel(self, fs):
        """sqrt(x)*sqrt(x) -> x ; x * 1/x -> 1 (real identities)"""
        ch = True
        while ch:
            ch = False
            for i, f in enumerate(fs):
                for j in range(len(fs)):
                    if i == j:
                        continue
                    g = fs[j]
                    if f.op == 'finv' and f.args[0] is g:
                        fs = [x for q, x in enumerate(fs) if q not in (i, j)]
                        ch = True
                        break
                    if f.op == 'fsqrt' and g is f and i < j:
                        fs = [x for q, x in enumerate(fs) if q not in (i, j)] + [f.args[0]]
                        ch = True
                        break
                    if f.op == 'finv' and g is f and i < j and f.args[0].op == 'fsqrt':
                        fs = [x for q, x in enumerate(fs) if q not in (i, j)] + [self.sinv(f.args[0].args[0])]
                        ch = True
                        break
                if ch:
                    break
        return fs

    def mksum(self, ps):
        acc = {}
        for c, fs in ps:
            if c == 0:
                continue
            fs = tuple(sorted(fs, key=lambda z: z.id))
            k = tuple(z.id for z in fs)
            if k in acc:
                acc[k] = (acc[k][0] + c, fs)
            else:
                acc[k] = (c, fs)
        l = [(c, fs) for c, fs in acc.values() if c != 0]
        if not l:
            return t.const(0, 32)
        out = []
        flat = True
        for c, fs in l:
            p = self.mkprod(c, fs)
            if p.op == 'fsum':
                flat = False
            out.append(p)
        if not flat:
            return self.mksum([q for p in out for q in self.sumof(p)])
        if len(out) == 1:
            return out[0]
        out.sort(key=lambda z: z.id)
        return mk('fsum', 32, out)

    def unsign(self, f):
        return super().unsign(f)
