"""Accuracy of the elementary functions (univariate), decided over the reals by z3's nonlinear solver.

The output word of the real code is a term over the input word i0.  Each interval I of the stated domain is one family of queries:
roundings to an integer are split by the integer they yield, conditions by their truth (both pruned by the solver), and for every
remaining straight-line leaf the query  exists p in I: |leaf(p) - T(p)| > eps - delta  must be unsatisfiable, where T is a Taylor polynomial
of the mathematical function with |T - g| <= delta on I.  A model is replayed against the compiled code before it is reported."""
import time
from fractions import Fraction as Q
import mpmath as mp
import numpy as np
import z3
from . import build, fp, native
from . import terms as t
from .core import W
from .smt import STATS
from . import smt
from .real import fromz3

mp.mp.prec = 160
SIGN = 0x80000000
ROUND = {'fround', 'cvttps2dq', 'cvtps2dq', 'fptosi_sat'}


class Give(Exception):
    pass


def mpq(q):
    return mp.mpf(q.numerator) / q.denominator


def toq(m):
    """exact rational of an mpf"""
    s, man, ex, _ = mp.mpf(m)._mpf_
    v = Q(man) * (Q(2) ** ex)
    return -v if s else v


def z3q(q):
    return z3.Q(q.numerator, q.denominator)


# ------------------------------------------------------------------ term preparation

def recognise_rounding(ctx, roots):
    """subterms that are the real code of XMVectorRound applied to some subterm become exact roundings (property C09 decides that function)"""
    r1 = ctx.call('XMVectorRound', [t.var('rr', 32)] * 4)[0]
    if r1.op == 'fround':
        return roots
    m = {}
    allids = {x.id: x for x in t.postorder(roots)}
    for x in list(allids.values()):
        if x.w == 32 and x.op in ('fmul', 'fadd', 'fsub', 'fdiv', 'ffma', 'var'):
            r = t.substitute([r1], {t.var('rr', 32).id: x})[0]
            if r.id in allids and r is not x:
                m[r.id] = t.fop('fround', x, rm='RNE')
    return t.substitute(roots, m) if m else roots


def lift(x, memo):
    """moves ites out of bitwise operators, sign copies become ites"""
    if x.id in memo:
        return memo[x.id]
    for y in t.postorder([x]):
        if y.id in memo:
            continue
        a = [memo[z.id] for z in y.args]
        memo[y.id] = lift1(y, a)
    return memo[x.id]


def lift1(y, a):
    if y.op in ('bvand', 'bvor', 'bvxor') and y.w == 32:
        return bits(y.op, a)
    if y.op == 'eq' and a[0].w == 32 and t.isc(a[1]) and a[1].data == 0 and a[0].op == 'bvand' and t.isc(a[0].args[1]) and a[0].args[1].data == SIGN:
        return t.not_(t.fcmp('olt', a[0].args[0], t.const(0, 32)))
    if y.op == 'eq' and a[0].op == 'extract' and a[0].data == (31, 31) and t.isc(a[1]):
        c = t.fcmp('olt', a[0].args[0], t.const(0, 32))
        return c if a[1].data == 1 else t.not_(c)
    return t.rebuild(y, a) if any(p is not q for p, q in zip(a, y.args)) else y


def bits(op, a):
    for k, p in enumerate(a):
        if p.op == 'ite':
            c = p.args[0]
            L = [q.args[1] if q.op == 'ite' and q.args[0] is c else q for q in a]
            R = [q.args[2] if q.op == 'ite' and q.args[0] is c else q for q in a]
            return t.ite(c, bits(op, L), bits(op, R))
    r = a[0]
    for q in a[1:]:
        r = t.bit(op, r, q)
    if r.op == 'bvand' and t.isc(r.args[1]) and r.args[1].data == 0x7FFFFFFF:
        return t.ite(t.fcmp('olt', r.args[0], t.const(0, 32)), t.fneg(r.args[0]), r.args[0])
    if r.op == 'bvor' and t.isc(r.args[1]):
        p, c = r.args
        if p.op == 'bvand' and t.isc(p.args[1]) and p.args[1].data == SIGN:
            return t.ite(t.fcmp('olt', p.args[0], t.const(0, 32)), t.bit('bvor', c, t.const(SIGN, 32)), c)
    return r


# ------------------------------------------------------------------ parameter of the input

class Poly:
    """Laurent polynomial in the parameter p with rational coefficients"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = {k: v for k, v in c.items() if v != 0}

    def __add__(a, b):
        r = dict(a.c)
        for k, v in b.c.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __neg__(a): return Poly({k: -v for k, v in a.c.items()})
    def __sub__(a, b): return a + (-b)

    def __mul__(a, b):
        r = {}
        for k, v in a.c.items():
            for j, w in b.c.items():
                r[k + j] = r.get(k + j, 0) + v * w
        return Poly(r)

    def isconst(a): return all(k == 0 for k in a.c)
    def const(a): return a.c.get(0, Q(0))

    def z3(a, p, clear=True):
        """z3 term of a (times a power of p > 0 that clears negative exponents)"""
        if not a.c:
            return z3.RealVal(0)
        m = min(0, min(a.c))
        d = max(a.c) - m
        e = z3q(Q(0))
        first = True
        for k in range(d, -1, -1):
            v = z3q(Q(a.c.get(k + m, 0)))
            e = v if first else e * p + v
            first = False
        return e

    def rounded(a, bits=80):
        """coefficients rounded to multiples of 2^-bits"""
        return Poly({k: Q(round(v * 2 ** bits), 2 ** bits) for k, v in a.c.items()}), Q(len(a.c), 2 ** bits)


def pconst(q):
    return Poly({0: Q(q)})


PP = Poly({1: Q(1)})


class Par:
    """i0 as a function of the real parameter p on [lo, hi]"""

    def __init__(self, kind, sg, lo, hi):
        self.kind, self.sg, self.lo, self.hi = kind, sg, Q(lo), Q(hi)
        self.p = z3.Real('p')
        self.mid = (self.lo + self.hi) / 2 if kind == 'id' else Q(0)      # z3's variable is the offset from mid
        self.pp = Poly({0: self.mid, 1: Q(1)})
        if kind == 'id':
            self.x = self.pp
        elif kind == 'pt':                 # the single point lo
            self.mid = self.lo
            self.x = self.pp = pconst(self.lo)
        elif kind == 'sqrt':               # x = sg (1 - p^2)
            self.x = Poly({0: Q(sg), 2: Q(-sg)})
        elif kind == 'recip':              # x = sg / p
            self.x = Poly({-1: Q(sg)})

    def xq(self, p):
        return p if self.kind in ('id', 'pt') else (self.sg * (1 - p * p) if self.kind == 'sqrt' else (Q(self.sg) / p if p else Q(self.sg) * 2 ** 100))

    def dom(self):
        d = [self.p >= z3q(self.lo - self.mid), self.p <= z3q(self.hi - self.mid)]
        if self.kind == 'recip':
            d.append(self.p > 0)
        if self.kind in ('recip', 'sqrt'):        # |x| = 1, x = 0 belong to the other pieces
            d.append(self.p < 1)
        return d


class Low:
    """straight-line terms -> polynomials in the parameter; conditions -> z3"""

    def __init__(self, par):
        self.par = par
        self.memo = {}
        self.side = []

    def __call__(self, root):
        for x in t.postorder([root]):
            if x.id not in self.memo:
                self.memo[x.id] = self.one(x)
        r = self.memo[root.id]
        if r is None:
            raise Give(f'{root.op}')
        return r

    def one(self, x):
        op, A = x.op, x.args
        a = [self.memo[y.id] for y in A]
        par = self.par
        if op == 'const':
            if x.w == 0:
                return z3.BoolVal(bool(x.data))
            if x.w != 32 or x.data & 0x7FFFFFFF >= 0x7F800000:
                return None
            return pconst(Q(fp.tofloat(x.data)))
        if op == 'var':
            return par.x if x.data == 'i0' else None
        if any(z is None for z in a):
            return None
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(*a)
        if op == 'or':
            return z3.Or(*a)
        if op == 'fcmp':
            p, neg = (t.FNEG[x.data], True) if x.data in t.FCANON else (x.data, False)
            if p == 'ord':
                return z3.BoolVal(not neg)
            d = (a[0] - a[1])
            if d.isconst():
                c = d.const()
                r = {'oeq': c == 0, 'olt': c < 0, 'ole': c <= 0}[p]
                return z3.BoolVal(bool(r) != neg)
            d = d.z3(par.p)
            r = {'oeq': lambda: d == 0, 'olt': lambda: d < 0, 'ole': lambda: d <= 0}[p]()
            return z3.Not(r) if neg else r
        if x.w != 32:
            return None
        if op == 'fadd':
            return a[0] + a[1]
        if op == 'fsub':
            return a[0] - a[1]
        if op == 'fmul':
            return a[0] * a[1]
        if op == 'ffma':
            return a[0] * a[1] + a[2]
        if op == 'bvxor' and t.isc(A[1]) and A[1].data == SIGN:
            return -a[0]
        if op == 'fdiv' or (op == 'app' and x.data == 'rcp'):
            num, den = (a[0], a[1]) if op == 'fdiv' else (pconst(1), a[0])
            if len(den.c) == 1:
                (k, v), = den.c.items()
                return num * Poly({-k: 1 / v})
            return None
        if op == 'fsqrt':
            if par.kind == 'sqrt' and not (a[0] - PP * PP).c:
                return PP
            if a[0].isconst() and a[0].const() in (0, 1):
                return a[0]
            return None
        return None

    def sat(self, cs, timeout=10000):
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*self.par.dom(), *self.side, *cs)
        t0 = time.time()
        r = s.check()
        STATS.add(r, time.time() - t0, 'accuracy-path')
        return r != z3.unsat


def evalq(x, val):
    """rational evaluation of a straight-line term (choosing branches); used to guess ranges, never to decide"""
    m = {}
    for y in t.postorder([x]):
        a = [m[z.id] for z in y.args]
        try:
            if y.op == 'const':
                m[y.id] = bool(y.data) if y.w == 0 else (Q(fp.tofloat(y.data)) if y.w == 32 and y.data & 0x7FFFFFFF < 0x7F800000 else None)
            elif y.op == 'var':
                m[y.id] = val
            elif y.op == 'ite':
                m[y.id] = a[1] if a[0] else a[2]
            elif y.op in ('fadd', 'fsub', 'fmul', 'ffma', 'fdiv'):
                m[y.id] = {'fadd': lambda: a[0] + a[1], 'fsub': lambda: a[0] - a[1], 'fmul': lambda: a[0] * a[1], 'ffma': lambda: a[0] * a[1] + a[2], 'fdiv': lambda: a[0] / a[1]}[y.op]()
            elif y.op == 'fcmp':
                m[y.id] = {'oeq': a[0] == a[1], 'olt': a[0] < a[1], 'ole': a[0] <= a[1], 'une': a[0] != a[1], 'uge': a[0] >= a[1], 'ugt': a[0] > a[1], 'ord': True, 'uno': False}.get(y.data)
            elif y.op == 'not':
                m[y.id] = not a[0]
            elif y.op == 'bvxor':
                m[y.id] = -a[0]
            elif y.op == 'bvand':
                m[y.id] = abs(a[0])
            else:
                m[y.id] = None
        except TypeError:
            m[y.id] = None
    return m[x.id]


def rcond(x, k, a):
    """the real argument a rounds to the integer k"""
    rm = x.data if x.op == 'fround' else ('RNE' if x.op == 'cvtps2dq' else 'RTZ')
    if rm == 'RNE':
        return [a >= z3q(Q(2 * k - 1, 2)), a <= z3q(Q(2 * k + 1, 2))]
    if rm == 'RTN' or (rm == 'RTZ' and k > 0):
        return [a >= k, a < k + 1]
    if rm == 'RTP' or k < 0:
        return [a > k - 1, a <= k]
    return [a > -1, a < 1]


def leaves(term, par, conds, depth=0):
    """(leaf, conds): straight-line terms covering the term on the parameter's interval"""
    if depth > 60:
        raise Give('too many branches')
    L = Low(par)
    conds0 = conds
    # first a condition or rounding whose own argument is straight-line
    for x in t.postorder([term]):
        if x.op in ROUND and not any(y.op in ROUND or y.op == 'ite' for y in t.postorder([x.args[0]])):
            arg = L(x.args[0]).z3(par.p)
            vals = [evalq(x.args[0], par.xq(p)) for p in (par.lo, (par.lo + par.hi) / 2, par.hi) if par.kind != 'recip' or p]
            if any(v is None for v in vals):
                raise Give('rounding argument')
            lo, hi = min(vals) - 1, max(vals) + 1
            if hi - lo > 40 or L.sat(conds0 + [z3.Or(arg < z3q(lo), arg > z3q(hi))]):
                raise Give('rounding argument range')
            for k in range(int(lo) - 2, int(hi) + 3):
                rc = rcond(x, k, arg)
                if not L.sat(conds0 + rc):
                    continue
                c = t.const(fp.round_frac(Q(k)), 32) if x.op == 'fround' else t.const(k & 0xFFFFFFFF, 32)
                memo = {}
                yield from leaves(lift(t.substitute([term], {x.id: c})[0], memo), par, conds0 + rc + [], depth + 1)
            return
        if x.op == 'ite' and x.w:
            c = x.args[0]
            if any(y.op in ROUND or (y.op == 'ite' and y.w) for y in t.postorder([c])):
                continue
            at = atom(c)
            zc = L(at)
            from .decide import assume
            for val in (True, False):
                cc = [zc if val else z3.Not(zc)] + L.side
                if not L.sat(conds0 + cc):
                    continue
                sub = assume([term], at, val)[0]
                yield from leaves(lift(sub, {}), par, conds0 + cc, depth + 1)
            return
    yield term, conds0


def atom(c):
    while c.op in ('and', 'or', 'not', 'xorb'):
        c = c.args[0]
    return c


# ------------------------------------------------------------------ references

def taylor(g, par, R, tol):
    """polynomial in p (list of z3 terms by Horner) and bound on |g - T| on the interval"""
    mid = (par.lo + par.hi) / 2
    h = mpq((par.hi - par.lo) / 2)
    c = mpq(mid)
    M = max(abs(g(c + R * mp.expjpi(mp.mpf(k) / 24))) for k in range(48)) * 2
    d = 3
    while True:
        rem = M * (h / R) ** (d + 1) / (1 - h / R)
        if rem < tol:
            break
        d += 1
        if d > 40:
            raise Give('taylor')
    N = 64
    # Cauchy integral coefficients (aliasing error below 2^-60 relative to M)
    vals = [g(c + R / 2 * mp.expjpi(mp.mpf(2 * k) / N)) for k in range(N)]
    co = []
    for j in range(d + 1):
        s = sum(v * mp.expjpi(-mp.mpf(2 * k * j) / N) for k, v in enumerate(vals)) / N
        co.append(toq(mp.re(s / (R / 2) ** j)).limit_denominator(10 ** 15))
    alias = M * mp.mpf(2) ** (-(N - d)) * (d + 1) + (d + 1) * mp.mpf(10) ** -14
    y = par.pp - pconst(mid)
    e = pconst(co[-1])
    for q in reversed(co[:-1]):
        e = e * y + pconst(q)
    # guard: the polynomial really follows g (sampled sanity check of the reference, not part of the decision)
    for k in range(5):
        v = -h + 2 * h * k / 4
        pv = sum(mpq(q) * v ** j for j, q in enumerate(co))
        assert abs(pv - g(c + v)) <= rem + alias, 'reference polynomial'
    return e, toq(rem + alias)


class Claim:
    """|f - g| <= eps (+ rounding eps_nat natively); kind 'abs', 'rel' (relative to g), 'relx' (relative to x), 'tan' (|sin - f cos| <= eps (1 + |f|): f is the tangent of an angle close to x)"""

    def __init__(self, prop, name, out, fn, pieces, eps, eps_nat, kind='abs', npfn=None, libm=None, wide=1):
        self.prop, self.name, self.out, self.fn, self.pieces, self.eps, self.eps_nat, self.kind, self.npfn, self.libm = prop, name, out, fn, pieces, Q(eps), eps_nat, kind, npfn, libm
        self.wide = wide          # the thorough tier's wider domain multiplies the tolerance (error of argument reduction)


def single_var(term):
    """renames the only input variable of the term to i0"""
    vs = sorted(t.support([term]))
    if len(vs) != 1:
        raise Give(f'depends on {vs}')
    return t.substitute([term], {t.var(vs[0], 32).id: t.var('i0', 32)})[0], vs[0]


_done = {}


def check_piece(ctx, term, claim, par, gp, R, eps):
    """None if the claim holds on the piece, else a counterexample parameter"""
    # pure word atoms (sign, ordering of bit patterns) that are constant on the piece
    term = word_atoms(term, par)
    n = 0
    for leaf, conds in leaves(lift(term, {}), par, []):
        n += 1
        L = Low(par)
        if claim.kind == 'tan':
            S, ds = taylor(mp.sin, par, R, mp.mpf(10) ** -12)
            C, dc = taylor(mp.cos, par, R, mp.mpf(10) ** -12)
            N, D = ratio(L, leaf)
            zn, zd = N.z3(par.p), D.z3(par.p)
            err, rd = (N * C - S * D).rounded()
            err = err.z3(par.p)
            e = eps - 2 * ds - 2 * dc
            for sn in (1, -1):
                for sd in (1, -1):
                    if not L.sat(conds + [sn * zn >= 0, sd * zd >= 0]):
                        continue
                    lim = (N * pconst(sn) + D * pconst(sd)) * pconst(e) - pconst(rd)
                    lim = lim.z3(par.p)
                    bad = query(par, conds + [sn * zn >= 0, sd * zd >= 0, z3.Or(err > lim, -err > lim)])
                    if bad is not None:
                        return bad, n
            continue
        sc = Q(2) ** -int(mp.floor(mpq(par.lo))) if claim.kind == 'rel' else Q(1)       # 2^x is scaled to [1, 2]
        N, D = ratio(L, leaf)
        if claim.kind == 'relx':
            T, lim = par.x, par.x * pconst(eps if par.lo >= 0 else -eps)
        else:
            T, d = taylor((lambda p: gp(p) * mpq(sc)), par, R, mp.mpf(float(eps)) / 50)
            N = N * pconst(sc)
            lim = (T * pconst(eps) if claim.kind == 'rel' else pconst(eps)) - pconst(d * 2)
        for sd in (1, -1):
            if D.isconst() and D.const() * sd < 0:
                continue
            dc = [] if D.isconst() else [(D * pconst(sd)).z3(par.p) >= 0]
            if dc and not L.sat(conds + dc):
                continue
            for df in ((N - T * D) * pconst(sd) - lim * D * pconst(sd), (T * D - N) * pconst(sd) - lim * D * pconst(sd)):
                if claim.kind != 'relx':
                    df, rd = df.rounded()
                    df = df + pconst(rd)
                if par.kind == 'recip' and any(k < 0 for k in df.c):
                    raise Give('not a polynomial of the reciprocal')
                bad = query(par, conds + dc + [df.z3(par.p) > 0])
                if bad is not None:
                    return bad, n
    if n == 0:
        raise Give('no feasible path')
    return None, n


def ratio(L, x):
    """numerator and denominator of a leaf"""
    one = pconst(1)
    try:
        return L(x), one
    except Give:
        pass
    if x.op == 'fdiv' or x.op == 'fmul':
        (n1, d1), (n2, d2) = ratio(L, x.args[0]), ratio(L, x.args[1])
        return (n1 * d2, d1 * n2) if x.op == 'fdiv' else (n1 * n2, d1 * d2)
    if x.op == 'app' and x.data == 'rcp':
        n, d = ratio(L, x.args[0])
        return d, n
    if x.op in ('fadd', 'fsub'):
        (n1, d1), (n2, d2) = ratio(L, x.args[0]), ratio(L, x.args[1])
        return (n1 * d2 + n2 * d1 if x.op == 'fadd' else n1 * d2 - n2 * d1), d1 * d2
    if x.op == 'ffma':
        (n1, d1), (n2, d2), (n3, d3) = [ratio(L, y) for y in x.args]
        return n1 * n2 * d3 + n3 * d1 * d2, d1 * d2 * d3
    if x.op == 'bvxor' and t.isc(x.args[1]) and x.args[1].data == SIGN:
        n, d = ratio(L, x.args[0])
        return -n, d
    raise Give(x.op)


def word_atoms(term, par):
    lo, hi = par.xq(par.lo), par.xq(par.hi)
    lo, hi = min(lo, hi), max(lo, hi)
    x = t.var('i0', 32)
    if lo >= 0:
        a, b = fp.round_frac(lo), fp.round_frac(hi)
        rng = [t.not_(t.ult(x, t.const(a, 32))), t.not_(t.ult(t.const(b, 32), x))]
    elif hi <= 0:
        a, b = fp.round_frac(-hi) | SIGN, fp.round_frac(-lo) | SIGN
        rng = [t.not_(t.ult(x, t.const(a, 32))), t.not_(t.ult(t.const(b, 32), x))]
    else:
        return term
    m = {}
    ok = {'var', 'const', 'bvand', 'bvor', 'bvxor', 'extract', 'concat', 'eq', 'slt', 'ult', 'fcmp'}
    for y in t.postorder([term]):
        if y.w == 0 and y.op in ('eq', 'slt', 'ult', 'fcmp') and y.id not in m and all(z.op in ok for z in t.postorder([y])):
            for v in (True, False):
                r, _ = smt.solve(rng + [y if not v else t.not_(y)], 'fp' if y.op == 'fcmp' else 'uf', 5000, 'accuracy-word', want_model=False)
                if r == 'unsat':
                    m[y.id] = t.boolc(v)
                    break
    return t.substitute([term], m)[0] if m else term


def query(par, cs, timeout=30000):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*par.dom(), *cs)
    t0 = time.time()
    r = s.check()
    STATS.add(r, time.time() - t0, 'accuracy')
    if r == z3.unsat:
        return None
    if r == z3.sat:
        v = s.model()[par.p]
        q = fromz3(v) if v is not None else par.lo - par.mid
        return q + par.mid if q is not None else 'unknown'
    return 'unknown'


def run(ctx, claim, tier, rng):
    rec = dict(name=claim.name, label=f'{claim.name}[{claim.out}]', mode=f'accuracy {float(claim.eps):.2g}', tv=0)
    enc = ctx.encode(claim.name)
    want = f'i{claim.out % W[claim.name]["nin"]}'
    rec['ninst'], rec['called'] = enc.ninst, sorted(enc.called)
    try:
        if enc.outs is None:
            raise Give('no return')
        term, v = single_var(enc.outs[claim.out])
        if v != want:
            raise Give(f'depends on {v} instead of {want}')
    except Give as ex:
        yield finish(ctx, claim, rec, None, want, f'{ex}', tier, rng)
        return
    if claim.libm and term.op == 'app' and term.data == claim.libm and term.args[0].op == 'var':
        rec.update(status='holds', how='libm')
        yield rec
        return
    key = (term.id, claim.fn, claim.kind, claim.eps)
    if key in _done:
        if _done[key] is None:
            rec.update(status='holds', how='nlsat')
            yield rec
        else:
            yield finish(ctx, claim, rec, _done[key][0], v, _done[key][1], tier, rng)
        return
    term = recognise_rounding(ctx, [term])[0]
    nl = 0
    for par, gp, R in claim.pieces(tier):
        try:
            bad, n = check_piece(ctx, term, claim, par, gp, R, claim.eps if tier == 'quick' else claim.eps * claim.wide)
            nl += n
        except Give as ex:
            bad = f'piece {par.kind} [{float(par.lo):.4g},{float(par.hi):.4g}]: {ex}'
        if bad is not None:
            _done[key] = (par, bad)
            yield finish(ctx, claim, rec, par, v, bad, tier, rng)
            return
    rec.update(status='holds', how='nlsat')
    _done[key] = None
    yield rec


def finish(ctx, claim, rec, par, v, bad, tier, rng):
    """a model or a failure: replay natively around it, then over the whole domain"""
    w = W[claim.name]
    idx = int(v[1:])
    xs = []
    if isinstance(bad, Q):
        xs += [float(par.xq(bad))]
        r = np.random.default_rng(1)
        a, b = sorted([float(par.xq(par.lo)), float(par.xq(par.hi))])
        xs += list(r.uniform(a, b, 4000)) + [float(par.xq(bad)) * (1 + e) for e in r.uniform(-1e-5, 1e-5, 200)]
    r = np.random.default_rng(2)
    for p, gp, R in claim.pieces(tier):
        a, b = sorted([float(p.xq(p.lo)), float(p.xq(p.hi))])
        xs += list(r.uniform(a, b, 400)) + [a, b]
        if claim.kind == 'relx':
            xs += [v * 2.0 ** -k for v in r.uniform(a, b, 8) for k in range(0, 110, 2)]
    x = np.array(xs, dtype=np.float32)
    keep = np.array([claim_dom(claim, float(q)) for q in x])
    x = x[keep]
    X = np.zeros((len(x), w['nin']), dtype=np.uint32)
    X[:, idx] = x.view(np.uint32)
    out, alive, died = native.run_many(build.so_path(ctx.cfg), 'h_' + claim.name, X, w['nout'])
    f = out[:, claim.out].copy().view(np.float32).astype(np.float64)
    xd = x.astype(np.float64)
    with np.errstate(all='ignore'):
        g = claim.npfn(xd)
        if claim.kind == 'tan':
            err = np.abs(np.sin(xd) - f * np.cos(xd)) / (1 + np.abs(f))
        elif claim.kind == 'relx':
            err = np.where(xd == 0, np.abs(f), np.abs(f - xd) / np.where(xd == 0, 1, np.abs(xd)))
        elif claim.kind == 'rel':
            err = np.maximum(np.abs(f - g) - 2.0 ** -148, 0) / np.abs(g)
        else:
            err = np.abs(f - g)
    err = np.where(alive, np.nan_to_num(err, nan=1e30, posinf=1e30), 1e30)
    k = int(np.argmax(err))
    tol = claim.eps_nat if tier == 'quick' else claim.eps_nat * claim.wide
    if err[k] > tol:
        rec.update(status='violated', how='nlsat+native', cex={'words': [int(q) for q in X[k]], 'lane': claim.out, 'expected': f'{claim.npfn(xd[k:k+1])[0]!r} within {tol:g} ({claim.kind})',
                                                              'got': int(out[k, claim.out])})
    else:
        rec.update(status='inconclusive', how='accuracy', why=f'{bad if not isinstance(bad, Q) else float(bad)}; native error at most {err[k]:.3g}')
    return rec


def claim_dom(claim, x):
    return claim.kind != 'rel' or -148 <= x < 127.999


def grid(lo, hi, step):
    lo, hi, step = Q(lo), Q(hi), Q(step)
    n = int((hi - lo) / step) + (0 if (hi - lo) % step == 0 else 1)
    for k in range(n):
        yield lo + (hi - lo) * k / n, lo + (hi - lo) * (k + 1) / n
