"""C13 accuracy of the trigonometric functions, C14 exponentials and hyperbolic functions."""
from fractions import Fraction as Q
import numpy as np
import mpmath as mp
from ..spec import *
from .. import accur
from ..accur import Claim, Par, grid

NOTN = ['s', 's3', 's4', 'avx', 'a', 'i']
PI = Q('3.14159265358979')


def circ(g, periods):
    def pieces(tier):
        n = periods if tier == 'quick' else 4 * periods
        for lo, hi in grid(-PI * n, PI * n, Q(4, 5)):
            if lo < 0 < hi:
                yield Par('id', 1, lo, 0), g, 3
                yield Par('id', 1, 0, hi), g, 3
            else:
                yield Par('id', 1, lo, hi), g, 3
    return pieces


def arcs(g):
    """x = sg (1 - s^2), s in [0, 1]; g(p, sg)"""
    def pieces(tier):
        for sg in (1, -1):
            for lo, hi in grid(0, 1, Q(1, 8)):
                yield Par('sqrt', sg, lo, hi), (lambda p, sg=sg: g(p, sg)), mp.mpf('0.3')
    return pieces


def arct(tier):
    for lo, hi in grid(-1, 1, Q(1, 4)):
        yield Par('id', 1, lo, hi), mp.atan, mp.mpf('0.8')
    for sg in (1, -1):
        for lo, hi in grid(0, 1, Q(1, 4)):
            yield Par('recip', sg, lo, hi), (lambda p, sg=sg: sg * (mp.pi / 2 - mp.atan(p))), mp.mpf('0.8')


r2 = mp.sqrt(2)
asin_s = lambda p, sg: sg * (mp.pi / 2 - 2 * mp.asin(p / r2))
acos_s = lambda p, sg: 2 * mp.asin(p / r2) if sg > 0 else mp.pi - 2 * mp.asin(p / r2)

def arcs0(g, at0):
    f = arcs(g)

    def pieces(tier):
        yield from f(tier)
        yield Par('pt', 1, 0, 0), (lambda p: at0), mp.mpf(1)
    return pieces


CLAIMS = []


def acc(name, outs, fn, pieces, eps, nat, kind='abs', npfn=None, libm=None, prop='C13', wide=1, cfgs=None):
    cs = [Claim(prop, n, o, fn, pieces, eps, nat, kind, npfn, libm, wide) for n in ([name] if isinstance(name, str) else name) for o in outs]
    CLAIMS.extend(cs)

    def run(ctx, rng, tier):
        for c in cs:
            yield from accur.run(ctx, c, tier, rng)
    custom(prop, f'{name}:{fn}', cfgs=cfgs)(run)


V4, K = range(4), 3
SIN, COS = circ(mp.sin, 2 * K + 1), circ(mp.cos, 2 * K + 1)
ASIN, ACOS = arcs0(asin_s, mp.mpf(0)), arcs0(acos_s, mp.pi / 2)
FULL = dict(eps='1e-6', nat=2e-6, wide=4)
EST = dict(eps='2e-5', nat=3e-5)
for p, o, o2 in (('XMVector', V4, range(4, 8)), ('XMScalar', [0], [1])):
    for e, kw in (('', FULL), ('Est', EST)):
        acc(p + 'Sin' + e, o, 'sin', SIN, npfn=np.sin, libm='sin', **kw)
        acc(p + 'Cos' + e, o, 'cos', COS, npfn=np.cos, libm='cos', **kw)
        acc(p + 'SinCos' + e, o, 'sin', SIN, npfn=np.sin, libm='sin', **kw)
        acc(p + 'SinCos' + e, o2, 'cos', COS, npfn=np.cos, libm='cos', **kw)
    acc(p + 'ASin', o, 'asin', ASIN, '1e-6', 1.5e-6, npfn=np.arcsin, libm='asin')
    acc(p + 'ACos', o, 'acos', ACOS, '1e-6', 1.5e-6, npfn=np.arccos, libm='acos')
    acc(p + 'ASinEst', o, 'asin', ASIN, '1e-4', 1.5e-4, npfn=np.arcsin, libm='asin')
    acc(p + 'ACosEst', o, 'acos', ACOS, '1e-4', 1.5e-4, npfn=np.arccos, libm='acos')


def small(tier):
    yield Par('id', 1, 0, Q(1, 1024)), None, None
    yield Par('id', 1, -Q(1, 1024), 0), None, None


for nm, o, eps, lm in (('XMScalarSin', [0], '1e-6', 'sin'), ('XMScalarSinEst', [0], '2e-6', 'sin'), ('XMScalarSinCos', [0], '1e-6', 'sin'), ('XMScalarSinCosEst', [0], '2e-6', 'sin'),
                       ('XMVectorSin', V4, '1e-6', 'sin'), ('XMVectorSinEst', V4, '2e-6', 'sin'), ('XMVectorSinCos', V4, '1e-6', 'sin'), ('XMVectorSinCosEst', V4, '2e-6', 'sin'),
                       ('XMVectorTan', V4, '1e-6', 'tan'), ('XMVectorTanEst', V4, '1e-2', 'tan'), ('XMVectorATan', V4, '1e-6', 'atan'), ('XMVectorATanEst', V4, '2e-4', 'atan')):
    acc(nm, o, lm + ' of small angles', small, eps, 1.5 * float(eps), 'relx', npfn={'sin': np.sin, 'tan': np.tan, 'atan': np.arctan}[lm], libm=lm)
E1 = 1 + Q(1, 2 ** 23)          # the next float after 1


def beyond(at1, atm1):
    """x outside [-1, 1]: the value at the nearer end"""
    def pieces(tier):
        hi = 8 if tier == 'quick' else 1000
        yield Par('id', 1, E1, hi), (lambda p: at1), mp.mpf(10) ** 6
        yield Par('id', 1, -hi, -E1), (lambda p: atm1), mp.mpf(10) ** 6
    return pieces


for nm, f, a, b in (('ASin', np.arcsin, mp.pi / 2, -mp.pi / 2), ('ACos', np.arccos, mp.mpf(0), mp.pi)):
    for e in ('', 'Est'):
        fn = lambda x, f=f: f(np.clip(x, -1, 1))
        acc('XMScalar' + nm + e, [0], nm + ' outside [-1, 1]', beyond(a, b), '1e-6', 1.5e-6, npfn=fn)
        acc('XMVector' + nm + e, V4, nm + ' outside [-1, 1]', beyond(a, b), '1e-6', 1.5e-6, npfn=fn, cfgs=NOTN)
acc('XMVectorTan', V4, 'tan', SIN, '1.5e-6', 3e-6, 'tan', npfn=np.tan, libm='tan', wide=4)
acc('XMVectorTanEst', V4, 'tan', SIN, '2e-3', 4e-3, 'tan', npfn=np.tan, libm='tan')
acc('XMVectorATan', V4, 'atan', arct, '5e-7', 1e-6, npfn=np.arctan, libm='atan')
acc('XMVectorATanEst', V4, 'atan', arct, '2e-5', 4e-5, npfn=np.arctan, libm='atan')


def exp2(lo, hi):
    def pieces(tier):
        for k in range(lo, hi):
            if tier == 'quick' and not (-14 <= k <= 14 or k <= -147 or -128 <= k <= -124 or k >= 124):
                continue
            yield Par('id', 1, k, k + 1 if k < 127 else 128 - Q(1, 2 ** 16)), (lambda p: mp.mpf(2) ** p), 2
    return pieces


EXPN, EXPP = exp2(-149, 0), exp2(0, 128)
EX = ('XMVectorExp2', 'XMVectorExp')
acc(EX, V4, 'exp2 of x < 0', EXPN, '1.1e-5', 1.3e-5, 'rel', npfn=np.exp2, libm='exp2', prop='C14')
acc(EX, V4, 'exp2 of x >= 0', EXPP, '3e-7', 6e-7, 'rel', npfn=np.exp2, libm='exp2', prop='C14')

APP = lambda name: (lambda *vs: vmap(lambda x, *o: x.app(name, *o), *vs))
for nm in ('Exp2', 'Exp'):
    add('C14', 'XMVector' + nm, APP('exp2'), 'num', cfgs=['n'])
add('C14', 'XMVectorPow', APP('pow'), 'num')
# ---- the ends of the range: NaN stays NaN, 2^x overflows to infinity from 128 and underflows to zero from -150
ends = lambda v: and_(*[or_(x.isnan(), x >= 128, x <= -150) for x in v])
for nm in ('Exp2', 'Exp'):
    add('C14', 'XMVector' + nm, lambda v: vmap(lambda x: ite(x.isnan(), u(0x7FC00000), ite(x <= 0, ZERO, u(0x7F800000))), v), 'num', pre=ends, nonfinite=True, cfgs=NOTN, label=f'XMVector{nm}/ends')
PARTS['C14'] = 3
LOG2E = fc(1.442695040888963)
for nm, op in (('SinH', lambda a, b: a - b), ('CosH', lambda a, b: a + b)):
    add('C14', 'XMVector' + nm, lambda v, real, op=op: op(real('XMVectorExp2', v * LOG2E - 1), real('XMVectorExp2', -v * LOG2E - 1)), 'tol', cfgs=NOTN, needs_call=True)
    add('C14', 'XMVector' + nm, APP(nm.lower()), 'num', cfgs=['n'])
add('C14', 'XMVectorTanH', APP('tanh'), 'num', cfgs=['n'])
add('C14', 'XMVectorTanH', lambda v, real: 1 - 1 / (real('XMVectorExp2', v * fc(2.8853900817779268)) * 0.5 + 0.5), 'tol', cfgs=NOTN, needs_call=True)

# ---- the angle of a point
CPI = {q: fc(Q(p)) for q, p in ((1, '3.14159265358979'), (2, '1.570796326794897'), (4, '0.785398163397448'), (34, '2.35619449019234'))}


def atan2(est):
    def f(Y, X, real):
        out = []
        for k in range(4):
            y, x = Y[k], X[k]
            sg = y.bit('bvand', u(0x80000000))
            S = lambda c: c.bit('bvor', sg)
            xpos = ieq(x.bit('bvand', u(0x80000000)), 0)
            q = y * x.app('rcp') if est else y / x
            at = real('XMVectorATanEst' if est else 'XMVectorATan', splat(q))[0]
            gen = at + ite(xpos, u(0x80000000), S(CPI[1]))
            out.append(ite(y.isinf(), ite(x.isinf(), ite(xpos, S(CPI[4]), S(CPI[34])), S(CPI[2])),
                           ite(y.feq(0), ite(xpos, sg, S(CPI[1])), ite(x.feq(0), S(CPI[2]), gen))))
        return V(out)
    return f


nonan = lambda *vs: and_(*[not_(x.isnan()) for v in vs for x in v])
add('C13', 'XMVectorATan2', atan2(False), 'tol', cfgs=NOTN, needs_call=True, nonfinite=True, pre=nonan)
add('C13', 'XMVectorATan2Est', atan2(True), 'est', cfgs=NOTN, needs_call=True, nonfinite=True, pre=nonan)
add('C13', 'XMVectorATan2', APP('atan2'), 'num', cfgs=['n'])
add('C13', 'XMVectorATan2Est', APP('atan2'), 'num', cfgs=['n'])

# ---- XMScalarModAngle (C12)


def smod(trunc):
    def f(x):
        P, P2 = fc(Q('3.141592654')), fc(Q('6.283185307'))
        a = x + P
        m = a.abs()
        r = m - P2 * trunc(m / P2) - P
        return ite(a < 0, -r, r)
    return f


add('C12', 'XMScalarModAngle', smod(lambda q: F(t.cvt('sitofp', 32, t.cvt('fptosi_sat', 32, q.t)))), 'tol', alts=(smod(lambda q: q.rnd('RTZ')),),
    pre=lambda x: x.abs() <= 1e9)
