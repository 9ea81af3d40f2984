"""C08 lane arithmetic, C09 rounding, C10 conversions, C11 half, C12 angles."""
import math
from fractions import Fraction as Q
from ..spec import *
from .. import terms as t

L2 = lambda f: (lambda a, b: vmap(f, a, b))
# ---------------------------------------------------------------- C08
add('C08', 'XMVectorAdd', L2(lambda x, y: x + y))
add('C08', 'XMVectorSubtract', L2(lambda x, y: x - y))
add('C08', 'XMVectorMultiply', L2(lambda x, y: x * y))
add('C08', 'XMVectorDivide', L2(lambda x, y: x / y))
add('C08', 'XMVectorNegate', lambda a: -a)
add('C08', 'XMVectorAbs', lambda a: a.abs())
add('C08', 'XMVectorScale', lambda a, s: a * s)
add('C08', 'XMVectorMin', L2(imin), 'bits')
add('C08', 'XMVectorMax', L2(imax), 'bits')
pre('XMVectorClamp', lambda v, lo, hi: and_(*[x <= y for x, y in zip(lo, hi)]))


def clampn(v, lo, hi):
    return ite(v.isnan(), v, ite(v < lo, lo, ite(v > hi, hi, v)))


add('C08', 'XMVectorClamp', lambda v, lo, hi: vmap(clampn, v, lo, hi))
sat = lambda nan: (lambda v: vmap(lambda x: ite(x.isnan(), x if nan else ZERO, ite(x < 0, ZERO, ite(x > 1, fc(1), x))), v))
add('C08', 'XMVectorSaturate', sat(False), alts=(sat(True),))
add('C08', 'XMVectorSqrt', lambda a: vmap(lambda x: x.sqrt(), a))
add('C08', 'XMVectorReciprocal', lambda a: vmap(lambda x: 1 / x, a))
add('C08', 'XMVectorReciprocalSqrt', lambda a: vmap(lambda x: 1 / x.sqrt(), a), 'tol', nonfinite=True)
add('C08', 'XMVectorSqrtEst', lambda a: vmap(lambda x: x.sqrt(), a), 'est', pre=lambda a: and_(*[x >= 1e-30 for x in a]))
add('C08', 'XMVectorReciprocalEst', lambda a: vmap(lambda x: 1 / x, a), 'est')
add('C08', 'XMVectorReciprocalSqrtEst', lambda a: vmap(lambda x: 1 / x.sqrt(), a), 'est')
add('C08', 'XMVectorMultiplyAdd', lambda a, b, c: a * b + c, 'tol')
add('C08', 'XMVectorNegativeMultiplySubtract', lambda a, b, c: c - a * b, 'tol')
add('C08', 'XMVectorSum', lambda a: splat(asum(a)), 'tol')
add('C08', 'XMMin_f32', imin)
add('C08', 'XMMax_f32', imax)
add('C08', 'XMMin_u32', lambda a, b: ite(iult(a, b), a, b), 'bits')
add('C08', 'XMMax_u32', lambda a, b: ite(iult(b, a), a, b), 'bits')

# ---------------------------------------------------------------- C09
for n, rm in (('Round', 'RNE'), ('Truncate', 'RTZ'), ('Floor', 'RTN'), ('Ceiling', 'RTP')):
    add('C09', 'XMVector' + n, lambda a, rm=rm: vmap(lambda x: x.rnd(rm), a))
add('C09', 'XMVectorMod', lambda a, b, real: vmap(lambda x, y, q: x - q * y, a, b, real('XMVectorTruncate', real('XMVectorDivide', a, b))), 'tol', needs_call=True)

# ---------------------------------------------------------------- C10
EXP = [{4: d} for d in range(32)]
P2 = lambda d: F(t.cvt('uitofp', 32, t.arith('shl', t.const(1, 32), d.t)))
I2 = lambda d: F(t.arith('shl', t.arith('sub', t.const(127, 32), d.t), t.const(23, 32)))
for n in ('FloatToInt', 'FloatToUInt', 'IntToFloat', 'UIntToFloat'):
    pre('XMConvertVector' + n, lambda v, d: iult(d, 32))


def f2i(nan):
    def g(v, m):
        def one(x):
            y = x * P2(m)
            return ite(y.isnan(), u(nan), F(t.cvt('fptosi_sat', 32, y.t)))
        return vmap(one, v)
    return g


add('C10', 'XMConvertVectorFloatToInt', f2i(0), 'bits', alts=(f2i(0x80000000),), pieces=EXP)
add('C10', 'XMConvertVectorFloatToUInt', lambda v, m: vmap(lambda x: F(t.cvt('fptoui_sat', 32, (x * P2(m)).t)), v), 'bits', pieces=EXP)
add('C10', 'XMConvertVectorIntToFloat', lambda v, d: vmap(lambda x: F(t.cvt('sitofp', 32, x.t)) * I2(d), v), 'num', pieces=EXP)
u1 = lambda v, d: vmap(lambda x: F(t.cvt('uitofp', 32, x.t)) * I2(d), v)
u2 = lambda v, d: vmap(lambda x: (F(t.cvt('sitofp', 32, x.bit('bvand', u(0x7FFFFFFF)).t)) + ite(t.slt(x.t, t.const(0, 32)), fc(1 << 31), ZERO)) * I2(d), v)
add('C10', 'XMConvertVectorUIntToFloat', u1, 'tol', alts=(u2,), pieces=EXP, nonfinite=True)
PI = Q('3.141592654')
add('C10', 'XMConvertToRadians', lambda x: x * (fc(PI) / fc(180)), 'tol')
add('C10', 'XMConvertToDegrees', lambda x: x * (fc(180) / fc(PI)), 'tol')

# ---------------------------------------------------------------- C11
add('C11', 'XMConvertHalfToFloat', lambda h: F(t.cvt('fpext', 32, t.extract(h.t, 15, 0))), 'num')


def f2h(x):
    s = t.bit('bvand', t.arith('lshr', x.t, t.const(16, 32)), t.const(0x8000, 32))
    nan = t.bit('bvor', t.bit('bvor', s, t.const(0x7E00, 32)), t.bit('bvand', t.arith('lshr', x.t, t.const(13, 32)), t.const(0x3FF, 32)))
    return ite(x.isnan(), F(nan), F(t.zext(t.cvt('fptrunc', 16, x.t, 'RNE'), 32)))


add('C11', 'XMConvertFloatToHalf', f2h, 'bits', alts=(lambda x: F(t.zext(t.cvt('fptrunc', 16, x.t, 'RNE'), 32)),))

# ---------------------------------------------------------------- C12
TWOPI = fc(Q('6.283185307'))
RTWOPI = fc(Q('0.159154943'))
FPI = fc(PI)
add('C12', 'XMVectorModAngles', lambda a, real: vmap(lambda x, r: x - TWOPI * r, a, real('XMVectorRound', a * RTWOPI)), 'tol', needs_call=True)


def wrap1(s):
    return s + ite(s >= FPI, -TWOPI, ite(s < -FPI, TWOPI, ZERO))


def wrap2(s):
    r = s + ite(s < -FPI, TWOPI, ZERO)
    return r - ite(r >= FPI, TWOPI, ZERO)


inpi = lambda a, b: and_(*[and_(-FPI <= x, x < FPI) for x in list(a) + list(b)])
for n, op in (('AddAngles', lambda x, y: x + y), ('SubtractAngles', lambda x, y: x - y)):
    add('C12', 'XMVector' + n, lambda a, b, op=op: vmap(lambda x, y: wrap1(op(x, y)), a, b), 'tol', pre=inpi,
        alts=(lambda a, b, op=op: vmap(lambda x, y: wrap2(op(x, y)), a, b),))
