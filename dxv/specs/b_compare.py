"""C04 lane comparison masks, C05 comparison records, C06 whole-value predicates."""
from ..spec import *
from .. import terms as t

REL = {
    'Equal': lambda x, y: x.feq(y), 'NotEqual': lambda x, y: x.fne(y), 'Greater': lambda x, y: x > y, 'GreaterOrEqual': lambda x, y: x >= y,
    'Less': lambda x, y: x < y, 'LessOrEqual': lambda x, y: x <= y, 'EqualInt': lambda x, y: ieq(x, y), 'NotEqualInt': lambda x, y: not_(ieq(x, y)),
}


def near(x, y, e):
    return (x - y).abs() <= e


def inb(x, b):
    return and_(x <= b, (-b) <= x)


# ---------------------------------------------------------------- C04
for n in ('Equal', 'NotEqual', 'Greater', 'GreaterOrEqual', 'Less', 'LessOrEqual'):
    add('C04', 'XMVector' + n, lambda a, b, r=REL[n]: vmap(lambda x, y: mask(r(x, y)), a, b), 'bits')
add('C04', 'XMVectorNearEqual', lambda a, b, e: vmap(lambda x, y, z: mask(near(x, y, z)), a, b, e), 'bits')
add('C04', 'XMVectorInBounds', lambda a, b: vmap(lambda x, y: mask(inb(x, y)), a, b), 'bits')
add('C04', 'XMVectorIsNaN', lambda a: vmap(lambda x: mask(x.isnan()), a), 'bits')
add('C04', 'XMVectorIsInfinite', lambda a: vmap(lambda x: mask(x.isinf()), a), 'bits')

# ---------------------------------------------------------------- C05
TRUE_, FALSE_ = u(0x80), u(0x20)


def cr(ts):
    return ite(and_(*ts), TRUE_, ite(not_(or_(*ts)), FALSE_, ZERO))


for n in ('Equal', 'Greater', 'GreaterOrEqual', 'EqualInt'):
    def f(a, b, r=REL[n]):
        ts = [r(x, y) for x, y in zip(a, b)]
        return [cr(ts), [mask(c) for c in ts]]
    add('C05', f'XMVector{n}R', f, 'bits')
    for d in (2, 3, 4):
        add('C05', f'XMVector{d}{n}R', lambda a, b, r=REL[n], d=d: cr([r(a[k], b[k]) for k in range(d)]), 'bits')


def inbr(a, b):
    ts = [inb(x, y) for x, y in zip(a, b)]
    return [ite(and_(*ts), FALSE_, ZERO), [mask(c) for c in ts]]


add('C05', 'XMVectorInBoundsR', inbr, 'bits')
has = lambda c, m: not_(ieq(c.bit('bvand', u(m)), 0))
add('C05', 'XMComparisonAllTrue', lambda c: b2u(has(c, 0x80)), 'bits')
add('C05', 'XMComparisonAnyTrue', lambda c: b2u(not_(has(c, 0x20))), 'bits')
add('C05', 'XMComparisonAllFalse', lambda c: b2u(has(c, 0x20)), 'bits')
add('C05', 'XMComparisonAnyFalse', lambda c: b2u(not_(has(c, 0x80))), 'bits')
add('C05', 'XMComparisonMixed', lambda c: b2u(not_(has(c, 0xF0))), 'bits')
add('C05', 'XMComparisonAllInBounds', lambda c: b2u(has(c, 0x20)), 'bits')
add('C05', 'XMComparisonAnyOutOfBounds', lambda c: b2u(not_(has(c, 0x20))), 'bits')

# ---------------------------------------------------------------- C06
for d in (2, 3, 4):
    for n in ('Equal', 'Greater', 'GreaterOrEqual', 'Less', 'LessOrEqual', 'EqualInt'):
        add('C06', f'XMVector{d}{n}', lambda a, b, r=REL[n], d=d: b2u(and_(*[r(a[k], b[k]) for k in range(d)])), 'bits')
    for n in ('NotEqual', 'NotEqualInt'):
        add('C06', f'XMVector{d}{n}', lambda a, b, r=REL[n], d=d: b2u(or_(*[r(a[k], b[k]) for k in range(d)])), 'bits')
    add('C06', f'XMVector{d}NearEqual', lambda a, b, e, d=d: b2u(and_(*[near(a[k], b[k], e[k]) for k in range(d)])), 'bits')
    add('C06', f'XMVector{d}InBounds', lambda a, b, d=d: b2u(and_(*[inb(a[k], b[k]) for k in range(d)])), 'bits')
    add('C06', f'XMVector{d}IsNaN', lambda a, d=d: b2u(or_(*[a[k].isnan() for k in range(d)])), 'bits')
    add('C06', f'XMVector{d}IsInfinite', lambda a, d=d: b2u(or_(*[a[k].isinf() for k in range(d)])), 'bits')
for p in ('Quaternion', 'Plane'):
    add('C06', f'XM{p}Equal', lambda a, b: b2u(and_(*[x.feq(y) for x, y in zip(a, b)])), 'bits')
    add('C06', f'XM{p}NotEqual', lambda a, b: b2u(or_(*[x.fne(y) for x, y in zip(a, b)])), 'bits')
    add('C06', f'XM{p}IsNaN', lambda a: b2u(or_(*[x.isnan() for x in a])), 'bits')
    add('C06', f'XM{p}IsInfinite', lambda a: b2u(or_(*[x.isinf() for x in a])), 'bits')
add('C06', 'XMQuaternionIsIdentity', lambda a: b2u(and_(*[x.feq(y) for x, y in zip(a, (0, 0, 0, 1))])), 'bits')


def plane_near(a, b, e, real):
    p, q = real('XMPlaneNormalize', a), real('XMPlaneNormalize', b)
    return b2u(and_(*[near(x, y, z) for x, y, z in zip(p, q, e)]))


add('C06', 'XMPlaneNearEqual', plane_near, 'bits', needs_call=True)
add('C06', 'XMScalarNearEqual', lambda a, b, e: b2u(near(a, b, e)), 'bits')
add('C06', 'XMMatrixIsNaN', lambda m: b2u(or_(*[x.isnan() for r in m for x in r])), 'bits')
add('C06', 'XMMatrixIsInfinite', lambda m: b2u(or_(*[x.isinf() for r in m for x in r])), 'bits')
add('C06', 'XMMatrixIsIdentity', lambda m: b2u(and_(*[x.feq(1 if r == c else 0) for r, v in enumerate(m) for c, x in enumerate(v)])), 'bits')
