"""C01 load/store, C02 constructors and accessors, C03 lane rearrangement, C07 bitwise."""
import json
import os
from ..spec import *
from ..core import W

# ---------------------------------------------------------------- C01
for n in (2, 3, 4):
    for ty in ('Float', 'Int'):
        add('C01', f'XMLoad{ty}{n}', lambda s, n=n: V(list(s) + [ZERO] * (4 - n)), 'bits')
        add('C01', f'XMStore{ty}{n}', lambda v, n=n: v[:n], 'bits')
for n in (3, 4):
    add('C01', f'XMLoadFloat{n}A', lambda s, n=n: V(list(s) + [ZERO] * (4 - n)), 'bits')
    add('C01', f'XMStoreFloat{n}A', lambda v, n=n: v[:n], 'bits')
add('C01', 'XMStoreFloat', lambda v: v[0], 'bits')
ROWS = lambda s, r, c: [V(s[c * k:c * k + c]) for k in range(r)]
E4 = V([ZERO, ZERO, ZERO, fc(1)])
add('C01', 'XMLoadFloat3x3', lambda s: [V(list(r) + [ZERO]) for r in ROWS(s, 3, 3)] + [E4], 'bits')
add('C01', 'XMStoreFloat3x3', lambda m: [r[:3] for r in m[:3]], 'bits')
add('C01', 'XMLoadFloat4x3', lambda s: [V(list(r) + [fc(1) if k == 3 else ZERO]) for k, r in enumerate(ROWS(s, 4, 3))], 'bits')
add('C01', 'XMStoreFloat4x3', lambda m: [r[:3] for r in m], 'bits')
# XMFLOAT3X4 is stored column by column (the transpose of the 4x3 affine matrix)
add('C01', 'XMLoadFloat3x4', lambda s: [V([s[4 * c + r] for c in range(3)] + [fc(1) if r == 3 else ZERO]) for r in range(4)], 'bits')
add('C01', 'XMStoreFloat3x4', lambda m: [[m[r][c] for r in range(4)] for c in range(3)], 'bits')
for sfx in ('', 'A'):
    add('C01', f'XMLoadFloat4x4{sfx}', lambda s: ROWS(s, 4, 4), 'bits')
    add('C01', f'XMStoreFloat4x4{sfx}', lambda m: m, 'bits')
for k, w in W.items():
    if k.endswith('_conv'):
        n = w['nin']
        add('C01', k, lambda s, c=w['nout'] // n: [s] * c, 'bits')

# ---------------------------------------------------------------- C02
def const(name, *ws):
    add('C02', name, lambda: V([u(x) for x in (ws if len(ws) == 4 else ws * 4)]), 'bits')


const('XMVectorZero', 0)
const('XMVectorTrueInt', 0xFFFFFFFF)
const('XMVectorFalseInt', 0)
const('XMVectorSplatOne', 0x3F800000)
const('XMVectorSplatInfinity', 0x7F800000)
const('XMVectorSplatQNaN', 0x7FC00000)
const('XMVectorSplatEpsilon', 0x34000000)
const('XMVectorSplatSignMask', 0x80000000)
const('XMQuaternionIdentity', 0, 0, 0, 0x3F800000)
add('C02', 'XMVectorSet', lambda x, y, z, w: [x, y, z, w], 'bits')
add('C02', 'XMVectorSetInt', lambda x, y, z, w: [x, y, z, w], 'bits')
add('C02', 'XMVector_set', lambda s: s, 'bits')
for n in ('XMVectorReplicate', 'XMVectorReplicateInt', 'XMVectorReplicatePtr'):
    add('C02', n, lambda x: [x] * 4, 'bits')
for k, c in enumerate('XYZW'):
    add('C02', f'XMVectorSplat{c}', lambda v, k=k: [v[k]] * 4, 'bits')
    add('C02', f'XMVectorGet{c}', lambda v, k=k: v[k], 'bits')
    add('C02', f'XMVectorGetInt{c}', lambda v, k=k: v[k], 'bits')
    add('C02', f'XMVectorGet{c}Ptr', lambda v, k=k: v[k], 'bits')
    for n in (f'XMVectorSet{c}', f'XMVectorSetInt{c}'):
        add('C02', n, lambda v, x, k=k: [x if j == k else v[j] for j in range(4)], 'bits')


def lane_ix(v, i):
    return ite(ieq(i, 0), v[0], ite(ieq(i, 1), v[1], ite(ieq(i, 2), v[2], v[3])))


for n in ('XMVectorGetByIndex', 'XMVectorGetIntByIndex'):
    pre(n, lambda v, i: iult(i, 4))
    add('C02', n, lane_ix, 'bits')
for n in ('XMVectorSetByIndex', 'XMVectorSetIntByIndex'):
    pre(n, lambda v, x, i: iult(i, 4))
    add('C02', n, lambda v, x, i: [ite(ieq(i, k), x, v[k]) for k in range(4)], 'bits')
add('C02', 'XMVectorSetBinaryConstant', lambda *c: [ite(ieq(x.bit('bvand', u(1)), 1), fc(1), ZERO) for x in c], 'bits')


def splat_const(i, d):
    # IntConstant / 2^DivExponent, |IntConstant| small enough to be exact
    f = F(t.cvt('sitofp', 32, i.t))
    sc = F(t.arith('shl', t.arith('sub', t.const(127, 32), d.t), t.const(23, 32)))
    return splat(f * sc)


from .. import terms as t
pre('XMVectorSplatConstant', lambda i, d: and_(iult(d, 32), t.slt(t.const(-17, 32), i.t), t.slt(i.t, t.const(16, 32))))
add('C02', 'XMVectorSplatConstant', splat_const, 'num')
pre('XMVectorSplatConstantInt', lambda i: and_(t.slt(t.const(-17, 32), i.t), t.slt(i.t, t.const(16, 32))))
add('C02', 'XMVectorSplatConstantInt', lambda i: splat(i), 'bits')

# ---------------------------------------------------------------- C03
for n in ('XMVectorSwizzle',):
    pre(n, lambda v, *e: and_(*[iult(x, 4) for x in e]))
    add('C03', n, lambda v, *e: [lane_ix(v, x) for x in e], 'bits')


def lane8(a, b, i):
    r = b[3]
    for k, x in reversed(list(enumerate(list(a) + list(b[:3])))):
        r = ite(ieq(i, k), x, r)
    return r


pre('XMVectorPermute', lambda a, b, *e: and_(*[iult(x, 8) for x in e]))
add('C03', 'XMVectorPermute', lambda a, b, *e: [lane8(a, b, x) for x in e], 'bits')


def shl(a, b, n):
    c = list(a) + list(b)
    r = V(c[3:7])
    for k in (2, 1, 0):
        r = ite(ieq(n, k), V(c[k:k + 4]), r)
    return r


pre('XMVectorShiftLeft', lambda a, b, n: iult(n, 4))
add('C03', 'XMVectorShiftLeft', shl, 'bits')
pre('XMVectorRotateLeft', lambda a, n: iult(n, 4))
add('C03', 'XMVectorRotateLeft', lambda a, n: shl(a, a, n), 'bits')


def rotr(a, n):
    r = V(a)
    for k in (1, 2, 3):
        r = ite(ieq(n, k), V([a[(j - k) % 4] for j in range(4)]), r)
    return r


pre('XMVectorRotateRight', lambda a, n: iult(n, 4))
add('C03', 'XMVectorRotateRight', rotr, 'bits')


def insert(d, s, n, *sel):
    r = shl(s, s, n)
    return [ite(ieq(x.bit('bvand', u(1)), 1), r[k], d[k]) for k, x in enumerate(sel)]


pre('XMVectorInsert', lambda d, s, n, *sel: and_(iult(n, 4), *[iult(x, 2) for x in sel]))
add('C03', 'XMVectorInsert', insert, 'bits')
add('C03', 'XMVectorMergeXY', lambda a, b: [a[0], b[0], a[1], b[1]], 'bits')
add('C03', 'XMVectorMergeZW', lambda a, b: [a[2], b[2], a[3], b[3]], 'bits')
add('C03', 'XMVectorSelect', lambda a, b, c: vmap(lambda x, y, m: F(t.bit('bvor', t.bit('bvand', x.t, t.bvnot(m.t)), t.bit('bvand', y.t, m.t))), a, b, c), 'bits')
pre('XMVectorSelectControl', lambda *c: and_(*[iult(x, 2) for x in c]))
add('C03', 'XMVectorSelectControl', lambda *c: [mask(ieq(x, 1)) for x in c], 'bits')
from ..gen_harness2 import permute_set
for k in range(4):
    add('C03', f'trait_swizzle{k}', lambda v, k=k: [[v[e] for e in (k, b, c, d)] for b in range(4) for c in range(4) for d in range(4)], 'bits')
_ps = permute_set()
_per = None
for n in sorted((x for x in W if x.startswith('trait_permute')), key=lambda x: int(x[13:])):
    cnt = W[n]['nout'] // 4
    _per = _per or cnt
    k = int(n[13:])
    combos = _ps[k * _per:k * _per + cnt]
    add('C03', n, lambda a, b, combos=combos: [[(list(a) + list(b))[e] for e in c] for c in combos], 'bits')

# ---------------------------------------------------------------- C07
B = lambda op: (lambda a, b: vmap(lambda x, y: x.bit(op, y), a, b))
add('C07', 'XMVectorAndInt', B('bvand'), 'bits')
add('C07', 'XMVectorOrInt', B('bvor'), 'bits')
add('C07', 'XMVectorXorInt', B('bvxor'), 'bits')
add('C07', 'XMVectorAndCInt', lambda a, b: vmap(lambda x, y: F(t.bit('bvand', x.t, t.bvnot(y.t))), a, b), 'bits')
add('C07', 'XMVectorNorInt', lambda a, b: vmap(lambda x, y: F(t.bvnot(t.bit('bvor', x.t, y.t))), a, b), 'bits')
add('C07', 'XMVectorEqualInt', lambda a, b: vmap(lambda x, y: mask(ieq(x, y)), a, b), 'bits')
add('C07', 'XMVectorNotEqualInt', lambda a, b: vmap(lambda x, y: mask(not_(ieq(x, y))), a, b), 'bits')
