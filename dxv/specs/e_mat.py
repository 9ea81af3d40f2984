"""C21 matrix products, C22 determinant/inverse, C23 builders, C25 quaternions, C26 planes, C27 operators."""
from fractions import Fraction as Q
from ..spec import *
from .. import terms as t
from .d_vec import NOTN, mm, xf, qmul, conj, det3

I4 = [V([fc(1) if i == j else ZERO for j in range(4)]) for i in range(4)]
tr = lambda m: [V([m[j][i] for j in range(4)]) for i in range(4)]
v3 = lambda v, w=ZERO: V([v[0], v[1], v[2], w])

# ---------------------------------------------------------------- C21
add('C21', 'XMMatrixMultiply', mm, 'tol')
add('C21', 'XMMatrixMultiplyTranspose', lambda a, b: tr(mm(a, b)), 'tol')
add('C21', 'XMMatrixTranspose', tr, 'bits')
add('C21', 'XMMatrixVectorTensorProduct', lambda a, b: [V([x * y for y in b]) for x in a], 'num')
add('C21', 'XMMatrixIdentity', lambda: I4, 'bits')
add('C21', 'XMMatrixSet', lambda *a: list(a), 'bits')
mel = lambda f: (lambda a, b: [V([f(x, y) for x, y in zip(p, q)]) for p, q in zip(a, b)])
msc = lambda f: (lambda a, s: [V([f(x, s) for x in p]) for p in a])
for suf in ('', '_assign'):
    add('C21', 'XMMatrix_mul' + suf, mm, 'tol')
    add('C21', 'XMMatrix_add' + suf, mel(lambda x, y: x + y))
    add('C21', 'XMMatrix_sub' + suf, mel(lambda x, y: x - y))
    add('C21', 'XMMatrix_mul_f32' + suf, msc(lambda x, s: x * s))
    add('C21', 'XMMatrix_div_f32' + suf, msc(lambda x, s: x / s), 'tol')
add('C21', 'f32_mul_XMMatrix', msc(lambda x, s: x * s))
add('C21', 'XMMatrix_neg', lambda a: [-r for r in a])


# ---------------------------------------------------------------- C22
def minor(m, i, j):
    r = [[m[p][q] for q in range(4) if q != j] for p in range(4) if p != i]
    return det3(*r)


def det(m):
    s = [m[0][j] * minor(m, 0, j) for j in range(4)]
    return s[0] - s[1] + s[2] - s[3]


def inverse(m):
    d = det(m)
    return [V([(minor(m, j, i) if (i + j) % 2 == 0 else -minor(m, j, i)) / d for j in range(4)]) for i in range(4)]


def gmat(r, n):
    import numpy as np
    X = np.where(r.random((n, 1)) < 0.5, r.integers(-3, 4, size=(n, 16)), r.uniform(-2, 2, size=(n, 16)))
    a = r.random(n) < 0.3
    X[a, 3] = X[a, 7] = X[a, 11] = 0
    X[a, 15] = 1
    return X.astype(np.float32).view(np.uint32)


detok = lambda m: and_(*[and_(x >= -1024, x <= 1024) for r in m for x in r], det(m).abs() >= Q(1, 64))
add('C22', 'XMMatrixDeterminant', lambda m: splat(det(m)), 'tol', gen=gmat)
add('C22', 'XMMatrixInverse', lambda m: [splat(det(m)), inverse(m)], 'tol', pre=detok, gen=gmat)
add('C22', 'XMMatrixInverse_None', inverse, 'tol', pre=detok, gen=gmat)

# ---------------------------------------------------------------- C23
add('C23', 'XMMatrixTranslation', lambda x, y, z: I4[:3] + [V([x, y, z, fc(1)])], 'num')
add('C23', 'XMMatrixTranslationFromVector', lambda v: I4[:3] + [v3(v, fc(1))], 'num')
diag = lambda x, y, z: [V([x, ZERO, ZERO, ZERO]), V([ZERO, y, ZERO, ZERO]), V([ZERO, ZERO, z, ZERO]), I4[3]]
add('C23', 'XMMatrixScaling', diag, 'num')
add('C23', 'XMMatrixScalingFromVector', lambda v: diag(v[0], v[1], v[2]), 'num')


def rot(ax):
    def f(a, real):
        s, c = real('XMScalarSinCos', a)
        i, j = {0: (1, 2), 1: (2, 0), 2: (0, 1)}[ax]
        m = [[fc(1) if p == q else ZERO for q in range(4)] for p in range(4)]
        m[i][i] = m[j][j] = c
        m[i][j] = s
        m[j][i] = -s
        return m
    return f


ang = lambda k: (lambda r, n: __import__('numpy').concatenate([r.uniform(-3, 3, size=(n, k - 1)), r.uniform(-7, 7, size=(n, 1))], axis=1).astype('float32').view('uint32'))
for k, a in enumerate('XYZ'):
    add('C23', 'XMMatrixRotation' + a, rot(k), 'tol', needs_call=True, gen=ang(1))


def rotn(n, a, real):
    s, c = real('XMScalarSinCos', a)
    x, y, z = n[:3]
    k = 1 - c
    return [V([k * x * x + c, k * x * y + s * z, k * x * z - s * y, ZERO]), V([k * x * y - s * z, k * y * y + c, k * y * z + s * x, ZERO]),
            V([k * x * z + s * y, k * y * z - s * x, k * z * z + c, ZERO]), I4[3]]


nz3 = lambda v: or_(*[x.fne(0) for x in v[:3]])
add('C23', 'XMMatrixRotationNormal', rotn, 'tol', needs_call=True, gen=ang(5))
add('C23', 'XMMatrixRotationAxis', lambda v, a, real: rotn(real('XMVector3Normalize', v), a, real), 'tol', needs_call=True, gen=ang(5), pre=lambda v, a: nz3(v))


def rotq(q):
    x, y, z, w = q
    return [V([1 - 2 * (y * y) - 2 * (z * z), 2 * (x * y) + 2 * (z * w), 2 * (x * z) - 2 * (y * w), ZERO]),
            V([2 * (x * y) - 2 * (z * w), 1 - 2 * (x * x) - 2 * (z * z), 2 * (y * z) + 2 * (x * w), ZERO]),
            V([2 * (x * z) + 2 * (y * w), 2 * (y * z) - 2 * (x * w), 1 - 2 * (x * x) - 2 * (y * y), ZERO]), I4[3]]


add('C23', 'XMMatrixRotationQuaternion', rotq, 'tol')
add('C23', 'XMMatrixRotationRollPitchYawFromVector', lambda v, real: real('XMMatrixRotationQuaternion', real('XMQuaternionRotationRollPitchYawFromVector', v)), 'tol', needs_call=True)
add('C23', 'XMMatrixRotationRollPitchYaw', lambda p, y, r, real: real('XMMatrixRotationQuaternion', real('XMQuaternionRotationRollPitchYawFromVector', V([p, y, r, ZERO]))), 'tol',
    needs_call=True)
addr = lambda m, v: [m[0], m[1], m[2], m[3] + v]


def xform(so, sq, sc, ro, rq, tl, real, two=False):
    z = (lambda v: V([v[0], v[1], ZERO, ZERO])) if two else v3
    R = (lambda a: real('XMMatrixRotationZ', a)) if two else (lambda q: real('XMMatrixRotationQuaternion', q))
    mul = lambda a, b: real('XMMatrixMultiply', a, b)
    S = diag(sc[0], sc[1], fc(1) if two else sc[2])
    so, ro, tl = z(so), z(ro), z(tl)
    T0 = I4[:3] + [V([-so[0], -so[1], ZERO if two else -so[2], fc(1)])]
    O = R(sq)
    M = mul(mul(mul(T0, tr(O)), S), O)
    M = addr(addr(M, so), -ro)
    M = mul(M, R(rq))
    return addr(addr(M, ro), tl)


add('C23', 'XMMatrixTransformation', lambda *a, real: xform(*a, real), 'tol', needs_call=True)
add('C23', 'XMMatrixTransformation2D', lambda *a, real: xform(*a, real, two=True), 'tol', needs_call=True)


def affine(sc, ro, rq, tl, real, two=False):
    z = (lambda v: V([v[0], v[1], ZERO, ZERO])) if two else v3
    R = (lambda a: real('XMMatrixRotationZ', a)) if two else (lambda q: real('XMMatrixRotationQuaternion', q))
    M = diag(sc[0], sc[1], fc(1) if two else sc[2])
    ro, tl = z(ro), z(tl)
    M = real('XMMatrixMultiply', addr(M, -ro), R(rq))
    return addr(addr(M, ro), tl)


add('C23', 'XMMatrixAffineTransformation', lambda *a, real: affine(*a, real), 'tol', needs_call=True)
add('C23', 'XMMatrixAffineTransformation2D', lambda *a, real: affine(*a, real, two=True), 'tol', needs_call=True)


def reflect(p, real):
    n = real('XMPlaneNormalize', p)
    return [V([(fc(1) if i == j else ZERO) - 2 * n[i] * n[j] if j < 3 else (fc(1) if i == 3 else ZERO) for j in range(4)]) for i in range(4)]


def shadow(p, l, real):
    n = real('XMPlaneNormalize', p)
    d = dot(n, l, 4)
    return [V([(d - n[i] * l[j]) if i == j else -(n[i] * l[j]) for j in range(4)]) for i in range(4)]


def noninf(v, k=3):
    return and_(*[not_(x.isinf()) for x in v[:k]])


okp = lambda p, *a: and_(nz3(p), noninf(p, 4))
add('C23', 'XMMatrixReflect', reflect, 'tol', needs_call=True, pre=okp)
add('C23', 'XMMatrixShadow', shadow, 'tol', needs_call=True, pre=okp)


def lookto(e, d, up, real):
    r2 = real('XMVector3Normalize', d)
    r0 = real('XMVector3Normalize', real('XMVector3Cross', up, r2))
    r1 = real('XMVector3Cross', r2, r0)
    ds = [-dot(r, e, 3) for r in (r0, r1, r2)]
    return [V([r0[k], r1[k], r2[k], ZERO]) for k in range(3)] + [V([*ds, fc(1)])]


def glook(r, n):
    import numpy as np
    X = r.integers(-4, 5, size=(n, 12)).astype(np.float32)
    X[:, 8:12] = np.array([[0, 1, 0, 0]])
    return X.view(np.uint32)


okd = lambda e, d, u: and_(nz3(d), nz3(u), noninf(d), noninf(u))
add('C23', 'XMMatrixLookToLH', lookto, 'tol', needs_call=True, pre=okd, gen=glook)
add('C23', 'XMMatrixLookToRH', lambda e, d, up, real: lookto(e, -d, up, real), 'tol', needs_call=True, pre=okd, gen=glook)
add('C23', 'XMMatrixLookAtLH', lambda e, f, up, real: lookto(e, f - e, up, real), 'tol', needs_call=True, pre=lambda e, f, u: okd(e, f - e, u), gen=glook)
add('C23', 'XMMatrixLookAtRH', lambda e, f, up, real: lookto(e, e - f, up, real), 'tol', needs_call=True, pre=lambda e, f, u: okd(e, e - f, u), gen=glook)
E5 = fc(Q('0.00001'))
far = lambda a, b: not_((a - b).abs() <= E5)


def persp(sx, sy, n, f, rh, cx=ZERO, cy=ZERO):
    r = f / ((n - f) if rh else (f - n))
    return [V([sx, ZERO, ZERO, ZERO]), V([ZERO, sy, ZERO, ZERO]), V([cx, cy, r, fc(-1 if rh else 1)]), V([ZERO, ZERO, r * n if rh else -(r * n), ZERO])]


def gproj(k, off):
    def gen(r, n):
        import numpy as np
        X = r.uniform(0.2, 2.5, size=(n, k)).astype(np.float32)
        X[:, k - 2] = r.choice([0.1, 0.5, 1, 10, 100], size=n)
        X[:, k - 1] = r.choice([0.2, 0.75, 2, 30, 1000], size=n)
        if off:
            X[:, 0] *= -1
        return X.astype(np.float32).view(np.uint32)
    return gen


zok = lambda n, f: and_(n > 0, f > 0, far(f, n))
for h in ('LH', 'RH'):
    rh = h == 'RH'
    # sheared with the sign the handedness asks for: the centre of the view volume maps to 0
    add('C23', 'XMMatrixPerspective' + h, lambda w, y, n, f, rh=rh: persp(2 * n / w, 2 * n / y, n, f, rh), 'tol',
        pre=lambda w, y, n, f: and_(zok(n, f), far(w, ZERO), far(y, ZERO)), gen=gproj(4, 0))

    def fov(a, asp, n, f, real, rh=rh):
        s, c = real('XMScalarSinCos', 0.5 * a)
        return persp((c / s) / asp, c / s, n, f, rh)
    add('C23', 'XMMatrixPerspectiveFov' + h, fov, 'tol', needs_call=True, pre=lambda a, asp, n, f: and_(zok(n, f), not_((a - ZERO).abs() <= fc(Q('0.00002'))), far(asp, ZERO), a > 0.01, a < 3.13), gen=gproj(4, 0))

    def off(l, r, b, tp, n, f, rh=rh):
        cx, cy = (l + r) / (r - l), (tp + b) / (tp - b)
        return persp(2 * n / (r - l), 2 * n / (tp - b), n, f, rh, cx if rh else -cx, cy if rh else -cy)
    add('C23', 'XMMatrixPerspectiveOffCenter' + h, off, 'tol', pre=lambda l, r, b, tp, n, f: and_(zok(n, f), far(r, l), far(tp, b)), gen=gproj(6, 1))

    def ortho(w, y, n, f, rh=rh):
        k = 1 / ((n - f) if rh else (f - n))
        return [V([2 / w, ZERO, ZERO, ZERO]), V([ZERO, 2 / y, ZERO, ZERO]), V([ZERO, ZERO, k, ZERO]), V([ZERO, ZERO, k * n if rh else -(k * n), fc(1)])]
    add('C23', 'XMMatrixOrthographic' + h, ortho, 'tol', pre=lambda w, y, n, f: and_(far(w, ZERO), far(y, ZERO), far(f, n)), gen=gproj(4, 0))

# ---------------------------------------------------------------- C25
l4 = lambda q: dot(q, q, 4)
mid4 = lambda q: and_(l4(q) >= 1e-30, l4(q) <= 1e30)
EPS = fc(1.192092896e-7)
add('C25', 'XMQuaternionDot', lambda a, b: splat(dot(a, b, 4)), 'tol')
add('C25', 'XMQuaternionLengthSq', lambda q: splat(l4(q)), 'tol')
add('C25', 'XMQuaternionLength', lambda q: splat(l4(q).sqrt()), 'tol')
add('C25', 'XMQuaternionReciprocalLength', lambda q: splat(1 / l4(q).sqrt()), 'tol', pre=mid4)
add('C25', 'XMQuaternionNormalize', lambda q: V([x / l4(q).sqrt() for x in q]), 'tol', pre=mid4)
add('C25', 'XMQuaternionNormalizeEst', lambda q: V([x / l4(q).sqrt() for x in q]), 'est', pre=mid4)
add('C25', 'XMQuaternionConjugate', conj, 'num')
add('C25', 'XMQuaternionMultiply', qmul, 'tol')
add('C25', 'XMQuaternionInverse', lambda q: (lambda l: vmap(lambda x: ite(l <= EPS, ZERO, x / l), conj(q)))(l4(q)), 'tol')
OME = fc(Q(1) - Q('0.00001'))


def unit4(k, ex=0):
    def gen(r, n):
        import numpy as np
        X = r.normal(size=(n, 4 * k))
        for j in range(k):
            X[:, 4 * j:4 * j + 4] /= np.linalg.norm(X[:, 4 * j:4 * j + 4], axis=1, keepdims=True)
        for j in range(1, k):
            c = r.random(n) < 0.15
            X[c, 4 * j:4 * j + 4] = X[c, 0:4] * r.choice([1, -1])
        if ex:
            tt = r.uniform(0, 1, size=(n, 1))
            tt[r.random(n) < 0.2] = r.choice([0.0, 1.0, 0.5])
            X = np.concatenate([X, np.repeat(tt, ex, axis=1)], axis=1)
        return X.astype(np.float32).view(np.uint32)
    return gen


def qln(q, real):
    w = splat(q[3])
    th = real('XMVectorACos', w)
    s = real('XMVectorSin', th)
    inb = and_(q[3] <= OME, q[3] >= -OME)
    return V([ite(inb, q[k] * (th[k] / s[k]), q[k]) for k in range(3)] + [ZERO])


add('C25', 'XMQuaternionLn', qln, 'tol', needs_call=True, gen=unit4(1))


def qexp(q, real):
    th = dot(q, q, 3).sqrt()
    s, c = real('XMVectorSinCos', splat(th))
    return V([ite(th.abs() <= EPS, q[k], q[k] * (s[k] / th)) for k in range(3)] + [c[3]])


add('C25', 'XMQuaternionExp', qexp, 'tol', needs_call=True)


def slerp(q0, q1, tt, real):
    c0 = dot(q0, q1, 4)
    neg = c0 < 0
    c = ite(neg, -c0, c0)
    s = (1 - c * c).sqrt()
    om = real('XMVectorATan2', splat(s), splat(c))
    a, b = 1 - tt, tt
    sn = real('XMVectorSin', V([a * om[0], b * om[1], ZERO * om[2], ZERO * om[3]]))
    ctl = c < OME
    s0 = ite(ctl, sn[0] / s, a)
    s1 = ite(ctl, sn[1] / s, b)
    s1 = ite(neg, -s1, s1)
    return vmap(lambda x, y: x * s0 + y * s1, q0, q1)


same = lambda T: and_(*[T[k].feq(T[0]) for k in (1, 2, 3)])
add('C25', 'XMQuaternionSlerp', slerp, 'tol', needs_call=True, gen=unit4(2, 1))
add('C25', 'XMQuaternionSlerpV', lambda a, b, T, real: slerp(a, b, T[0], real), 'tol', needs_call=True, eqw={9: 8, 10: 8, 11: 8}, gen=unit4(2, 4))


def squad(a, b, c, d, tt, real):
    T = splat(tt) if isinstance(tt, F) else tt
    T2 = vmap(lambda x: (x - x * x) * 2, T)
    return real('XMQuaternionSlerpV', real('XMQuaternionSlerpV', a, d, T), real('XMQuaternionSlerpV', b, c, T), T2)


add('C25', 'XMQuaternionSquad', squad, 'tol', needs_call=True, gen=unit4(4, 1))
add('C25', 'XMQuaternionSquadV', squad, 'tol', needs_call=True, eqw={17: 16, 18: 16, 19: 16}, gen=unit4(4, 4))


def squadsetup(q0, q1, q2, q3, real):
    ls = lambda a, b: l4(a + b)
    ld = lambda a, b: l4(a - b)
    flip = lambda a, b, v: ite(ls(a, b) < ld(a, b), -v, v)
    s2 = flip(q1, q2, q2)
    s0 = flip(q0, q1, q0)
    s3 = flip(s2, q3, q3)
    i1, i2 = real('XMQuaternionInverse', q1), real('XMQuaternionInverse', s2)
    ln = lambda i, q: real('XMQuaternionLn', real('XMQuaternionMultiply', i, q))
    e02 = real('XMQuaternionExp', (ln(i1, s0) + ln(i1, s2)) * -0.25)
    e13 = real('XMQuaternionExp', (ln(i2, q1) + ln(i2, s3)) * -0.25)
    return [real('XMQuaternionMultiply', q1, e02), real('XMQuaternionMultiply', s2, e13), s2]


add('C25', 'XMQuaternionSquadSetup', squadsetup, 'tol', needs_call=True, gen=unit4(4))


def qbary(a, b, c, f, g, real):
    Fv, G = (splat(f), splat(g)) if isinstance(f, F) else (f, g)
    S = Fv + G
    e = fc(Q(1, 65536))
    small = and_(S[0] < 0.00001, S[0] > -0.00001) if isinstance(f, F) else and_(*[and_(x <= e, x >= -e) for x in S])
    r = real('XMQuaternionSlerpV', real('XMQuaternionSlerpV', a, b, S), real('XMQuaternionSlerpV', a, c, S), vmap(lambda x, y: x / y, G, S))
    return ite(small, a, r)


add('C25', 'XMQuaternionBaryCentric', qbary, 'tol', needs_call=True, gen=unit4(3, 2))
add('C25', 'XMQuaternionBaryCentricV', qbary, 'tol', needs_call=True, eqw={13: 12, 14: 12, 15: 12, 17: 16, 18: 16, 19: 16}, gen=unit4(3, 8))


def rpy(v, real):
    s, c = real('XMVectorSinCos', v * 0.5)
    (sp, sy, sr), (cp, cy, cr) = s[:3], c[:3]
    return V([sp * cy * cr + cp * sy * sr, cp * sy * cr - sp * cy * sr, cp * cy * sr - sp * sy * cr, cp * cy * cr + sp * sy * sr])


add('C25', 'XMQuaternionRotationRollPitchYawFromVector', rpy, 'tol', needs_call=True, gen=ang(4))
add('C25', 'XMQuaternionRotationRollPitchYaw', lambda p, y, r, real: rpy(V([p, y, r, ZERO]), real), 'tol', needs_call=True, gen=ang(3))


def qrotn(n, a, real):
    s, c = real('XMVectorSinCos', splat(0.5 * a))
    return V([n[0] * s[0], n[1] * s[1], n[2] * s[2], c[3]])


def qrotn2(n, a, real):
    s, c = real('XMScalarSinCos', 0.5 * a)
    return V([n[0] * s, n[1] * s, n[2] * s, c])


add('C25', 'XMQuaternionRotationNormal', qrotn, 'tol', needs_call=True, gen=ang(5), alts=(qrotn2,))
add('C25', 'XMQuaternionRotationAxis', lambda n, a, real: qrotn(real('XMVector3Normalize', n), a, real), 'tol', needs_call=True, gen=ang(5), pre=lambda n, a: and_(nz3(n), noninf(n)),
    alts=(lambda n, a, real: qrotn2(real('XMVector3Normalize', n), a, real),))
add('C25', 'XMQuaternionToAxisAngle', lambda q, real: [q, 2 * real('XMScalarACos', q[3])], 'tol', needs_call=True, gen=unit4(1))


def grotm(r, n):
    import numpy as np
    q = r.normal(size=(n, 4))
    k = r.random(n)
    q[k < 0.3] = np.round(q[k < 0.3] * 1.5)
    nn = np.linalg.norm(q, axis=1, keepdims=True)
    q = np.where(nn > 0, q / np.where(nn == 0, 1, nn), [[0, 0, 0, 1]])
    x, y, z, w = q.T
    M = np.zeros((n, 16))
    M[:, 0], M[:, 1], M[:, 2] = 1 - 2 * y * y - 2 * z * z, 2 * x * y + 2 * z * w, 2 * x * z - 2 * y * w
    M[:, 4], M[:, 5], M[:, 6] = 2 * x * y - 2 * z * w, 1 - 2 * x * x - 2 * z * z, 2 * y * z + 2 * x * w
    M[:, 8], M[:, 9], M[:, 10] = 2 * x * z + 2 * y * w, 2 * y * z - 2 * x * w, 1 - 2 * x * x - 2 * y * y
    M[:, 15] = 1
    return M.astype(np.float32).view(np.uint32)


def qrotm(m, norm=False):
    """the branch is chosen by the largest of 4x^2, 4y^2, 4z^2, 4w^2"""
    r22 = m[2][2]
    d10, s10 = m[1][1] - m[0][0], m[1][1] + m[0][0]
    fx, fy, fz, fw = 1 - r22 - d10, 1 - r22 + d10, 1 + r22 - s10, 1 + r22 + s10
    xy, xz, yz = m[0][1] + m[1][0], m[0][2] + m[2][0], m[1][2] + m[2][1]
    wx, wy, wz = m[1][2] - m[2][1], m[2][0] - m[0][2], m[0][1] - m[1][0]
    half = (lambda f, row: [x / dot(row, row, 4).sqrt() for x in row]) if norm else (lambda f, row: [x * (0.5 / f.sqrt()) for x in row])
    X, Y, Z, Wq = half(fx, (fx, xy, xz, wx)), half(fy, (xy, fy, yz, wy)), half(fz, (xz, yz, fz, wz)), half(fw, (wx, wy, wz, fw))
    return ite(r22 <= 0, ite(d10 <= 0, V(X), V(Y)), ite(s10 <= 0, V(Z), V(Wq)))


add('C25', 'XMQuaternionRotationMatrix', qrotm, 'tol', alts=(lambda m: qrotm(m, True),), gen=grotm, pre=lambda m: and_(*[and_(x >= -1.01, x <= 1.01) for r in m[:3] for x in r[:3]]))

# ---------------------------------------------------------------- C26
add('C26', 'XMPlaneDot', lambda p, v: splat(dot(p, v, 4)), 'tol')
add('C26', 'XMPlaneDotCoord', lambda p, v: splat(dot(p, v, 3) + p[3]), 'tol')
add('C26', 'XMPlaneDotNormal', lambda p, v: splat(dot(p, v, 3)), 'tol')
def gbigplane(r, m):
    import numpy as np
    X = (r.standard_normal((m, 4)) * 10.0 ** r.uniform(-10, 30, (m, 4))).astype(np.float32)
    X[np.arange(m), r.integers(0, 3, m)] = r.choice([1e20, -2e19, -3e38, np.inf], m)
    return X.view(np.uint32)


l3 = lambda p: dot(p, p, 3)
mid3 = lambda p: and_(l3(p) >= 1e-30, l3(p) <= 1e30)
add('C26', 'XMPlaneNormalize', lambda p: V([x / l3(p).sqrt() for x in p]), 'tol', pre=mid3)
big3 = lambda p: or_(*[x.abs() >= fc(2.0 ** 64) for x in p[:3]])
add('C26', 'XMPlaneNormalize', lambda p: V([ZERO] * 4), 'num', nonfinite=True, label='XMPlaneNormalize/large', gen=gbigplane, cfgs=['n'],
    pre=lambda p: and_(*[x.abs() <= fc(3.4028234663852886e38) for x in p], big3(p)))
add('C26', 'XMPlaneNormalize', lambda p: V([ZERO] * 4), 'num', nonfinite=True, label='XMPlaneNormalize/infinite', gen=gbigplane, cfgs=NOTN,
    pre=lambda p: and_(*[t.not_(x.isnan()) for x in p[:3]], big3(p)))
add('C26', 'XMPlaneNormalizeEst', lambda p: V([x / l3(p).sqrt() for x in p]), 'est', pre=mid3)


def pline(p, a, b):
    d = dot(p, a, 3) - dot(p, b, 3)
    return [ite(d.abs() <= EPS, fc(float('nan')), a[k] + (b[k] - a[k]) * ((dot(p, a, 3) + p[3]) / d)) for k in range(3)] + [None]


add('C26', 'XMPlaneIntersectLine', pline, 'tol')


def pplane(p1, p2, real):
    c = lambda a, b: real('XMVector3Cross', a, b)
    v1 = c(p2, p1)
    l = dot(v1, v1, 3)
    v2, v3_ = c(p2, v1), c(v1, p1)
    pt = [(v2[k] * p1[3] + v3_[k] * p2[3]) / l for k in range(3)]
    nan = fc(float('nan'))
    z = l <= EPS
    return [*[ite(z, nan, x) for x in pt], None, *[ite(z, nan, x + v1[k]) for k, x in enumerate(pt)], None]


add('C26', 'XMPlaneIntersectPlane', pplane, 'tol', needs_call=True)
add('C26', 'XMPlaneTransform', lambda p, m: xf(p, m, 4), 'tol')
add('C26', 'XMPlaneFromPointNormal', lambda p, n: V([n[0], n[1], n[2], -dot(p, n, 3)]), 'tol')


def pfp(a, b, c, real):
    n = real('XMVector3Normalize', V([*cross((a - b)[:3], (a - c)[:3]), ZERO]))
    return V([n[0], n[1], n[2], -dot(n, a, 3)])


add('C26', 'XMPlaneFromPoints', pfp, 'tol', needs_call=True)

# ---------------------------------------------------------------- C27
for suf in ('', '_assign'):
    add('C27', 'XMVector_add' + suf, lambda a, b: a + b)
    add('C27', 'XMVector_sub' + suf, lambda a, b: a - b)
    add('C27', 'XMVector_mul' + suf, lambda a, b: a * b)
    add('C27', 'XMVector_div' + suf, lambda a, b: a / b)
    add('C27', 'XMVector_mul_f32' + suf, lambda a, s: a * s)
    add('C27', 'XMVector_div_f32' + suf, lambda a, s: a / s, 'tol')
add('C27', 'f32_mul_XMVector', lambda a, s: a * s)
add('C27', 'XMVector_neg', lambda a: -a)
veq = lambda a, b: and_(*[x.feq(y) for x, y in zip(a, b)])
meq = lambda a, b: and_(*[veq(x, y) for x, y in zip(a, b)])
add('C27', 'XMVector_eq', lambda a, b: b2u(veq(a, b)), 'bits')
add('C27', 'XMVector_ne', lambda a, b: b2u(not_(veq(a, b))), 'bits')
add('C27', 'XMMatrix_eq', lambda a, b: b2u(meq(a, b)), 'bits')
add('C27', 'XMMatrix_ne', lambda a, b: b2u(not_(meq(a, b))), 'bits')
for n in ('XMVector_from', 'XMVector_deref', 'XMMatrix_deref', 'XMMatrix_from16', 'XMMatrix_from4x4', 'XMMatrix_into16', 'XMMatrix_into4x4', 'XMMatrix_set'):
    add('C27', n, lambda a: a, 'bits')
