"""C15 interpolation, C16 products/lengths, C17 normalisation, C18 geometric helpers, C19 angles, C20 transforms."""
from ..spec import *
from .. import terms as t

# ---------------------------------------------------------------- C15
lerp = lambda a, b, s: vmap(lambda x, y, k: x + (y - x) * k, a, b, s)
add('C15', 'XMVectorLerp', lambda a, b, s: lerp(a, b, splat(s)), 'tol')
add('C15', 'XMVectorLerpV', lerp, 'tol')


def hermite(p0, t0, p1, t1, s):
    def one(a, b, c, d, w):
        k0, k1, k2, k3 = w
        return k0 * a + k1 * b + k2 * c + k3 * d
    s2, s3 = s * s, s * s * s
    w = (2 * s3 - 3 * s2 + 1, s3 - 2 * s2 + s, -2 * s3 + 3 * s2, s3 - s2)
    return [one(*q, w) for q in zip(p0, t0, p1, t1)]


def hermitev(p0, t0, p1, t1, T):
    """the four weights are taken at the four components of T"""
    k0 = 2 * (T[0] * T[0] * T[0]) - 3 * (T[0] * T[0]) + 1
    k1 = T[1] * T[1] * T[1] - 2 * (T[1] * T[1]) + T[1]
    k2 = -2 * (T[2] * T[2] * T[2]) + 3 * (T[2] * T[2])
    k3 = T[3] * T[3] * T[3] - T[3] * T[3]
    return vmap(lambda a, b, c, d: k0 * a + k1 * b + k2 * c + k3 * d, p0, t0, p1, t1)


add('C15', 'XMVectorHermite', lambda a, b, c, d, s: hermite(a, b, c, d, s), 'tol')
add('C15', 'XMVectorHermiteV', hermitev, 'tol')


def catmull(a, b, c, d, s):
    s2, s3 = s * s, s * s * s
    return ((2 * s2 - s3 - s) * 0.5) * a + ((3 * s3 - 5 * s2 + 2) * 0.5) * b + ((4 * s2 - 3 * s3 + s) * 0.5) * c + ((s3 - s2) * 0.5) * d


def catmull2(a, b, c, d, s):
    s2, s3 = s * s, s * s * s
    return 0.5 * ((2 * s2 - s3 - s) * a + (3 * s3 - 5 * s2 + 2) * b + (4 * s2 - 3 * s3 + s) * c + (s3 - s2) * d)


add('C15', 'XMVectorCatmullRom', lambda a, b, c, d, s: vmap(catmull, a, b, c, d, splat(s)), 'tol')
add('C15', 'XMVectorCatmullRomV', lambda a, b, c, d, s: vmap(catmull, a, b, c, d, s), 'tol', alts=(lambda a, b, c, d, s: vmap(catmull2, a, b, c, d, s),))
bary = lambda a, b, c, f, g: vmap(lambda x, y, z, p, q: x + (y - x) * p + (z - x) * q, a, b, c, f, g)
add('C15', 'XMVectorBaryCentric', lambda a, b, c, f, g: bary(a, b, c, splat(f), splat(g)), 'tol')
add('C15', 'XMVectorBaryCentricV', bary, 'tol')

# ---------------------------------------------------------------- C16
N = (2, 3, 4)
NOTN = ['s', 's3', 's4', 'avx', 'a', 'i']


def zeros(r, m, n):
    a = r.integers(0, 1 << 32, (m, 4), dtype='u8').astype('u4')
    a[:, :n] &= 0x80000000
    return a


def bigs(r, m, n):
    import numpy as np
    X = (r.standard_normal((m, 4)) * 10.0 ** r.uniform(-10, 30, (m, 4))).astype(np.float32)
    X[r.random((m, 4)) < 0.1] = np.inf
    X[np.arange(m), r.integers(0, n, m)] = r.choice([np.inf, -np.inf, 1e20, -3e38], m)
    return X.view(np.uint32)

for n in N:
    lsq = lambda a, n=n: dot(a, a, n)
    add('C16', f'XMVector{n}Dot', lambda a, b, n=n: splat(dot(a, b, n)), 'tol')
    add('C16', f'XMVector{n}LengthSq', lambda a, f=lsq: splat(f(a)), 'tol')
    add('C16', f'XMVector{n}Length', lambda a, f=lsq: splat(f(a).sqrt()), 'tol')
    add('C16', f'XMVector{n}LengthEst', lambda a, f=lsq: splat(f(a).sqrt()), 'tol')
add('C16', 'XMVector2Cross', lambda a, b: splat(a[0] * b[1] - a[1] * b[0]), 'tol')
add('C16', 'XMVector3Cross', lambda a, b: [*cross(a, b), ZERO], 'tol')


def det3(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def cross4(a, b, c):
    """generalised cross product: r.v = det(v, a, b, c)"""
    out = []
    for k in range(4):
        idx = [j for j in range(4) if j != k]
        d = det3(*[[r[j] for j in idx] for r in (a, b, c)])
        out.append(d if k % 2 == 0 else -d)
    return out


add('C16', 'XMVector4Cross', cross4, 'tol')
add('C16', 'XMVector2Orthogonal', lambda v: [-v[1], v[0], None, None], 'tol')
add('C16', 'XMVector4Orthogonal', lambda v: [v[2], v[3], -v[0], -v[1]], 'tol')


def orth3(v):
    same = t.not_(t.xorb(v[1] < 0, v[2] < 0))
    x = ite(same, -v[0], v[0])
    return [ite(same, v[1] + v[2], v[1] - v[2]), -v[0], x, None]


add('C16', 'XMVector3Orthogonal', orth3, 'tol')
for n in (2, 3):
    def lpd(a, b, p, n=n):
        pv, lv = (p - a)[:n], (b - a)[:n]
        s = dot(pv, lv) / dot(lv, lv)
        d = pv - lv * s
        return splat(dot(d, d).sqrt())
    add('C16', f'XMVector{n}LinePointDistance', lpd, 'tol', pre=lambda a, b, p, n=n: dot((b - a)[:n], (b - a)[:n]) > 1e-20)

# ---------------------------------------------------------------- C17
for n in N:
    lsq = lambda a, n=n: dot(a, a, n)
    mid = lambda a, f=lsq: and_(f(a) >= 1e-30, f(a) <= 1e30)
    add('C17', f'XMVector{n}ReciprocalLength', lambda a, f=lsq: splat(1 / f(a).sqrt()), 'tol', pre=mid)
    add('C17', f'XMVector{n}ReciprocalLengthEst', lambda a, f=lsq: splat(1 / f(a).sqrt()), 'est', pre=mid)
    midz = lambda a, f=lsq, n=n: or_(and_(*[x.feq(0) for x in a[:n]]), and_(f(a) >= 1e-30, f(a) <= 1e30))
    add('C17', f'XMVector{n}Normalize', lambda a, f=lsq, n=n: (lambda z: [ite(z, ZERO, x / f(a).sqrt()) for x in a[:n]] + [None] * (4 - n))(f(a).feq(0)), 'tol', pre=midz)
    # infinite length: a component whose square overflows (the no_intrinsics bodies of Normalize return other values)
    big = lambda a, n=n: and_(*[t.not_(x.isnan()) for x in a[:n]], or_(*[x.abs() >= fc(2.0 ** 64) for x in a[:n]]))
    biggen = lambda r, m, n=n: bigs(r, m, n)
    for nm, cf, val in (('Normalize', NOTN, [u(0x7FC00000)] * n + [None] * (4 - n)), ('Length', None, [u(0x7F800000)] * 4), ('LengthSq', None, [u(0x7F800000)] * 4), ('ReciprocalLength', None, [ZERO] * 4)):
        add('C17', f'XMVector{n}{nm}', lambda a, val=val: val, 'num', pre=big, gen=biggen, cfgs=cf, nonfinite=True, label=f'XMVector{n}{nm}/infinite')
    zero = lambda a, n=n: and_(*[x.feq(0) for x in a[:n]])
    zerogen = lambda r, m, n=n: zeros(r, m, n)
    add('C17', f'XMVector{n}ReciprocalLength', lambda a: [u(0x7F800000)] * 4, 'num', pre=zero, gen=zerogen, nonfinite=True, label=f'XMVector{n}ReciprocalLength/zero')
    add('C17', f'XMVector{n}NormalizeEst', lambda a, f=lsq, n=n: [x / f(a).sqrt() for x in a[:n]] + [None] * (4 - n), 'est', pre=mid)

    def clamp(v, lo, hi, f=lsq, n=n):
        l2 = f(v)
        ln = ite(l2.feq(0), l2, l2 * (1 / l2.sqrt()))
        nm = [ite(l2.feq(0), l2, x * (1 / l2.sqrt())) for x in v[:n]]
        out = []
        for k in range(n):
            gt, lt = ln > hi[k], ln < lo[k]
            c = ite(lt, lo[k], ite(gt, hi[k], ln))
            out.append(ite(t.xorb(gt, lt), nm[k] * c, v[k]))
        return out + [None] * (4 - n)

    def okl(v, lo, hi, f=lsq, n=n):
        same = and_(*[and_(lo[k].feq(lo[0]), hi[k].feq(hi[0])) for k in range(1, 4)])
        return and_(same, lo[0] >= 0, hi[0] >= lo[0], hi[0] <= 1e18, or_(and_(*[x.feq(0) for x in v[:n]]), and_(f(v) >= 1e-30, f(v) <= 1e30)))

    def gen(r, m, n=n):
        import numpy as np
        X = r.uniform(-3, 3, size=(m, 12)).astype(np.float32)
        X[r.random(m) < 0.2, 0:4] = 0
        X[:, 4:8] = r.choice([0.0, 0.5, 1.0, 2.0], size=(m, 1))
        X[:, 8:12] = X[:, 4:8] + r.choice([0.0, 0.5, 1.0, 3.0], size=(m, 1))
        return X.astype(np.float32).view(np.uint32)
    add('C17', f'XMVector{n}ClampLengthV', clamp, 'tol', pre=okl, gen=gen)

    def gens(r, m, n=n):
        import numpy as np
        X = r.uniform(-3, 3, size=(m, 6)).astype(np.float32)
        X[r.random(m) < 0.2, 0:4] = 0
        X[:, 4] = r.choice([0.0, 0.5, 1.0, 2.0], size=m)
        X[:, 5] = X[:, 4] + r.choice([0.0, 0.5, 1.0, 3.0], size=m)
        return X.astype(np.float32).view(np.uint32)
    add('C17', f'XMVector{n}ClampLength', lambda v, lo, hi, c=clamp: c(v, splat(lo), splat(hi)), 'tol', pre=lambda v, lo, hi, o=okl: o(v, splat(lo), splat(hi)), gen=gens)

# ---------------------------------------------------------------- C18
for n in N:
    def reflect(i, m, n=n):
        d = dot(i, m, n)
        return [x - (2 * d) * y for x, y in zip(i, m)][:n] + [None] * (4 - n)
    add('C18', f'XMVector{n}Reflect', reflect, 'tol')

    def refr(i, m, ri, n=n, all_=False, strict=True):
        d = dot(i, m, n)
        out = []
        rs = [1 - (1 - d * d) * r * r for r in ri]
        for k in range(n):
            R = rs[k]
            tir = and_(*[r <= 0 for r in rs]) if all_ else (not_(R > 0) if strict else not_(R >= 0))
            out.append(ite(tir, ZERO, ri[k] * i[k] - m[k] * (ri[k] * d + R.sqrt())))
        return out + [None] * (4 - n)
    al = tuple((lambda i, m, ri, f=refr, kw=kw: f(i, m, ri, **kw)) for kw in ({'all_': True}, {'strict': False}))
    add('C18', f'XMVector{n}RefractV', refr, 'tol', alts=al)
    al = tuple((lambda i, m, ri, f=refr, kw=kw: f(i, m, splat(ri), **kw)) for kw in ({'all_': True}, {'strict': False}))
    add('C18', f'XMVector{n}Refract', lambda i, m, ri, f=refr: f(i, m, splat(ri)), 'tol', alts=al)


def comps(v, m):
    d = dot(v, m, 3)
    p = [x * d for x in m[:3]]
    return [*p, None, *[x - y for x, y in zip(v, p)], None]


add('C18', 'XMVector3ComponentsFromNormal', comps, 'tol')
EPS = fc(1.192092896e-7)


def isect(a, b, c, d, neg=False):
    v1, v2, v3 = (b - a)[:2], (d - c)[:2], (a - c)[:2]
    c1 = v1[0] * v2[1] - v1[1] * v2[0]
    c2 = v2[0] * v3[1] - v2[1] * v3[0]
    par = not_(c1.abs() > EPS) if neg else c1.abs() <= EPS
    coin = c2.abs() <= EPS
    sp = ite(coin, fc(float('inf')), fc(float('nan')))
    return [ite(par, sp, a[k] + v1[k] * (c2 / c1)) for k in range(2)] + [None, None]


def geni(r, m):
    import numpy as np
    X = r.integers(-3, 4, size=(m, 16)).astype(np.float32)
    k = r.random(m)
    X[k < 0.3, 12:16] = X[k < 0.3, 8:12] + X[k < 0.3, 4:8] - X[k < 0.3, 0:4]
    return X.astype(np.float32).view(np.uint32)


add('C18', 'XMVector2IntersectLine', isect, 'tol', gen=geni, alts=(lambda *a: isect(*a, neg=True),))


def fresnel(c, r, nan=False):
    def one(x, i):
        g = (i * i - 1 + x * x).abs().sqrt()
        s, d = g + x, g - x
        v0 = 0.5 * (d * d) / (s * s)
        p, q = x * s - 1, x * d + 1
        f = v0 * ((p * p) / (q * q) + 1)
        return ite(f.isnan(), f if nan else ZERO, ite(f < 0, ZERO, ite(f > 1, fc(1), f)))
    return vmap(one, c, r)


add('C18', 'XMFresnelTerm', fresnel, 'tol', alts=(lambda c, r: fresnel(c, r, True),), pre=lambda c, r: and_(*[and_(x >= 0.015625, x <= 1, i >= 1, i <= 64) for x, i in zip(c, r)]),
    gen=lambda r, m: __import__('numpy').concatenate([r.uniform(0.02, 1, size=(m, 4)), r.uniform(1, 4, size=(m, 4))], axis=1).astype('float32').view('uint32'))

# ---------------------------------------------------------------- C19
cl1 = lambda x: ite(x < -1, fc(-1), ite(x > 1, fc(1), x))


def unitish(m, k):
    def gen(r, cnt):
        import numpy as np
        X = r.normal(size=(cnt, k * 4))
        if m:
            for j in range(k):
                X[:, 4 * j + m:4 * j + 4] = X[:, 4 * j + m:4 * j + 4]
                X[:, 4 * j:4 * j + m] /= np.linalg.norm(X[:, 4 * j:4 * j + m], axis=1, keepdims=True)
        return X.astype(np.float32).view(np.uint32)
    return gen


for n in N:
    for suf, ac in (('', 'XMVectorACos'), ('Est', 'XMVectorACosEst')):
        add('C19', f'XMVector{n}AngleBetweenNormals{suf}', lambda a, b, real, n=n, ac=ac: real(ac, splat(cl1(dot(a, b, n)))), 'tol', needs_call=True, gen=unitish(n, 2))
    add('C19', f'XMVector{n}AngleBetweenVectors', lambda a, b, real, n=n: real('XMVectorACos', splat(cl1(dot(a, b, n) * ((1 / dot(a, a, n).sqrt()) * (1 / dot(b, b, n).sqrt()))))), 'tol',
        needs_call=True, gen=unitish(0, 2), pre=lambda a, b, n=n: and_(*[and_(dot(x, x, n) > 1e-15, dot(x, x, n) < 1e15) for x in (a, b)]))


# ---------------------------------------------------------------- C20
def xf(v, m, n, w=1):
    """row vector (v.., w) times matrix"""
    out = []
    for k in range(4):
        s = [v[j] * m[j][k] for j in range(n)]
        if w and n < 4:
            s.append(m[3][k])
        out.append(asum(s))
    return V(out)


def coord(v, m, n):
    r = xf(v, m, n)
    return [x / r[3] for x in r[:n]] + [None] * (4 - n)


for n in N:
    add('C20', f'XMVector{n}Transform', lambda v, m, n=n: xf(v, m, n), 'tol')
for n in (2, 3):
    add('C20', f'XMVector{n}TransformCoord', lambda v, m, n=n: coord(v, m, n), 'tol')
    add('C20', f'XMVector{n}TransformNormal', lambda v, m, n=n: xf(v, m, n, 0), 'tol')


def mm(a, b):
    return [V([asum([a[i][k] * b[k][j] for k in range(4)]) for j in range(4)]) for i in range(4)]


def project(v, x, y, w, h, zn, zf, proj, view, world, real):
    T = real('XMMatrixMultiply', real('XMMatrixMultiply', world, view), proj)
    r = xf(v, T, 3)
    q = [r[k] / r[3] for k in range(3)]
    return [q[0] * (w * 0.5) + (x + w * 0.5), q[1] * (-(h * 0.5)) + (y + h * 0.5), q[2] * (zf - zn) + zn, None]


def unproject(v, x, y, w, h, zn, zf, proj, view, world, real):
    T = real('XMMatrixMultiply', real('XMMatrixMultiply', world, view), proj)
    inv = real('XMMatrixInverse', T)[1]
    s = (1 / (w * 0.5), 1 / (-(h) * 0.5), 1 / (zf - zn))
    q = V([v[0] * s[0] + (s[0] * -x - 1), v[1] * s[1] + (s[1] * -y + 1), v[2] * s[2] + s[2] * -zn])
    r = xf(q, inv, 3)
    return [r[k] / r[3] for k in range(3)] + [None]


add('C20', 'XMVector3Project', project, 'tol', needs_call=True)
add('C20', 'XMVector3Unproject', unproject, 'tol', needs_call=True)


def qmul(q1, q2):
    """quaternion product q2*q1 (the library's order: the rotation q1 followed by q2)"""
    x1, y1, z1, w1 = q1
    x2, y2, z2, w2 = q2
    return V([w2 * x1 + x2 * w1 + y2 * z1 - z2 * y1, w2 * y1 - x2 * z1 + y2 * w1 + z2 * x1, w2 * z1 + x2 * y1 - y2 * x1 + z2 * w1, w2 * w1 - x2 * x1 - y2 * y1 - z2 * z1])


conj = lambda q: V([-q[0], -q[1], -q[2], q[3]])
add('C20', 'XMVector3Rotate', lambda v, q: list(qmul(qmul(conj(q), [*v[:3], ZERO]), q))[:3] + [None], 'tol')
add('C20', 'XMVector3InverseRotate', lambda v, q: list(qmul(qmul(q, [*v[:3], ZERO]), conj(q)))[:3] + [None], 'tol')
