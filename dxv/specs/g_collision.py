"""C28-C31: bounding volumes.  Local-frame formulas; rotations, normalisations and matrix operations are the real functions
(specified by C16-C26), so a claim here is about the collision code itself."""
import numpy as np
from ..core import W
from ..spec import F, V, ZERO, add, and_, asum, b2u, cross, dot, fc, imax, imin, ite, not_, or_, u, vmap
from .. import terms as t

EPS = fc(1e-20)
FMAX = F(t.const(0x7F7FFFFF, 32))
NFMAX = F(t.const(0xFF7FFFFF, 32))
OFF = [(-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1), (-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1)]
A3 = range(3)


# ---------------------------------------------------------------- vocabulary
def v3(a):
    return V(list(a)[:3])


def v4(a, w=0):
    return V(list(a)[:3] + [fc(w)])


def rot(real, a, q):
    return v3(real('XMVector3Rotate', v4(a), q))


def irot(real, a, q):
    return v3(real('XMVector3InverseRotate', v4(a), q))


def axes(real, q):
    return [v3(r) for r in real('XMMatrixRotationQuaternion', q)][:3]


def length(real, a):
    return real('XMVector3Length', v4(a))[0]


def lsq(a):
    return dot(a, a, 3)


def sph(s):
    return V(s[0:3]), s[3]


def box(s):
    return V(s[0:3]), V(s[3:6])


def obox(s):
    return V(s[0:3]), V(s[3:6]), V(s[6:10])


class Fr:
    def __init__(self, s):
        self.o, self.q = V(s[0:3]), V(s[3:7])
        self.r, self.l, self.t, self.b, self.near, self.far = s[7:13]

    def dirs(self):
        return [V([x, y, fc(1)]) for x, y in ((self.r, self.t), (self.r, self.b), (self.l, self.t), (self.l, self.b))]

    def corners(self):
        return [d * self.near for d in self.dirs()] + [d * self.far for d in self.dirs()]

    def planes(self):
        z, o = fc(0), fc(1)
        return [V([z, z, -o, self.near]), V([z, z, o, -self.far]), V([o, z, -self.r, z]), V([-o, z, self.l, z]), V([z, o, -self.t, z]), V([z, -o, self.b, z])]

    def edges(self):
        d = self.dirs()
        return d + [d[0] - d[2], d[3] - d[2]]

    def world_planes(self, real):
        out = []
        for p in self.planes():
            n = rot(real, p, self.q)
            out.append(real('XMPlaneNormalize', V(list(n) + [p[3] - dot(n, self.o, 3)])))
        return out

    def world_corners(self, real):
        return [rot(real, c, self.q) + self.o for c in self.corners()]


def bcorners(c, e):
    return [V([e[k] * fc(o[k]) + c[k] for k in A3]) for o in OFF]


def offs(e):
    return [V([e[k] * fc(o[k]) for k in A3]) for o in OFF]


def lo(xs):
    r = xs[0]
    for x in xs[1:]:
        r = imin(r, x)
    return r


def hi(xs):
    r = xs[0]
    for x in xs[1:]:
        r = imax(r, x)
    return r


def inb(a, b):
    return and_(*[and_(a[k] <= b[k], a[k] >= -b[k]) for k in A3])


def contains2(c):
    return ite(c, u(2), u(0))


def tri(c0, c1):
    """0 unless c0, then 2 if c1 else 1"""
    return ite(c0, ite(c1, u(2), u(1)), u(0))


def yes(x):
    """a predicate of the real code"""
    return not_(t.eq(x.t, t.const(0, 32)))


def pclass(d, r):
    return ite(d > r, u(0), ite(d < -r, u(2), u(1)))


def contained(out, ins):
    return ite(or_(*out), u(0), ite(and_(*ins), u(2), u(1)))


# ---------------------------------------------------------------- preconditions and inputs
def unit(v, n):
    d = dot(v, v, n)
    return and_(d > 0.999, d < 1.001)


def pre_of(name):
    w = W[name]
    kind0 = name.split('_')[0]

    def shape(k, s):
        if k == 'Sphere':
            return s[3] >= 0
        if k == 'Box':
            return and_(*[x >= 0 for x in s[3:6]])
        if k == 'OBox':
            return and_(unit(s[6:10], 4), *[x >= 0 for x in s[3:6]])
        f = Fr(s)
        return and_(unit(f.q, 4), f.near > 0, f.far > f.near, f.r > f.l, f.t > f.b)

    def fn(*args):
        cs = []
        for e, a in zip(w['lin'], args):
            if e[1] == 'S' and e[0] != 'P':
                cs.append(shape({4: 'Sphere', 6: 'Box', 10: 'OBox', 13: 'Frustum'}[e[3]], a))
            elif e[0].startswith('Plane') or e[0] == 'Direction':
                cs.append(unit(a, 3))
            elif e[0] == 'Rotation':
                cs.append(unit(a, 4))
            elif e[0] == 'Scale':
                cs.append(a > 0)
            elif e[0] == 'rh':
                cs.append(t.ult(a.t, t.const(2, 32)))
        names = [e[0] for e in w['lin']]
        for pfx in ('V', 'A', 'B'):
            if pfx + '0' in names and pfx + '2' in names:
                a, b, c = (args[names.index(pfx + q)] for q in '012')
                n = cross(v3(b) - v3(a), v3(c) - v3(a))
                cs.append(lsq(n) > 1e-12)
        return and_(*cs) if cs else t.TRUE
    return fn


QUATS = np.array([(0, 0, 0, 1), (.5, .5, .5, .5), (-.5, .5, .5, .5), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (.5, -.5, .5, .5), (0, 0, 0, -1), (0, .6, 0, .8), (.6, 0, 0, .8), (0, 0, -.6, .8),
                  (0, 0, .70710678, .70710678)])
AXES = np.array([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (.6, .8, 0), (0, .6, .8), (.8, 0, -.6), (-.6, 0, .8)])


def qrot(q, v):
    x, y, z, w = (q[:, k] for k in range(4))
    n = np.maximum((q * q).sum(1), 1e-30)
    q3 = q[:, :3]
    c = np.cross(q3, v)
    return v + (2 * (w[:, None] * c + np.cross(q3, c))) / n[:, None]


def gen_of(name):
    w = W[name]

    def gen(r, n):
        lat = r.random(n) < 0.6
        L = lat[:, None]
        step = r.choice([1.0, 0.5, 0.25], size=(n, 1))

        def vec(k, s=4.0):
            g = np.round(r.normal(0, s / 2, size=(n, k)) / step) * step
            f = r.uniform(-s, s, size=(n, k))
            return np.where(L, g, f)

        def pos(k, s=3.0):
            g = np.abs(np.round(r.uniform(0.01, s, size=(n, k)) / step) * step)
            return np.where(L, np.where(g == 0, np.where(r.random((n, k)) < 0.3, 0, step), g), r.uniform(0.01, s, size=(n, k)))

        def quat():
            f = r.normal(size=(n, 4))
            f /= np.linalg.norm(f, axis=1, keepdims=True)
            ex = QUATS[np.where(r.random(n) < 0.35, 0, r.integers(0, len(QUATS), size=n))]
            return np.where((lat | (r.random(n) < 0.2))[:, None], ex, f)

        def dirn():
            f = r.normal(size=(n, 3))
            f /= np.linalg.norm(f, axis=1, keepdims=True)
            return np.where((lat | (r.random(n) < 0.2))[:, None], AXES[r.integers(0, len(AXES), size=n)], f)
        X = np.zeros((n, w['nin']), dtype=np.float32)
        U = {}
        plan = [e for e in w['lin']]
        center = vec(3, 3.0) * (r.random((n, 1)) < 0.7)
        size = r.choice([0.3, 1.0, 1.0, 3.0], size=(n, 1))
        mainq = None
        planes = None
        big = r.random((n, 1)) < 0.35
        frus = None
        for i, e in enumerate(plan):
            nm, k, off = e[0], e[1], e[2]
            first = i == 0
            if k == 'S' and nm != 'P':
                m = e[3]
                sz = np.where(big == (first), 3.0, 1.0)
                c = center + (0 if first else 1) * vec(3, 2.5)
                # needles and plates
                thin = np.where((r.random((n, 1)) < 0.4) & ~L, r.choice([0.03, 0.2, 1.0, 3.0], size=(n, 3)), 1.0)
                if m == 4:
                    X[:, off:off + 3], X[:, off + 3] = c, (pos(1, 2) * sz)[:, 0]
                elif m == 6:
                    X[:, off:off + 3], X[:, off + 3:off + 6] = c, pos(3, 2) * sz * thin
                elif m == 10:
                    q = quat()
                    X[:, off:off + 3], X[:, off + 3:off + 6], X[:, off + 6:off + 10] = c, pos(3, 2) * sz * thin, q
                    mainq = q if mainq is None else mainq
                else:
                    q = quat()
                    sl = np.where(L, r.choice([0.25, 0.5, 1.0, 2.0], size=(n, 4)), r.uniform(0.1, 2, size=(n, 4)))
                    nr = np.where(lat, r.choice([0.25, 0.5, 1.0], size=n), r.uniform(0.1, 1.5, size=n))
                    fr = nr + np.where(lat, r.choice([0.5, 1, 2, 4], size=n), r.uniform(0.1, 5, size=n) * thin[:, 2])
                    sl = sl * np.where(thin[:, :2] == 1.0, 1.0, np.minimum(thin[:, :2], 1.0))[:, [0, 0, 1, 1]]
                    # place the volume, not the apex, near the centre
                    mid = qrot(q, np.stack([0 * nr, 0 * nr, np.where(r.random(n) < 0.4, nr, nr + (fr - nr) * r.random(n))], 1))
                    cc = np.where(L, c, c - mid)
                    asym = r.random(n) < 0.2
                    X[:, off:off + 3], X[:, off + 3:off + 7] = cc, q
                    X[:, off + 7], X[:, off + 9] = sl[:, 0], sl[:, 2]
                    X[:, off + 8] = np.where(asym, sl[:, 0] * 0.5, -sl[:, 1])
                    X[:, off + 10] = np.where(r.random(n) < 0.2, sl[:, 2] * 0.25, -sl[:, 3])
                    X[:, off + 11], X[:, off + 12] = nr, fr
                    if frus is None:
                        frus = (cc, q, nr, fr, X[:, off + 7].copy(), X[:, off + 8].copy(), X[:, off + 9].copy(), X[:, off + 10].copy())
            elif k == 'S':
                kk = e[3] // 3
                P = vec(e[3], 4.0)
                flat = r.integers(0, 4, size=n)
                for q in range(kk):          # collinear and planar sets
                    P[:, 3 * q + 1] = np.where(flat == 1, center[:, 1], P[:, 3 * q + 1])
                    P[:, 3 * q + 2] = np.where((flat == 1) | (flat == 2), center[:, 2], P[:, 3 * q + 2])
                X[:, off:off + e[3]] = P
            elif nm.startswith('Plane'):
                if planes is None:
                    q = np.where(r.random((n, 1)) < 0.5, QUATS[0], quat())
                    ext = pos(3, 3) * np.where(big, 1.0, 2.5) + 0.25 * (r.random((n, 1)) < 0.5)
                    pc = center + vec(3, 1.5) * (r.random((n, 1)) < 0.7)
                    planes = []
                    for ax in range(3):
                        for sg in (1, -1):
                            nn = np.zeros((n, 3))
                            nn[:, ax] = sg
                            nn = qrot(q, nn)
                            planes.append(np.concatenate([nn, -((pc * nn).sum(1, keepdims=True) + ext[:, ax:ax + 1])], 1))
                    single = nm == 'Plane'
                    nd = dirn()
                    rp = np.concatenate([nd, -((center * nd).sum(1, keepdims=True) + vec(1, 3))], 1)
                if nm == 'Plane':
                    X[:, off:off + 4] = rp
                else:
                    j = int(nm[5:])
                    X[:, off:off + 4] = np.where(r.random((n, 1)) < 0.06, rp, planes[j])
            elif nm == 'Direction':
                X[:, off:off + 3], X[:, off + 3] = dirn(), r.choice([0, 1, -3.5], size=n)
            elif nm == 'Rotation':
                X[:, off:off + 4] = quat()
            elif nm == 'Scale':
                X[:, off] = np.where(lat, r.choice([0.25, 0.5, 1, 2, 4], size=n), r.uniform(0.1, 5, size=n))
            elif k == 'V':
                X[:, off:off + 3] = center + vec(3, 4.0)
                X[:, off + 3] = r.choice([0, 1, -3.5, 7.0], size=n)
            elif k == 'M' and nm == 'Projection':
                z = np.zeros(n)
                rr, ll, tt, bb = (np.where(lat, r.choice([0.25, 0.5, 1, 2], size=n), r.uniform(0.1, 2, size=n)) for _ in range(4))
                nr = np.where(lat, r.choice([0.25, 0.5, 1.0], size=n), r.uniform(0.1, 1.5, size=n))
                fr = nr + np.where(lat, r.choice([0.5, 1, 2, 4], size=n), r.uniform(0.1, 5, size=n))
                l_, b_ = -ll * nr, -bb * nr
                r_, t_ = rr * nr, tt * nr
                rh = r.integers(0, 2, size=n)
                s = np.where(rh == 1, -1, 1)
                rows = [[2 * nr / (r_ - l_), z, z, z], [z, 2 * nr / (t_ - b_), z, z], [-s * (l_ + r_) / (r_ - l_), -s * (t_ + b_) / (t_ - b_), s * fr / (fr - nr), s + 0 * z], [z, z, -nr * fr / (fr - nr), z]]
                for a in range(4):
                    for b in range(4):
                        X[:, off + 4 * a + b] = rows[a][b]
                U['rh'] = rh
            elif k == 'M':
                q = quat()
                s = np.where(lat, r.choice([0.25, 0.5, 1, 2, 4], size=n), r.uniform(0.1, 5, size=n))[:, None]
                s = np.where(r.random((n, 1)) < 0.3, np.where(L, r.choice([0.5, 1, 2], size=(n, 3)), r.uniform(0.2, 3, size=(n, 3))), s)
                for a in range(3):
                    nn = np.zeros((n, 3))
                    nn[:, a] = 1
                    X[:, off + 4 * a:off + 4 * a + 3] = qrot(q, nn) * s[:, a:a + 1]
                X[:, off + 12:off + 15] = vec(3)
                X[:, off + 15] = 1
                gm = r.random(n) < 0.15
                X[gm, off:off + 16] = vec(16)[gm]
        Y = np.ascontiguousarray(X).view(np.uint32).copy()
        for e in plan:
            if e[1] == 'u':
                Y[:, e[2]] = U.get(e[0], r.integers(0, 2, size=n))
        # touching configurations: a coordinate of the second object made equal to a face of the first
        return Y
    return gen


def sp(prop, name, mode, **kw):
    def deco(fn):
        add(prop, name, fn, mode, needs_call=True, pre=pre_of(name), gen=gen_of(name), nonfinite=False, nonan=(mode == 'disc' and name != 'Sphere_ContainsSphere'), **kw)
        return fn
    return deco


# ---------------------------------------------------------------- C28 construction, transformation, corners, planes
def minmax(ps):
    mn = V([lo([p[k] for p in ps]) for k in A3])
    mx = V([hi([p[k] for p in ps]) for k in A3])
    return [(mn + mx) * 0.5, (mx - mn) * 0.5]


def points(P):
    return [V(P[3 * k:3 * k + 3]) for k in range(len(P) // 3)]


def ritter(ps, real):
    ext = []
    for ax in A3:
        mn = mx = ps[0]
        for p in ps[1:]:
            mn, mx = ite(p[ax] < mn[ax], p, mn), ite(p[ax] > mx[ax], p, mx)
        ext.append((mn, mx, length(real, mx - mn)))
    mid = [v3(real('XMVectorLerp', v4(mx), v4(mn), fc(0.5))) for mn, mx, d in ext]
    (dx, dy, dz) = (e[2] for e in ext)
    c = ite(dx > dy, ite(dx > dz, mid[0], mid[2]), ite(dy > dz, mid[1], mid[2]))
    rad = ite(dx > dy, ite(dx > dz, dx, dz), ite(dy > dz, dy, dz)) * 0.5
    for p in ps:
        d = p - c
        dist = length(real, d)
        out = dist > rad
        nr = (rad + dist) * 0.5
        nc = c + d * (1 - nr / dist)
        c, rad = ite(out, nc, c), ite(out, nr, rad)
    return [c, rad]


for k in range(1, 5):
    sp('C28', f'Box_CreateFromPoints{k}', 'tol')(lambda P, real: minmax(points(P)))
    sp('C28', f'Sphere_CreateFromPoints{k}', 'tol')(lambda P, real: ritter(points(P), real))


@sp('C28', 'Sphere_CreateFromFrustum', 'tol')
def _(f, real):
    return ritter(points(real('Frustum_GetCorners', f)), real)


@sp('C28', 'Sphere_CreateMerged', 'tol')
def _(a, b, real):
    (c1, r1), (c2, r2) = sph(a), sph(b)
    v = c2 - c1
    d = length(real, v)
    t1, t2 = imin(-r1, d - r2), imax(r1, d + r2)
    h = (t2 - t1) * 0.5
    n = v / d
    m = [c1 + n * (h + t1), h]
    touch = r1 + r2 >= d
    in1, in2 = and_(touch, r1 - r2 >= d), and_(touch, r2 - r1 >= d)
    return [ite(in1, x, ite(in2, y, z)) for x, y, z in zip([*c1, r1], [*c2, r2], [*m[0], m[1]])]


@sp('C28', 'Sphere_CreateFromBoundingBox', 'tol')
def _(b, real):
    return [V(b[0:3]), length(real, b[3:6])]


@sp('C28', 'Sphere_CreateFromBoundingOrientedBox', 'tol')
def _(b, real):
    return [V(b[0:3]), length(real, b[3:6])]


@sp('C28', 'Box_CreateFromSphere', 'tol')
def _(s, real):
    c, r = sph(s)
    mn, mx = c - r, c + r
    return [(mn + mx) * 0.5, (mx - mn) * 0.5]


@sp('C28', 'Box_CreateMerged', 'tol')
def _(a, b, real):
    (c1, e1), (c2, e2) = box(a), box(b)
    mn, mx = vmap(imin, c1 - e1, c2 - e2), vmap(imax, c1 + e1, c2 + e2)
    return [(mn + mx) * 0.5, (mx - mn) * 0.5]


@sp('C28', 'OBox_CreateFromBoundingBox', 'num')
def _(b, real):
    return [V(b[0:6]), fc(0), fc(0), fc(0), fc(1)]


@sp('C28', 'Box_GetCorners', 'tol')
def _(s, real):
    return bcorners(*box(s))


@sp('C28', 'OBox_GetCorners', 'tol')
def _(s, real):
    c, e, q = obox(s)
    return [rot(real, o, q) + c for o in offs(e)]


@sp('C28', 'Frustum_GetCorners', 'tol')
def _(s, real):
    f = Fr(s)
    rt, rb, lt, lb = f.dirs()
    return [rot(real, d * z, f.q) + f.o for z in (f.near, f.far) for d in (lt, rt, rb, lb)]


@sp('C28', 'Frustum_GetPlanes', 'tol')
def _(s, real):
    return Fr(s).world_planes(real)


@sp('C28', 'Sphere_TransformMatrix', 'tol')
def _(s, M, real):
    c, r = sph(s)
    d = [lsq(M[k]) for k in A3]
    return [v3(real('XMVector3Transform', v4(c), M)), r * imax(d[0], imax(d[1], d[2])).sqrt()]


@sp('C28', 'Box_TransformMatrix', 'tol')
def _(s, M, real):
    return minmax([v3(real('XMVector3Transform', v4(c), M)) for c in bcorners(*box(s))])


def rotm(M, real):
    rows = [real('XMVector3Normalize', M[k]) for k in A3] + [V([fc(0), fc(0), fc(0), fc(1)])]
    return real('XMQuaternionRotationMatrix', rows)


@sp('C28', 'OBox_TransformMatrix', 'tol')
def _(s, M, real):
    c, e, q = obox(s)
    return [v3(real('XMVector3Transform', v4(c), M)), V([e[k] * length(real, M[k]) for k in A3]), real('XMQuaternionMultiply', q, rotm(M, real))]


@sp('C28', 'Frustum_TransformMatrix', 'tol')
def _(s, M, real):
    f = Fr(s)
    d = [lsq(M[k]) for k in A3]
    sc = imax(d[0], imax(d[1], d[2])).sqrt()
    return [v3(real('XMVector3Transform', v4(f.o), M)), real('XMQuaternionMultiply', f.q, rotm(M, real)), f.r, f.l, f.t, f.b, f.near * sc, f.far * sc]


def place(real, c, k, q, tr):
    return rot(real, v3(c) * k, q) + v3(tr)


@sp('C28', 'Sphere_TransformDecomposed', 'tol')
def _(s, k, q, tr, real):
    c, r = sph(s)
    return [place(real, c, k, q, tr), r * k]


@sp('C28', 'Box_TransformDecomposed', 'tol')
def _(s, k, q, tr, real):
    return minmax([place(real, c, k, q, tr) for c in bcorners(*box(s))])


@sp('C28', 'OBox_TransformDecomposed', 'tol')
def _(s, k, q, tr, real):
    c, e, o = obox(s)
    return [place(real, c, k, q, tr), e * k, real('XMQuaternionMultiply', o, q)]


@sp('C28', 'Frustum_TransformDecomposed', 'tol')
def _(s, k, q, tr, real):
    f = Fr(s)
    return [place(real, f.o, k, q, tr), real('XMQuaternionMultiply', f.q, q), f.r, f.l, f.t, f.b, f.near * k, f.far * k]


@sp('C28', 'Frustum_CreateFromMatrix', 'tol')
def _(M, rh, real):
    det, inv = real('XMMatrixInverse', M)
    pt = lambda x, y, z: real('XMVector4Transform', V([fc(x), fc(y), fc(z), fc(1)]), inv)
    r, l, tp, b, n, f = pt(1, 0, 1), pt(-1, 0, 1), pt(0, 1, 1), pt(0, -1, 1), pt(0, 0, 0), pt(0, 0, 1)
    zn, zf = n[2] * (1 / n[3]), f[2] * (1 / f[3])
    c = yes(rh)
    return [fc(0), fc(0), fc(0), fc(0), fc(0), fc(0), fc(1), r[0] * (1 / r[2]), l[0] * (1 / l[2]), tp[1] * (1 / tp[2]), b[1] * (1 / b[2]), ite(c, zf, zn), ite(c, zn, zf)]


def eigenvector(m11, m12, m13, m22, m23, m33, e, real):
    a = V([m12 * m23 - m13 * (m22 - e), m13 * m12 - m23 * (m11 - e), (m11 - e) * (m22 - e) - m12 * m12])
    z = and_(*[x.feq(0) for x in a])
    c1 = or_((m11 - e).fne(0), m12.fne(0), m13.fne(0))
    c2 = or_(m12.fne(0), (m22 - e).fne(0), m23.fne(0))
    c3 = or_(m13.fne(0), m23.fne(0), (m33 - e).fne(0))
    f = ite(c1, V([m11 - e, m12, m13]), ite(c2, V([m12, m22 - e, m23]), ite(c3, V([m13, m23, m33 - e]), V([fc(1), fc(0), fc(0)]))))
    f1, f2, f3 = f
    one = lambda x: ite(x.feq(0), fc(0), fc(1))
    fl = V([one(f1), ite(f3.feq(0), ite(m12.fne(0), -f1 / f2, one(f2)), one(f2)), ite(f3.feq(0), fc(0), (f2 - f1) / f3)])
    v = ite(z, fl, a)
    return ite(lsq(v) > fc(1e-5), v3(real('XMVector3Normalize', v4(v))), v3(real('XMVector3Normalize', v4(v * fc(1e5)))))


def principal(Cxx, Cyy, Czz, Cxy, Cxz, Cyz, real):
    e = -(Cxx + Cyy + Czz)
    f = Cxx * Cyy + Cyy * Czz + Czz * Cxx - Cxy * Cxy - Cxz * Cxz - Cyz * Cyz
    g = Cxy * Cxy * Czz + Cxz * Cxz * Cyy + Cyz * Cyz * Cxx - Cxy * Cyz * Cxz * 2 - Cxx * Cyy * Czz
    p = f - e * e / 3
    q = g - e * f / 3 + e * e * e * 2 / 27
    h = q * q / 4 + p * p * p / 27
    one_root = h > 0
    triple = and_(h.feq(0), q.feq(0))
    d = (q * q / 4 - h).sqrt()
    third = fc(1.0) / fc(3.0)
    rc = ite(d < 0, -((-d).app('pow', fc(1 / 3))), d.app('pow', fc(1 / 3)))
    th = real('XMScalarACos', -q / (2 * d))
    co, si = real('XMScalarCos', th / 3), F(t.fop('fsqrt', fc(3).t)) * real('XMScalarSin', th / 3)
    ev = [ite(triple, -e / 3, x) for x in (2 * rc * co - e / 3, -rc * (co + si) - e / 3, -rc * (co - si) - e / 3)]
    v1, v2, v3_ = (eigenvector(Cxx, Cxy, Cxz, Cyy, Cyz, Czz, x, real) for x in ev)
    isz = lambda v: and_(*[x.feq(0) for x in v])
    z1, z2, z3 = isz(v1), isz(v2), isz(v3_)
    bad = lambda a, b: dot(a, b, 3).abs() > fc(0.1)
    e12, e13, e23 = bad(v1, v2), bad(v1, v3_), bad(v2, v3_)
    I = [V([fc(1), fc(0), fc(0)]), V([fc(0), fc(1), fc(0)]), V([fc(0), fc(0), fc(1)])]
    nz = lambda a: v3(real('XMVector3Normalize', v4(a)))

    def perp(a):
        x = cross(I[1], a)
        return nz(ite(lsq(x) < fc(1e-5), cross(I[0], a), x))
    cases = []
    cases.append((or_(one_root, and_(z1, z2, z3), and_(e12, e13, e23), and_(e12, z3), and_(e13, z2), and_(e23, z1)), I))
    a = perp(v3_)
    cases.append((and_(z1, z2), [a, cross(v3_, a), v3_]))
    a = perp(v2)
    cases.append((and_(z3, z1), [cross(v2, a), v2, a]))
    a = perp(v1)
    cases.append((and_(z2, z3), [v1, a, cross(v1, a)]))
    cases.append((or_(z1, e12), [cross(v2, v3_), v2, v3_]))
    cases.append((or_(z2, e23), [v1, cross(v3_, v1), v3_]))
    cases.append((or_(z3, e13), [v1, v2, cross(v1, v2)]))
    out = [v1, v2, v3_]
    for c, vs in reversed(cases):
        out = [ite(c, x, y) for x, y in zip(vs, out)]
    return out


def obox_points(name, part):
    def fn(P, real):
        ps = points(P)
        k = len(ps)
        o = real(name, P)
        q = V(o[6:10])
        R = real('XMMatrixRotationQuaternion', q)
        T = [V([R[j][i] for j in range(4)]) for i in range(4)]
        loc = [v3(real('XMVector3TransformNormal', v4(p), T)) for p in ps]
        c, e = minmax(loc)
        m = ps[0]
        com = V([fc(0)] * 3)
        for p in ps:
            com = com + p
        com = com * (1 / fc(k))
        d = [p - com for p in ps]
        cov = [asum([x[i] * x[j] for x in d]) for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))]
        ax = principal(*cov, real)
        rows = [v4(a) for a in ax] + [V([fc(0), fc(0), fc(0), fc(1)])]
        neg = real('XMMatrixDeterminant', rows)[0] < 0
        rows = [ite(neg, v4(-a), v4(a)) for a in ax] + [rows[3]]
        qq = real('XMQuaternionNormalize', real('XMQuaternionRotationMatrix', rows))
        if part == 'axes':
            return [None] * 6 + [qq]
        return [v3(real('XMVector3TransformNormal', v4(c), R)), e] + [None] * 4
    return fn


for k in range(1, 5):
    sp('C28', f'OBox_CreateFromPoints{k}', 'tol')(obox_points(f'OBox_CreateFromPoints{k}', 'fit'))
    if k > 1:
        sp('C28', f'OBox_CreateFromPoints{k}', 'tol', label=f'OBox_CreateFromPoints{k}/axes', shallow=True)(obox_points(f'OBox_CreateFromPoints{k}', 'axes'))


# ---------------------------------------------------------------- C29 points, rays, triangles
@sp('C29', 'Sphere_ContainsPoint', 'disc')
def _(s, p, real):
    c, r = sph(s)
    return contains2(lsq(v3(p) - c) <= r * r)


@sp('C29', 'Box_ContainsPoint', 'disc')
def _(s, p, real):
    c, e = box(s)
    return contains2(inb(v3(p) - c, e))


@sp('C29', 'OBox_ContainsPoint', 'disc')
def _(s, p, real):
    c, e, q = obox(s)
    return contains2(inb(irot(real, v3(p) - c, q), e))


@sp('C29', 'Frustum_ContainsPoint', 'disc')
def _(s, p, real):
    f = Fr(s)
    x = irot(real, v3(p) - f.o, f.q)
    return contains2(not_(or_(*[dot(v4(x, 1), pl, 4) > 0 for pl in f.planes()])))


@sp('C29', 'Sphere_IntersectsRay', ['tol', 'disc'])
def _(s, o, d, real):
    c, r = sph(s)
    l = c - v3(o)
    b, l2, r2 = dot(l, d, 3), lsq(l), r * r
    m2 = l2 - b * b
    no = or_(and_(b < 0, l2 > r2), m2 > r2)
    q = (r2 - m2).sqrt()
    return [ite(no, fc(0), ite(l2 <= r2, b + q, b - q)), b2u(not_(no))]


def slabs(ao, ad, e):
    par = [ad[k].abs() <= EPS for k in A3]
    inv = [1 / ad[k] for k in A3]
    t1 = [(ao[k] - e[k]) * inv[k] for k in A3]
    t2 = [(ao[k] + e[k]) * inv[k] for k in A3]
    tn = [ite(par[k], NFMAX, imin(t1[k], t2[k])) for k in A3]
    tx = [ite(par[k], FMAX, imax(t1[k], t2[k])) for k in A3]
    tmin = imax(imax(tn[0], tn[1]), imax(tn[2], tn[1]))
    tmax = imin(imin(tx[0], tx[1]), imin(tx[2], tx[1]))
    no = or_(tmin > tmax, tmax < 0, *[and_(par[k], not_(and_(ao[k] <= e[k], ao[k] >= -e[k]))) for k in A3])
    return [ite(no, fc(0), tmin), b2u(not_(no))]


@sp('C29', 'Box_IntersectsRay', ['tol', 'disc'])
def _(s, o, d, real):
    c, e = box(s)
    return slabs(c - v3(o), v3(d), e)


@sp('C29', 'OBox_IntersectsRay', ['tol', 'disc'])
def _(s, o, d, real):
    c, e, q = obox(s)
    R = axes(real, q)
    to = c - v3(o)
    return slabs(V([dot(a, to, 3) for a in R]), V([dot(a, d, 3) for a in R]), e)


@sp('C29', 'Frustum_IntersectsRay', ['tol', 'disc'])
def _(s, o, d, real):
    f = Fr(s)
    inside = t.eq(real('Frustum_ContainsPoint', s, o).t, t.const(2, 32))
    st = []
    for pl in f.world_planes(real):
        ao = dot(pl, o, 3) + pl[3]
        ad = dot(pl, d, 3)
        st.append((ao, ad, ad.abs() <= EPS, (-ao) / ad))

    def step(k, tn, tf):
        """clip [tn, tf] against plane k, then the rest"""
        if k == 6:
            dist = ite(tn >= 0, tn, tf)
            return ite(dist >= 0, dist, fc(0)), dist >= 0
        ao, ad, par, x = st[k]
        enter = ad < 0
        miss = ite_b(par, ao > 0, ite_b(enter, x > tf, x < tn))
        a = not_(par)
        r, h = step(k + 1, ite(and_(a, enter, x > tn), x, tn), ite(and_(a, not_(enter), x < tf), x, tf))
        return ite(miss, fc(0), r), and_(not_(miss), h)
    r, h = step(0, NFMAX, FMAX)
    return [ite(inside, fc(0), r), b2u(or_(inside, h))]


def ite_b(c, a, b):
    return or_(and_(c, a), and_(not_(c), b))


@sp('C29', 'Tri_IntersectsRay', ['tol', 'disc'])
def _(o, d, a, b, c, real):
    o, d, a, b, c = (v3(x) for x in (o, d, a, b, c))
    e1, e2 = b - a, c - a
    p = cross(d, e2)
    det = dot(e1, p, 3)
    s = o - a
    uu = dot(s, p, 3)
    q = cross(s, e1)
    vv = dot(d, q, 3)
    tt = dot(e2, q, 3)
    pos, neg = det >= EPS, det <= -EPS
    hitp = not_(or_(uu < 0, uu > det, vv < 0, uu + vv > det, tt < 0))
    hitn = not_(or_(uu > 0, uu < det, vv > 0, uu + vv < det, tt > 0))
    hit = or_(and_(pos, hitp), and_(not_(pos), neg, hitn))
    return [ite(hit, tt / det, fc(0)), b2u(hit)]


def nearest(s1, s2, p):
    d = s2 - s1
    pr = dot(p, d, 3) - dot(s1, d, 3)
    ls = dot(d, d, 3)
    pt = d * (pr * (1 / ls)) + s1
    return ite(pr > ls, s2, ite(pr < 0, s1, pt))


@sp('C29', 'Sphere_IntersectsTriangle', 'disc')
def _(s, a, b, c, real):
    ce, r = sph(s)
    a, b, c = v3(a), v3(b), v3(c)
    n = v3(real('XMVector3Normalize', v4(cross(b - a, c - a))))
    dist = dot(ce - a, n, 3)
    no = or_(dist < -r, dist > r)
    p = ce - n * dist
    N = cross(c - a, b - a)
    inside = and_(*[dot(cross(p - x, y - x), N, 3) >= 0 for x, y in ((a, b), (b, c), (c, a))])
    near = [lsq(ce - nearest(x, y, ce)) <= r * r for x, y in ((a, b), (b, c), (c, a))]
    return b2u(and_(not_(no), or_(inside, *near)))


def box_tri(c, e, a, b, d):
    mn, mx = c - e, c + e
    tmn, tmx = vmap(lambda x, y, z: imin(imin(x, y), z), a, b, d), vmap(lambda x, y, z: imax(imax(x, y), z), a, b, d)
    out = [or_(tmn[k] > mx[k], mn[k] > tmx[k]) for k in A3]
    n = cross(b - a, d - a)
    dist = dot(n, a, 3)
    lo_ = V([ite(n[k] > 0, mn[k], mx[k]) for k in A3])
    hi_ = V([ite(n[k] > 0, mx[k], mn[k]) for k in A3])
    out += [dot(lo_, n, 3) > dist, dot(hi_, n, 3) < dist]
    tv = [a - c, b - c, d - c]
    ed = [tv[1] - tv[0], tv[2] - tv[1], tv[0] - tv[2]]
    pts = [(0, 2), (0, 1), (0, 1)]
    z = fc(0)
    for mk in (lambda x: V([z, -x[2], x[1]]), lambda x: V([x[2], z, -x[0]]), lambda x: V([-x[1], x[0], z])):
        for k in A3:
            ax = mk(ed[k])
            p, q = (dot(tv[j], ax, 3) for j in pts[k])
            rad = dot(e, ax.abs(), 3)
            out += [imin(p, q) > rad, imax(p, q) < -rad]
    return b2u(not_(or_(*out)))


@sp('C29', 'Box_IntersectsTriangle', 'disc')
def _(s, a, b, c, real):
    return box_tri(*box(s), v3(a), v3(b), v3(c))


@sp('C29', 'OBox_IntersectsTriangle', 'disc')
def _(s, a, b, c, real):
    ce, e, q = obox(s)
    return box_tri(V([fc(0)] * 3), e, *[irot(real, v3(x) - ce, q) for x in (a, b, c)])


@sp('C29', 'Frustum_IntersectsTriangle', 'disc')
def _(s, a, b, c, real):
    f = Fr(s)
    tv = [irot(real, v3(x) - f.o, f.q) for x in (a, b, c)]
    out, ins = [], []
    for pl in f.planes():
        d = [dot(x, pl, 3) for x in tv]
        out.append(lo(d) > -pl[3])
        ins.append(hi(d) <= -pl[3])
    cs = f.corners()
    n = cross(tv[1] - tv[0], tv[2] - tv[0])
    dist = dot(n, tv[0], 3)
    ds = [dot(x, n, 3) for x in cs]
    sep = [or_(lo(ds) > dist, hi(ds) < dist)]
    for ed in (tv[1] - tv[0], tv[2] - tv[1], tv[0] - tv[2]):
        for fe in f.edges():
            ax = cross(ed, fe)
            da, db = [dot(x, ax, 3) for x in tv], [dot(ax, x, 3) for x in cs]
            sep.append(or_(lo(da) > hi(db), lo(db) > hi(da)))
    return b2u(and_(not_(or_(*out)), or_(and_(*ins), not_(or_(*sep)))))


@sp('C29', 'Tri_IntersectsTriangle', 'disc')
def _(a0, a1, a2, b0, b1, b2, real):
    A, B = [v3(x) for x in (a0, a1, a2)], [v3(x) for x in (b0, b1, b2)]
    n1, n2 = cross(A[1] - A[0], A[2] - A[0]), cross(B[1] - B[0], B[2] - B[0])

    def dists(n, P, o):
        d = [dot(n, x - o, 3) for x in P]
        z = [EPS > x.abs() for x in d]
        d = [ite(c, fc(0), x) for c, x in zip(z, d)]
        return z, [x < 0 for x in d], [x > 0 for x in d]
    bz, bl, bg = dists(n1, B, A[0])
    az, al, ag = dists(n2, A, B[0])
    sep = or_(and_(*bl), and_(*bg), and_(*al), and_(*ag))
    cop = or_(and_(*az), and_(*bz))
    cs = []
    for P, n, Q_ in ((A, n1, B), (B, n2, A)):
        for k in A3:
            ax = cross(P[(k + 1) % 3] - P[k], n)
            cs.append(lo([dot(x, ax, 3) for x in Q_]) >= dot(ax, P[k], 3))

    def arrange(P, z, l, g):
        """the vertex alone on its side first; positive when that side is the positive one"""
        le, ge = [or_(x, y) for x, y in zip(l, z)], [or_(x, y) for x, y in zip(g, z)]
        pos, neg, perm = [], [], []
        for k in A3:
            o = [j for j in A3 if j != k]
            pos.append(or_(and_(ge[k], *[l[j] for j in o]), and_(g[k], *[le[j] for j in o])))
            neg.append(or_(and_(le[k], *[g[j] for j in o]), and_(l[k], *[ge[j] for j in o])))
        out, positive, none = [P[2], P[1], P[0]], t.FALSE, t.TRUE      # the last case needs no test: if none applies there is no intersection
        for k in reversed(A3):
            i, j = (k + 1) % 3, (k + 2) % 3
            for c, order, s in ((neg[k], (k, j, i), t.FALSE), (pos[k], (k, i, j), t.TRUE)):
                if (k, s) != (2, t.FALSE):
                    out = [ite(c, P[order[q]], out[q]) for q in A3]
                    positive = ite_b(c, s, positive)
                none = and_(not_(c), none)
        return out, positive, none
    (AA, pa, na), (BB, pb, nb) = arrange(A, az, al, ag), arrange(B, bz, bl, bg)
    opp = t.xorb(pa, pb)
    d0 = ite(opp, BB[0] - AA[0], AA[0] - BB[0])
    d1 = ite(opp, AA[0] - BB[0], BB[0] - AA[0])
    x0 = dot(d0, cross(BB[2] - BB[0], AA[2] - AA[0]), 3)
    x1 = dot(d1, cross(BB[1] - BB[0], AA[1] - AA[0]), 3)
    gen = and_(not_(na), not_(nb), not_(x0 > 0), not_(x1 > 0))
    return b2u(and_(not_(sep), ite_b(cop, not_(or_(*cs)), gen)))


# ---------------------------------------------------------------- C30 volume against volume
@sp('C30', 'Sphere_IntersectsSphere', 'disc')
def _(a, b, real):
    (c1, r1), (c2, r2) = sph(a), sph(b)
    r = r1 + r2
    return b2u(lsq(c2 - c1) <= r * r)


def clamp_d(c, mn, mx):
    return V([ite(c[k] > mx[k], c[k] - mx[k], ite(c[k] < mn[k], c[k] - mn[k], fc(0))) for k in A3])


def box_sphere(b, s):
    (c, e), (p, r) = box(b), sph(s)
    d = clamp_d(p, c - e, c + e)
    return lsq(d) <= r * r


def obox_sphere(b, s, real):
    (c, e, q), (p, r) = obox(b), sph(s)
    x = irot(real, p - c, q)
    d = clamp_d(x, -e, e)
    return lsq(d) <= r * r


def box_box(a, b):
    (c1, e1), (c2, e2) = box(a), box(b)
    return not_(or_(*[or_(c1[k] - e1[k] > c2[k] + e2[k], c2[k] - e2[k] > c1[k] + e1[k]) for k in A3]))


def conj(q):
    return V([-q[0], -q[1], -q[2], q[3]])


def ident(b):
    return V(list(b[0:6]) + [fc(0), fc(0), fc(0), fc(1)])


def obox_obox(a, b, real):
    (c1, h1, q1), (c2, h2, q2) = obox(a), obox(b)
    R = axes(real, real('XMQuaternionMultiply', q1, conj(q2)))
    tt = irot(real, c2 - c1, q1)
    col = [V([R[i][j] for i in A3]) for j in A3]
    out = []
    for i in A3:
        out.append(tt[i].abs() > h1[i] + dot(h2, R[i].abs(), 3))
    for j in A3:
        out.append(dot(tt, col[j], 3).abs() > dot(h1, col[j].abs(), 3) + h2[j])
    z = fc(0)
    I = [V([fc(1 if k == i else 0) for k in A3]) for i in A3]
    for i in A3:
        i1, i2 = (i + 1) % 3, (i + 2) % 3
        for j in A3:
            j1, j2 = (j + 1) % 3, (j + 2) % 3
            d = tt[i2] * R[i1][j] - tt[i1] * R[i2][j]
            ra = h1[i1] * R[i2][j].abs() + h1[i2] * R[i1][j].abs()
            rb = h2[j1] * R[i][j2].abs() + h2[j2] * R[i][j1].abs()
            out.append(d.abs() > ra + rb)
    return not_(or_(*out))


for n, f in (('Box_IntersectsSphere', lambda b, s, real: b2u(box_sphere(b, s))), ('Sphere_IntersectsBox', lambda s, b, real: b2u(box_sphere(b, s))),
             ('OBox_IntersectsSphere', lambda b, s, real: b2u(obox_sphere(b, s, real))), ('Sphere_IntersectsOrientedBox', lambda s, b, real: b2u(obox_sphere(b, s, real))),
             ('Box_IntersectsBox', lambda a, b, real: b2u(box_box(a, b))),
             ('OBox_IntersectsOrientedBox', lambda a, b, real: b2u(obox_obox(a, b, real))),
             ('OBox_IntersectsBox', lambda a, b, real: b2u(obox_obox(a, ident(b), real))),
             ('Box_IntersectsOrientedBox', lambda a, b, real: b2u(obox_obox(b, ident(a), real))),
             ('Frustum_IntersectsSphere', lambda f, s, real: fr_sphere(f, s, real)), ('Sphere_IntersectsFrustum', lambda s, f, real: fr_sphere(f, s, real)),
             ('Frustum_IntersectsOrientedBox', lambda f, b, real: fr_obox(f, b, real)), ('OBox_IntersectsFrustum', lambda b, f, real: fr_obox(f, b, real)),
             ('Frustum_IntersectsBox', lambda f, b, real: fr_obox(f, ident(b), real)), ('Box_IntersectsFrustum', lambda b, f, real: fr_obox(f, ident(b), real)),
             ('Frustum_IntersectsFrustum', lambda a, b, real: fr_fr(a, b, real))):
    sp('C30', n, 'disc')(f)


def fr_sphere(s, sp_, real):
    f = Fr(s)
    c, r = sph(sp_)
    pls = f.planes()
    pls = pls[:2] + [real('XMVector3Normalize', p) for p in pls[2:]]
    x = irot(real, c - f.o, f.q)
    d = [dot(v4(x, 1), p, 4) for p in pls]
    out = or_(*[y > r for y in d])
    ins = and_(*[y <= -r for y in d])
    cin = and_(*[y <= 0 for y in d])
    adj = [(2, 3, 4, 5), (2, 3, 4, 5), (0, 1, 4, 5), (0, 1, 4, 5), (0, 1, 2, 3), (0, 1, 2, 3)]
    hits = []
    for k in range(6):
        p = x - v3(pls[k]) * d[k]
        hits.append(and_(d[k] > 0, *[dot(v4(p, 1), pls[j], 4) <= 0 for j in adj[k]]))
    cs = f.corners()
    for i, j in ((0, 1), (2, 3), (0, 2), (1, 3), (4, 5), (6, 7), (4, 6), (5, 7), (0, 4), (1, 5), (2, 6), (3, 7)):
        hits.append(lsq(x - nearest(cs[i], cs[j], x)) <= r * r)
    return b2u(and_(not_(out), or_(ins, cin, *hits)))


def fr_obox(s, b, real):
    f = Fr(s)
    c, e, q = obox(b)
    x = irot(real, c - f.o, f.q)
    R = axes(real, real('XMQuaternionMultiply', q, conj(f.q)))
    out, ins, cin = [], [], []
    for p in f.planes():
        d = dot(v4(x, 1), p, 4)
        rad = dot(e, V([dot(p, a, 3) for a in R]).abs(), 3)
        out.append(d > rad)
        ins.append(d <= -rad)
        cin.append(d <= 0)
    cs = f.corners()
    sep = []
    for k in A3:
        pr = [dot(y, R[k], 3) for y in cs]
        bd = dot(x, R[k], 3)
        sep += [lo(pr) > bd + e[k], hi(pr) < bd - e[k]]
    for a in R:
        for fe in f.edges():
            ax = cross(a, fe)
            pr = [dot(ax, y, 3) for y in cs]
            d = dot(x, ax, 3)
            rad = dot(e, V([dot(ax, y, 3) for y in R]).abs(), 3)
            sep += [d > hi(pr) + rad, d < lo(pr) - rad]
    return b2u(and_(not_(or_(*out)), or_(and_(*ins), and_(*cin), not_(or_(*sep)))))


def fr_fr(sb, sa, real):
    B, A = Fr(sb), Fr(sa)
    o = irot(real, A.o - B.o, B.q)
    q = real('XMQuaternionMultiply', A.q, conj(B.q))
    dirs = [rot(real, d, q) for d in A.dirs()]
    ca = [d * A.near + o for d in dirs] + [d * A.far + o for d in dirs]
    cb = B.corners()
    out, ins = [], []
    for p in B.planes():
        pr = [dot(p, c, 3) for c in ca]
        out.append(lo(pr) > -p[3])
        ins.append(hi(pr) <= -p[3])
    pa = [rot(real, p, q) for p in A.planes()]
    pa[1] = -pa[0]
    dist = [dot(pa[0], ca[0], 3), dot(pa[1], ca[4], 3)] + [dot(p, o, 3) for p in pa[2:]]
    sep = [lo([dot(p, c, 3) for c in cb]) > d for p, d in zip(pa, dist)]
    ea, eb = dirs + [dirs[0] - dirs[2], dirs[3] - dirs[2]], B.edges()
    for x in ea:
        for y in eb:
            ax = cross(x, y)
            da, db = [dot(ax, c, 3) for c in ca], [dot(ax, c, 3) for c in cb]
            sep += [lo(da) > hi(db), lo(db) > hi(da)]
    return b2u(and_(not_(or_(*out)), or_(and_(*ins), not_(or_(*sep)))))


# ---------------------------------------------------------------- C31 containment and plane classification
def all_in_sphere(s, ps):
    c, r = sph(s)
    return and_(*[lsq(p - c) <= r * r for p in ps])


@sp('C31', 'Sphere_ContainsTriangle', 'disc')
def _(s, a, b, c, real):
    return tri(yes(real('Sphere_IntersectsTriangle', s, a, b, c)), all_in_sphere(s, [v3(a), v3(b), v3(c)]))


@sp('C31', 'Sphere_ContainsSphere', 'disc')
def _(a, b, real):
    (c1, r1), (c2, r2) = sph(a), sph(b)
    d = length(real, c2 - c1)
    return tri(r1 + r2 >= d, r1 - r2 >= d)


@sp('C31', 'Sphere_ContainsBox', 'disc')
def _(s, b, real):
    c, e = box(b)
    cs, r = sph(s)
    ps = bcorners(c - cs, e)
    return tri(yes(real('Box_IntersectsSphere', b, s)), and_(*[lsq(p) <= r * r for p in ps]))


@sp('C31', 'Sphere_ContainsOrientedBox', 'disc')
def _(s, b, real):
    c, e, q = obox(b)
    cs, r = sph(s)
    return tri(yes(real('OBox_IntersectsSphere', b, s)), and_(*[lsq(cs - (rot(real, o, q) + c)) <= r * r for o in offs(e)]))


@sp('C31', 'Sphere_ContainsFrustum', 'disc')
def _(s, f, real):
    cs, r = sph(s)
    return tri(yes(real('Frustum_IntersectsSphere', f, s)), and_(*[lsq(cs - p) <= r * r for p in Fr(f).world_corners(real)]))


@sp('C31', 'Box_ContainsTriangle', 'disc')
def _(s, a, b, c, real):
    ce, e = box(s)
    return tri(yes(real('Box_IntersectsTriangle', s, a, b, c)), and_(*[(v3(x) - ce)[k].abs() <= e[k] for x in (a, b, c) for k in A3]))


@sp('C31', 'OBox_ContainsTriangle', 'disc')
def _(s, a, b, c, real):
    ce, e, q = obox(s)
    T = [v4(irot(real, v3(x) - ce, q)) for x in (a, b, c)]
    z = V([fc(0)] * 3 + list(e))
    return tri(yes(real('Box_IntersectsTriangle', z, *T)), and_(*[x[k].abs() <= e[k] for x in T for k in A3]))


@sp('C31', 'Box_ContainsSphere', 'disc')
def _(s, o, real):
    (c, e), (p, r) = box(s), sph(o)
    mn, mx = c - e, c + e
    ins = [and_(mn[k] + r <= p[k], p[k] <= mx[k] - r, mx[k] - mn[k] > r) for k in A3]
    return tri(not_(lsq(clamp_d(p, mn, mx)) > r * r), and_(*ins))


@sp('C31', 'OBox_ContainsSphere', 'disc')
def _(s, o, real):
    (c, e, q), (p, r) = obox(s), sph(o)
    x = irot(real, p - c, q)
    return tri(not_(lsq(clamp_d(x, -e, e)) > r * r), and_(inb(x - r, e), inb(x + r, e)))


@sp('C31', 'Box_ContainsBox', 'disc')
def _(a, b, real):
    (c1, e1), (c2, e2) = box(a), box(b)
    return tri(box_box(a, b), and_(*[and_(c1[k] - e1[k] <= c2[k] - e2[k], c2[k] + e2[k] <= c1[k] + e1[k]) for k in A3]))


@sp('C31', 'Box_ContainsOrientedBox', 'disc')
def _(a, b, real):
    (c1, e1), (c2, e2, q) = box(a), obox(b)
    return tri(yes(real('OBox_IntersectsBox', b, a)), and_(*[(rot(real, o, q) + (c2 - c1))[k].abs() <= e1[k] for o in offs(e2) for k in A3]))


@sp('C31', 'Box_ContainsFrustum', 'disc')
def _(a, f, real):
    c, e = box(a)
    return tri(yes(real('Frustum_IntersectsBox', f, a)), and_(*[(p - c)[k].abs() <= e[k] for p in Fr(f).world_corners(real) for k in A3]))


def obox_contains_obox(a, b, real):
    (c1, e1, q1), (c2, e2, q2) = obox(a), obox(b)
    return tri(yes(real('OBox_IntersectsOrientedBox', a, b)), and_(*[inb(irot(real, rot(real, o, q2) + (c2 - c1), q1), e1) for o in offs(e2)]))


sp('C31', 'OBox_ContainsOrientedBox', 'disc')(lambda a, b, real: obox_contains_obox(a, b, real))
sp('C31', 'OBox_ContainsBox', 'disc')(lambda a, b, real: obox_contains_obox(a, ident(b), real))


@sp('C31', 'OBox_ContainsFrustum', 'disc')
def _(a, f, real):
    c, e, q = obox(a)
    return tri(yes(real('Frustum_IntersectsOrientedBox', f, a)), and_(*[inb(irot(real, p - c, q), e) for p in Fr(f).world_corners(real)]))


def by(prop, shape, nargs, dist, ref):
    """plane classification, ContainedBy, and the frustum's Contains<shape> built on it"""
    def cls(*a, real):
        out, ins = dist(a[:nargs], a[nargs], real)
        return ite(out, u(0), ite(ins, u(2), u(1)))

    def cont(*a, real):
        r = [dist(a[:nargs], p, real) for p in a[nargs:]]
        return contained([x for x, y in r], [y for x, y in r])

    def fr(f, *a, real):
        r = [dist(a, p, real) for p in Fr(f).world_planes(real)]
        return contained([x for x, y in r], [y for x, y in r])
    sp(prop, f'{shape}_IntersectsPlane', 'disc')(cls)
    sp(prop, f'{shape}_ContainedBy', 'disc')(cont)
    sp(prop, ref, 'disc')(fr)


def d_sphere(a, p, real):
    c, r = sph(a[0])
    d = dot(v4(c, 1), p, 4)
    return d > r, d < -r


def d_box(a, p, real):
    c, e = box(a[0])
    d = dot(v4(c, 1), p, 4)
    r = dot(e, v3(p).abs(), 3)
    return d > r, d < -r


def d_obox(a, p, real):
    c, e, q = obox(a[0])
    d = dot(v4(c, 1), p, 4)
    r = dot(e, V([dot(p, x, 3) for x in axes(real, q)]).abs(), 3)
    return d > r, d < -r


def d_frustum(a, p, real):
    f = Fr(a[0])
    dirs = [rot(real, d, f.q) for d in f.dirs()]
    pr = [dot(p, d * z + f.o, 3) for z in (f.near, f.far) for d in dirs]
    return lo(pr) > -p[3], hi(pr) < -p[3]


def d_tri(a, p, real):
    d = [dot(v4(x, 1), p, 4) for x in a]
    return lo(d) > 0, hi(d) < 0


by('C31', 'Sphere', 1, d_sphere, 'Frustum_ContainsSphere')
by('C31', 'Box', 1, d_box, 'Frustum_ContainsBox')
by('C31', 'OBox', 1, d_obox, 'Frustum_ContainsOrientedBox')
by('C31', 'Frustum', 1, d_frustum, 'Frustum_ContainsFrustum')
by('C31', 'Tri', 3, d_tri, 'Frustum_ContainsTriangle')
