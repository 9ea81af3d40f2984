"""C24: scale-rotation-translation decomposition of a matrix"""
import numpy as np
from ..spec import F, V, add, and_, cross, dot, fc, ite, not_, u, or_
from .. import terms as t

EPS = fc(0.0001)
I = [V([fc(1.0 if i == j else 0.0) for j in range(4)]) for i in range(4)]


def ranks(x, y, z):
    """the six orders of three magnitudes, largest first; ties go to the earlier test"""
    return [(and_(x < y, y < z), (2, 1, 0)),
            (and_(x < y, not_(y < z), x < z), (1, 2, 0)),
            (and_(x < y, not_(y < z), not_(x < z)), (1, 0, 2)),
            (and_(not_(x < y), x < z), (2, 0, 1)),
            (and_(not_(x < y), not_(x < z), y < z), (0, 2, 1)),
            (and_(not_(x < y), not_(x < z), not_(y < z)), (0, 1, 2))]


def decompose(M, real):
    s = [real('XMVector3Length', M[k])[0] for k in range(3)]
    nz = lambda v: real('XMVector3Normalize', v)
    cr = lambda p, q: real('XMVector3Cross', p, q)
    res = []
    for cond, (a, b, c) in ranks(*s):
        r = [M[0], M[1], M[2], I[3]]
        r[a] = nz(ite(s[a] < EPS, I[a], r[a]))
        ax = [r[a][k].abs() for k in range(3)]
        least = [(q, o[2]) for q, o in ranks(*ax)]
        e = V(I[least[-1][1]])
        for q, o in reversed(least[:-1]):
            e = ite(q, I[o], e)
        r[b] = nz(ite(s[b] < EPS, cr(r[a], e), r[b]))
        r[c] = nz(ite(s[c] < EPS, cr(r[a], r[b]), r[c]))
        det = real('XMMatrixDeterminant', r)[0]
        neg = det < 0
        r[a] = ite(neg, -r[a], r[a])
        sc = list(s)
        sc[a] = ite(neg, -s[a], s[a])
        d = ite(neg, -det, det) - 1
        fail = EPS < d * d
        res.append((cond, sc, r, fail))
    sc, r, fail = res[-1][1:]
    for cond, s1, r1, f1 in reversed(res[:-1]):
        sc = [ite(cond, p, q) for p, q in zip(s1, sc)]
        r = [ite(cond, p, q) for p, q in zip(r1, r)]
        fail = or_(and_(cond, f1), and_(not_(cond), fail))
    return sc, r, fail


def main(M, real):
    sc, r, fail = decompose(M, real)
    return [V(sc + [fc(0)]), None, None, None, None, M[3], F(t.ite(fail, t.const(0, 32), t.const(1, 32)))]


def rotation(M, real):
    sc, r, fail = decompose(M, real)
    q = real('XMQuaternionRotationMatrix', r)
    return [None] * 4 + [ite(fail, F(t.var(f'o{4 + k}', 32)), q[k]) for k in range(4)] + [None] * 5


def gen(r, n):
    q = r.normal(size=(n, 4))
    q /= np.linalg.norm(q, axis=1)[:, None]
    x, y, z, w = q.T
    R = np.stack([np.stack([1 - 2 * (y * y + z * z), 2 * (x * y + z * w), 2 * (x * z - y * w)], 1),
                  np.stack([2 * (x * y - z * w), 1 - 2 * (x * x + z * z), 2 * (y * z + x * w)], 1),
                  np.stack([2 * (x * z + y * w), 2 * (y * z - x * w), 1 - 2 * (x * x + y * y)], 1)], 1)
    plain = r.random(n) < 0.25
    perm = np.eye(3)[np.argsort(r.random((n, 3)), axis=1)] * r.choice([-1.0, 1.0], size=(n, 3))[:, :, None]
    R = np.where(plain[:, None, None], perm, R)
    s = np.exp(r.uniform(-2, 2, size=(n, 3))) * r.choice([-1.0, 1.0], size=(n, 3), p=[0.3, 0.7])
    s = np.where(r.random((n, 3)) < 0.25, 0.0, s)
    s = np.where(r.random((n, 3)) < 0.1, 2e-5, s)
    M = np.zeros((n, 4, 4))
    M[:, :3, :3] = R * s[:, :, None] + (r.random(n) < 0.2)[:, None, None] * r.normal(size=(n, 3, 3)) * 0.3
    M[:, 3, :] = r.uniform(-9, 9, size=(n, 4))
    M[:, 3, 3] = 1
    return M.reshape(n, 16).astype(np.float32).view(np.uint32)


def orders(x, y, z):
    """the total orders of three quantities as literals on the tests the ranking makes"""
    return [([(x < y, True), (y < z, True), (x < z, True)], (2, 1, 0)),
            ([(x < y, True), (y < z, False), (x < z, True)], (1, 2, 0)),
            ([(x < y, True), (y < z, False), (x < z, False)], (1, 0, 2)),
            ([(x < y, False), (y < z, True), (x < z, True)], (2, 0, 1)),
            ([(x < y, False), (y < z, True), (x < z, False)], (0, 2, 1)),
            ([(x < y, False), (y < z, False), (x < z, False)], (0, 1, 2))]


def split(M, real):
    s = [real('XMVector3Length', M[k])[0] for k in range(3)]
    out = []
    for ls, (a, b, c) in orders(*s):
        for n in range(4):           # how many of the axes, smallest first, are negligible
            small = [(s[k] < EPS, q < n) for q, k in enumerate((c, b, a))]
            if n < 2:
                out.append(ls + small)
                continue
            e = real('XMVector3Normalize', I[a] if n == 3 else M[a])
            for inner, o in orders(*[e[k].abs() for k in range(3)]):
                if not any(x.op == 'const' and (x is t.TRUE) != v for x, v in inner):
                    out.append(ls + small + [(x, v) for x, v in inner if x.op != 'const'])
    return out


add('C24', 'XMMatrixDecompose', main, ['tol'] * 4 + ['tol'] * 4 + ['bits'] * 4 + ['disc'], needs_call=True, gen=gen, nonfinite=False, split=split)
add('C24', 'XMMatrixDecompose', rotation, ['tol'] * 4 + ['tol'] * 4 + ['bits'] * 4 + ['disc'], needs_call=True, gen=gen, nonfinite=False, split=split, label='XMMatrixDecompose/rotation')
