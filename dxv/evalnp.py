"""Vectorised machine-semantics evaluation of term DAGs over many inputs (numpy); used to pick candidate counterexamples
and to validate the encoding against native runs.  Results that matter are re-checked with evalc (exact)."""
import ctypes
import ctypes.util
import numpy as np
from . import terms as t

np.seterr(all='ignore')
U32, U64 = np.uint32, np.uint64


def f(a):
    return a.view(np.float32)


def b(a):
    return np.ascontiguousarray(a, dtype=np.float32).view(np.uint32)


_libm = ctypes.CDLL(ctypes.util.find_library('m'))


def _c(name, n):
    g = getattr(_libm, name)
    g.restype = ctypes.c_float
    g.argtypes = [ctypes.c_float] * n
    return np.frompyfunc(lambda *a: g(*[float(x) for x in a]), n, 1)


_fn = {}


def libm(name, args):
    if name not in _fn:
        _fn[name] = _c(name if name.endswith('f') else name + 'f', len(args))
    return b(_fn[name](*[f(a) for a in args]).astype(np.float32))


def dt(w):
    return U32 if w <= 32 else U64


def evalnp(roots, env, n, want=None):
    """env {var: uint32 array}; -> list of arrays (uint32/uint64 / bool).  rcp and rsqrt are evaluated exactly rounded."""
    v = {}
    for x in t.postorder(roots):
        op, A, w = x.op, x.args, x.w
        a = [v[y.id] for y in A]
        if op == 'const':
            r = np.full(n, x.data, dtype=bool if w == 0 else dt(w)) if w <= 64 else None
        elif op == 'var':
            r = env.get(x.data)
            if r is None:
                r = np.zeros(n, dtype=dt(w) if w else bool)
            elif w < 32:
                r = r & U32((1 << w) - 1)
        elif any(z is None for z in a):
            r = None
        elif op == 'not':
            r = ~a[0]
        elif op == 'and':
            r = np.logical_and.reduce(a)
        elif op == 'or':
            r = np.logical_or.reduce(a)
        elif op == 'xorb':
            r = a[0] ^ a[1]
        elif op == 'ite':
            r = np.where(a[0], a[1], a[2])
        elif op == 'concat':
            if w > 64:
                r = None
            else:
                r = np.zeros(n, dtype=U64)
                for y, z in zip(A, a):
                    r = (r << U64(y.w)) | z.astype(U64)
                r = r.astype(dt(w))
        elif op == 'extract':
            d = dt(A[0].w)
            r = ((a[0] >> d(x.data[1])) & d((1 << w) - 1)).astype(dt(w))
        elif op == 'sext':
            w0 = A[0].w
            z = a[0].astype(np.int64)
            z = np.where((z >> (w0 - 1)) & 1, z - (1 << w0), z) if w0 < 64 else z
            r = (z.astype(U64) & U64((1 << w) - 1)).astype(dt(w))
        elif op == 'bvand':
            r = a[0] & a[1]
        elif op == 'bvor':
            r = a[0] | a[1]
        elif op == 'bvxor':
            r = a[0] ^ a[1]
        elif op == 'eq':
            r = a[0] == a[1]
        elif op == 'ult':
            r = a[0] < a[1]
        elif op == 'slt':
            w0 = A[0].w
            s = lambda z: np.where((z.astype(np.int64) >> (w0 - 1)) & 1, z.astype(np.int64) - (1 << w0), z.astype(np.int64)) if w0 < 64 else z.astype(np.int64)
            r = s(a[0]) < s(a[1])
        elif op == 'fcmp':
            if A[0].w == 32:
                p, q = f(a[0]), f(a[1])
            elif A[0].w == 64:
                p, q = a[0].view(np.float64), a[1].view(np.float64)
            else:
                r = None
                v[x.id] = r
                continue
            un = np.isnan(p) | np.isnan(q)
            r = {'oeq': lambda: p == q, 'olt': lambda: p < q, 'ole': lambda: p <= q, 'ord': lambda: ~un, 'une': lambda: ~(p == q),
                 'uge': lambda: ~(p < q), 'ugt': lambda: ~(p <= q), 'uno': lambda: un}[x.data]()
        elif op in t.FOPS and w == 32:
            z = [f(y) for y in a]
            if op == 'fadd':
                r = b(z[0] + z[1])
            elif op == 'fsub':
                r = b(z[0] - z[1])
            elif op == 'fmul':
                r = b(z[0] * z[1])
            elif op == 'fdiv':
                r = b(z[0] / z[1])
            elif op == 'fsqrt':
                r = b(np.sqrt(z[0]))
            elif op == 'ffma':
                r = b((z[0].astype(np.float64) * z[1].astype(np.float64) + z[2].astype(np.float64)).astype(np.float32))
            elif op == 'fround':
                g = {'RNE': np.rint, 'RTZ': np.trunc, 'RTN': np.floor, 'RTP': np.ceil, 'RNA': lambda q: np.trunc(q + np.copysign(np.float32(0.5), q))}[x.data]
                r = b(g(z[0]))
        elif op in t.FOPS and w == 64:
            z = [y.view(np.float64) for y in a]
            r = {'fadd': lambda: z[0] + z[1], 'fsub': lambda: z[0] - z[1], 'fmul': lambda: z[0] * z[1], 'fdiv': lambda: z[0] / z[1], 'fsqrt': lambda: np.sqrt(z[0])}.get(op, lambda: None)()
            r = None if r is None else np.ascontiguousarray(r).view(U64)
        elif op in t.CVT:
            r = cvt(x, a[0], n)
        elif op == 'app':
            if x.data == 'rcp':
                r = b(np.float32(1) / f(a[0]))
            elif x.data == 'rsqrt':
                r = b(np.float32(1) / np.sqrt(f(a[0])))
            else:
                try:
                    r = libm(x.data, a)
                except AttributeError:
                    r = None
        elif w <= 32 and op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            p, q = a[0].astype(U64), a[1].astype(U64)
            m = U64((1 << w) - 1)
            sg = lambda z: np.where((z.astype(np.int64) >> (w - 1)) & 1, z.astype(np.int64) - (1 << w), z.astype(np.int64))
            if op == 'add':
                r = p + q
            elif op == 'sub':
                r = p - q
            elif op == 'mul':
                r = p * q
            elif op == 'shl':
                r = np.where(q < w, p << np.minimum(q, U64(63)), U64(0))
            elif op == 'lshr':
                r = np.where(q < w, p >> np.minimum(q, U64(63)), U64(0))
            elif op == 'ashr':
                r = (sg(p) >> np.minimum(q, U64(w - 1)).astype(np.int64)).astype(U64)
            elif op in ('udiv', 'urem'):
                qq = np.where(q == 0, U64(1), q)
                r = p // qq if op == 'udiv' else p % qq
            else:
                sp, sq = sg(p), sg(q)
                sq = np.where(sq == 0, 1, sq)
                k = (np.abs(sp) // np.abs(sq)) * np.sign(sp) * np.sign(sq)
                r = (k if op == 'sdiv' else sp - k * sq).astype(U64)
            r = (r & m).astype(U32)
        elif w == 64 and op in ('add', 'sub', 'mul'):
            r = {'add': lambda: a[0] + a[1], 'sub': lambda: a[0] - a[1], 'mul': lambda: a[0] * a[1]}[op]()
        elif w == 64 and op in ('shl', 'lshr', 'ashr'):
            q = np.minimum(a[1], U64(63))
            big = a[1] > U64(63)
            if op == 'shl':
                r = np.where(big, U64(0), a[0] << q)
            elif op == 'lshr':
                r = np.where(big, U64(0), a[0] >> q)
            else:
                r = (a[0].astype(np.int64) >> q.astype(np.int64)).astype(U64)
        else:
            r = None
        v[x.id] = r
    return [v[r.id] for r in roots]


def cvt(x, a, n):
    op, w, wi = x.op, x.w, x.args[0].w
    if op == 'sitofp' and wi <= 32:
        z = a.astype(np.int64)
        z = np.where((z >> (wi - 1)) & 1, z - (1 << wi), z)
        return b(z.astype(np.float32)) if w == 32 else None
    if op == 'uitofp' and wi <= 32:
        return b(a.astype(np.uint64).astype(np.float32)) if w == 32 else None
    if op == 'fpext' and wi == 32:
        return f(a).astype(np.float64).view(U64)
    if op == 'fpext' and wi == 16:
        return b(a.astype(np.uint16).view(np.float16).astype(np.float32))
    if op == 'fptrunc' and wi == 64 and w == 32:
        return b(a.view(np.float64).astype(np.float32))
    if op == 'fptrunc' and wi == 32 and w == 16 and x.data in (None, 'RNE'):
        return np.ascontiguousarray(f(a).astype(np.float16)).view(np.uint16).astype(U32)
    if wi != 32 or w > 32:
        return None
    z = f(a).astype(np.float64)
    k = np.rint(z) if op == 'cvtps2dq' else np.trunc(z)
    lo, hi = (0, (1 << w) - 1) if op == 'fptoui_sat' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if op.startswith('cvt'):
        ok = (k >= lo) & (k <= hi)
        return np.where(ok, np.where(ok, k, 0).astype(np.int64), 1 << (w - 1)).astype(np.int64).astype(U64).astype(U32)
    k = np.where(np.isnan(k), 0, np.clip(k, lo, hi))
    return (k.astype(np.int64).astype(U64) & U64((1 << w) - 1)).astype(U32)
