"""Concrete evaluation of term DAGs.

eval_bits   : exact machine semantics (binary32 rounding), used to validate the encoding against native runs.
eval_oracle : exact-rational evaluation with a rigorous running error bound, used to judge a native run of a
              counterexample: the native result is wrong only if it lies outside the bound whichever way the
              sums of the specification are associated.
"""
import math
from fractions import Fraction as Q
from . import fp
from . import terms as t

NAN = 0x7FC00000


def _libm(name, xs):
    import mpmath
    with mpmath.workprec(160):
        a = [mpmath.mpf(x) for x in xs]
        try:
            if name == 'pow':
                return mpmath.power(*a) if a[0] >= 0 or a[1] == int(a[1]) else None
            if name == 'atan2':
                return mpmath.atan2(*a)
            if name == 'fmod':
                return mpmath.fmod(abs(a[0]), abs(a[1])) * (1 if a[0] >= 0 else -1)
            f = {'exp2': lambda x: mpmath.power(2, x), 'log2': lambda x: mpmath.log(x, 2), 'log10': mpmath.log10, 'cbrt': mpmath.cbrt,
                 'expm1': mpmath.expm1, 'log1p': mpmath.log1p}.get(name) or getattr(mpmath, name)
            r = f(*a)
        except (ValueError, ZeroDivisionError):
            return None
        if isinstance(r, mpmath.mpc):
            return None
        return r


def _clibm(name, xs):
    import ctypes
    global _LM
    try:
        _LM
    except NameError:
        _LM = ctypes.CDLL('libm.so.6')
    f = getattr(_LM, name + 'f')
    f.restype = ctypes.c_float
    f.argtypes = [ctypes.c_float] * len(xs)
    return fp.bits_of(f(*[fp.tofloat(x) for x in xs]))


def fop_bits(op, a, w, rm):
    r = fp.fold(op, a, w, rm)
    if r is not None:
        return r
    if w == 32:
        return NAN
    x = [fp.tofloat(v, 64) for v in a]
    if op == 'fdiv':
        try:
            return fp.bits_of(x[0] / x[1], 64)
        except ZeroDivisionError:
            return 0x7FF8000000000000 if x[0] == 0 or math.isnan(x[0]) else (0x7FF0000000000000 | ((a[0] ^ a[1]) & (1 << 63)))
    if op == 'fsqrt':
        return fp.bits_of(math.sqrt(x[0]), 64) if x[0] >= 0 else 0x7FF8000000000000
    return 0x7FF8000000000000


class Unknown(Exception):
    pass


def eval_bits(roots, env, app=None):
    """env: {var name: int}. Returns list of ints; raises Unknown for rcp/rsqrt (not specified bit-exactly)."""
    v = {}
    for x in t.postorder(roots):
        op = x.op
        a = [v[y.id] for y in x.args]
        if op == 'const':
            r = x.data
        elif op == 'var':
            r = env[x.data] if x.data in env else 0
        elif None in a and op != 'ite':
            r = None
        elif op == 'not':
            r = 1 - a[0]
        elif op == 'and':
            r = int(all(a))
        elif op == 'or':
            r = int(any(a))
        elif op == 'xorb':
            r = a[0] ^ a[1]
        elif op == 'ite':
            r = None if a[0] is None else (a[1] if a[0] else a[2])
        elif op == 'concat':
            r = 0
            for y, z in zip(x.args, a):
                r = (r << y.w) | z
        elif op == 'extract':
            r = (a[0] >> x.data[1]) & ((1 << x.w) - 1)
        elif op == 'sext':
            w0 = x.args[0].w
            r = (a[0] - (1 << w0) if a[0] >> (w0 - 1) else a[0]) & ((1 << x.w) - 1)
        elif op == 'bvand':
            r = a[0] & a[1]
        elif op == 'bvor':
            r = a[0] | a[1]
        elif op == 'bvxor':
            r = a[0] ^ a[1]
        elif op == 'eq':
            r = int(a[0] == a[1])
        elif op == 'ult':
            r = int(a[0] < a[1])
        elif op == 'slt':
            w0 = x.args[0].w
            s = lambda z: z - (1 << w0) if z >> (w0 - 1) else z
            r = int(s(a[0]) < s(a[1]))
        elif op == 'fcmp':
            p, q = (fp.tofloat(z, x.args[0].w) for z in a)
            un = math.isnan(p) or math.isnan(q)
            r = int({'oeq': p == q, 'olt': p < q, 'ole': p <= q, 'ord': not un, 'une': not p == q, 'uge': not p < q, 'ugt': not p <= q, 'uno': un}[x.data])
        elif op in t.FOPS:
            r = fop_bits(op, a, x.w, x.data)
        elif op in t.CVT:
            r = fp.fold_cvt(op, a[0], x.args[0].w, x.w, x.data)
            if r is None:
                raise Unknown(op)
        elif op == 'app':
            if x.data in ('rcp', 'rsqrt'):
                r = None
            else:
                r = _clibm(x.data, a)
        else:
            r = t.arith(op, t.const(a[0], x.w), t.const(a[1], x.w))
            r = r.data if t.isc(r) else 0
        v[x.id] = r
    return [v[r.id] for r in roots]


# ---------------------------------------------------------------- oracle
U = Q(1, 1 << 24)
TINY = Q(1, 1 << 149)
FMAX = Q(2 ** 24 - 1) * Q(2) ** 104
ANY = 'any'


class R:
    """float known to be v +- e (v exact rational, m = magnitude of the terms), or special"""
    __slots__ = ('v', 'e', 'm', 's')

    def __init__(self, v, e=Q(0), m=None, s=None):
        self.v = v
        self.e = e
        self.m = abs(v) if m is None else m
        self.s = s          # sign of an exact zero, when known

    def __repr__(self):
        return f'{float(self.v)}+-{float(self.e):.3g}'


SPECIAL = ('nan', 'inf', '-inf')


def _trim(q, bits=220):
    """rational -> nearby dyadic of bounded size, and the error made"""
    if q == 0 or (q.numerator.bit_length() < 2 * bits and q.denominator.bit_length() < 2 * bits):
        return q, Q(0)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    sc = Q(2) ** (bits - e)
    n = round(q * sc)
    r = Q(n) / sc
    return r, Q(2) ** (e - bits)


def _mk(v, e, m, exact=False):
    v, d = _trim(v)
    e, _ = _trim(e + d, 80)
    m, _ = _trim(m, 80)
    if m > FMAX:
        return ANY if m + e > FMAX * 2 or True else None
    if exact and _fits(v, m):
        return R(v, Q(0), m)
    return R(v, e + U * m + TINY, m)


def _fits(v, m):
    d = v.denominator
    if d & (d - 1):
        return False
    k = d.bit_length() - 1
    if k > 149:
        return False
    if v == 0:
        dm = m.denominator
        if dm & (dm - 1):
            return False
        k = dm.bit_length() - 1
    dm = m.denominator
    kk = max(k, dm.bit_length() - 1) if not dm & (dm - 1) else 999
    return m * (1 << kk) < (1 << 24) if kk < 150 else False


def from_bits(b):
    if fp.isnan(b):
        return 'nan'
    if b & 0x7FFFFFFF == fp.INF:
        return '-inf' if b >> 31 else 'inf'
    r = R(Q(fp.tofloat(b)))
    if r.v == 0:
        r.s = b >> 31
    return r


def sgn(x):
    """1, -1, 0 or None if unknown"""
    if x == 'inf':
        return 1
    if x == '-inf':
        return -1
    if x in (ANY, 'nan'):
        return None
    if x.v > x.e:
        return 1
    if -x.v > x.e:
        return -1
    if x.e == 0:
        return 0
    return None


def o_neg(a):
    if a == ANY or a == 'nan':
        return a
    if a == 'inf':
        return '-inf'
    if a == '-inf':
        return 'inf'
    return R(-a.v, a.e, a.m, None if a.s is None else 1 - a.s)


def o_add(a, b):
    if 'nan' in (a, b):
        return 'nan'
    if ANY in (a, b):
        return ANY
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            return a if a == b else 'nan'
        return a if isinstance(a, str) else b
    return _mk(a.v + b.v, a.e + b.e, a.m + b.m, a.e == 0 and b.e == 0)


def o_mul(a, b):
    if 'nan' in (a, b):
        return 'nan'
    if ANY in (a, b):
        return ANY
    if isinstance(a, str) or isinstance(b, str):
        s = sgn(a), sgn(b)
        if 0 in s:
            return 'nan'
        if None in s:
            return ANY
        return 'inf' if s[0] * s[1] > 0 else '-inf'
    e = abs(a.v) * b.e + abs(b.v) * a.e + a.e * b.e
    return _mk(a.v * b.v, e, a.m * b.m, a.e == 0 and b.e == 0)


def o_div(a, b):
    if 'nan' in (a, b):
        return 'nan'
    if ANY in (a, b):
        return ANY
    if isinstance(b, str):
        if isinstance(a, str):
            return 'nan'
        return R(Q(0))
    sb = sgn(b)
    if isinstance(a, str):
        if sb is None or sb == 0:
            return ANY
        return a if sb > 0 else o_neg(a)
    if sb is None:
        return ANY
    if sb == 0:
        sa = sgn(a)
        if sa == 0:
            return 'nan'
        if sa is None or b.s is None:
            return ANY
        return 'inf' if (sa > 0) == (b.s == 0) else '-inf'
    v = a.v / b.v
    lo = abs(b.v) - b.e
    e = (a.e + abs(v) * b.e) / lo
    m = max(a.m / lo, abs(v))
    return _mk(v, e, m, a.e == 0 and b.e == 0)


def o_sqrt(a):
    if a in ('nan', '-inf'):
        return 'nan'
    if a in (ANY, 'inf'):
        return a
    s = sgn(a)
    if s == -1:
        return 'nan'
    if s == 0:
        return R(Q(0), s=a.s)
    if s is None:
        return ANY if a.v + a.e < 0 or True else None
    r = _sqrt(a.v)
    lo = _sqrt(a.v - a.e)
    e = a.e / lo if lo else a.e
    out = _mk(r, e + r * Q(1, 1 << 180), r, False)
    if a.e == 0 and r * r == a.v:
        return R(r)
    return out


def _sqrt(q):
    n, d = q.numerator, q.denominator
    k = max(0, 240 - (n.bit_length() - d.bit_length()) // 2 * 0)
    s = (n << (2 * k)) // d
    return Q(math.isqrt(s), 1 << k)


def o_cmp(p, a, b):
    """True / False / None (undetermined)"""
    if p == 'ord':
        if 'nan' in (a, b):
            return False
        if ANY in (a, b):
            return None
        return True
    if 'nan' in (a, b):
        return False
    if ANY in (a, b):
        return None
    if isinstance(a, str) or isinstance(b, str):
        f = lambda x: {'inf': math.inf, '-inf': -math.inf}.get(x, 0.0) if isinstance(x, str) else 0.0
        x, y = f(a), f(b)
        return {'oeq': x == y, 'olt': x < y, 'ole': x <= y}[p]
    d = a.v - b.v
    e = 4 * (a.e + b.e)
    if p == 'oeq':
        if abs(d) > e:
            return False
        return True if e == 0 else None
    if p == 'olt':
        return True if d < -e else (False if d > e or (e == 0 and d >= 0) else None)
    return True if d < -e or (e == 0 and d <= 0) else (False if d > e else None)


def to_bits_exact(r):
    """bit pattern of an exactly known float, else None"""
    if r == 'nan' or r == ANY:
        return None
    if r == 'inf':
        return 0x7F800000
    if r == '-inf':
        return 0xFF800000
    if r.e != 0:
        return None
    if r.v == 0:
        return None if r.s is None else r.s << 31
    b = fp.round_frac(r.v)
    return b if Q(fp.tofloat(b)) == r.v else None


ROUNDS = ('cvttps2dq', 'cvtps2dq', 'fptosi_sat')


def hull(a, b):
    """a value known to be one of two"""
    if not (isinstance(a, R) and isinstance(b, R)):
        return None
    v = (a.v + b.v) / 2
    return R(v, max(a.e, b.e) + abs(a.v - b.v) / 2, max(a.m, b.m))


def eval_oracle(roots, env, est=False):
    """Every term evaluates to either an int (bit pattern / Bool 0,1), None (unknown bits) or, for float-valued
    operators, an R / special.  Conversion between the two views happens on demand."""
    v = {}

    def flt(x):
        r = v[x.id]
        if isinstance(r, (R, str)):
            return r
        if r is None:
            return ANY
        return from_bits(r)

    def bits(x):
        r = v[x.id]
        if isinstance(r, (R, str)):
            return to_bits_exact(r)
        return r

    for x in t.postorder(roots):
        op = x.op
        A = x.args
        if op == 'const':
            r = x.data
        elif op == 'var':
            r = env.get(x.data)
        elif op == 'not':
            r = None if v[A[0].id] is None else 1 - v[A[0].id]
        elif op in ('and', 'or'):
            a = [v[y.id] for y in A]
            k = 0 if op == 'and' else 1
            r = k if k in a else (None if None in a else 1 - k)
        elif op == 'xorb':
            a = [v[y.id] for y in A]
            r = None if None in a else a[0] ^ a[1]
        elif op == 'ite':
            c = v[A[0].id]
            if c is None:
                p, q = v[A[1].id], v[A[2].id]
                r = p if (type(p) is type(q) is int and p == q) else hull(flt(A[1]), flt(A[2])) if x.w == 32 else None
            else:
                r = v[A[1].id] if c else v[A[2].id]
        elif op == 'fcmp':
            p = x.data
            neg = p in t.FCANON
            c = o_cmp(t.FNEG[p] if neg else p, flt(A[0]), flt(A[1])) if A[0].w == 32 else None
            r = None if c is None else int(c != neg)
        elif op == 'fadd':
            r = o_add(flt(A[0]), flt(A[1]))
        elif op == 'fsub':
            r = o_add(flt(A[0]), o_neg(flt(A[1])))
        elif op == 'fmul':
            r = o_mul(flt(A[0]), flt(A[1]))
        elif op == 'ffma':
            r = o_add(o_mul(flt(A[0]), flt(A[1])), flt(A[2]))
        elif op == 'fdiv':
            r = o_div(flt(A[0]), flt(A[1]))
        elif op == 'fsqrt':
            r = o_sqrt(flt(A[0]))
        elif op == 'fround':
            b = bits(A[0])
            if b is not None:
                r = fop_bits('fround', [b], 32, x.data)
            else:
                f = flt(A[0])
                if isinstance(f, str):
                    r = f
                else:
                    g = {'RNE': round, 'RTZ': math.trunc, 'RTN': math.floor, 'RTP': math.ceil, 'RNA': lambda z: math.floor(z + Q(1, 2))}[x.data]
                    p, q = g(f.v - 4 * f.e), g(f.v + 4 * f.e)
                    r = R(Q(p)) if p == q else ANY
        elif op == 'bvxor' and x.w == 32 and t.isc(A[1]) and A[1].data == 0x80000000:
            b = v[A[0].id]
            r = o_neg(b) if isinstance(b, (R, str)) else (None if b is None else b ^ 0x80000000)
        elif op == 'bvand' and x.w == 32 and t.isc(A[1]) and A[1].data == 0x7FFFFFFF:
            b = v[A[0].id]
            if isinstance(b, R):
                r = R(abs(b.v), b.e, b.m, 0)
            elif isinstance(b, str):
                r = 'inf' if b == '-inf' else b
            else:
                r = None if b is None else b & 0x7FFFFFFF
        elif op in ROUNDS and A[0].w == 32 and bits(A[0]) is None:
            f = flt(A[0])
            g = round if op == 'cvtps2dq' else math.trunc
            p, q = (g(f.v - 4 * f.e), g(f.v + 4 * f.e)) if isinstance(f, R) else (0, 1)
            r = p & 0xFFFFFFFF if p == q and abs(p) < 1 << 30 and x.w == 32 else None
        elif (op == 'bvand' and x.w == 32 and t.isc(A[1]) and A[1].data == 0x80000000 or op == 'extract' and x.data == (31, 31)) and isinstance(v[A[0].id], R):
            b = bits(A[0])
            f = v[A[0].id]
            sg = b >> 31 if b is not None else None if abs(f.v) <= 4 * f.e else int(f.v < 0)
            r = None if sg is None else sg << 31 if op == 'bvand' else sg
        elif op == 'app':
            f = [flt(y) for y in A]
            if x.data in ('rcp', 'rsqrt'):
                g = o_div(R(Q(1)), f[0] if x.data == 'rcp' else o_sqrt(f[0]))
                if isinstance(g, R):
                    g = R(g.v, g.e + abs(g.v) * Q(3, 8192) + TINY, g.m)
                r = g
            elif any(isinstance(z, str) for z in f):
                bb = [bits(y) for y in A]
                r = None if None in bb else _clibm(x.data, bb)
            else:
                val = _libm(x.data, [float(z.v) if z.e == 0 and Q(float(z.v)) == z.v else float(z.v) for z in f])
                if val is None:
                    r = ANY if any(z.e for z in f) else 'nan'
                else:
                    import mpmath
                    e = Q(0)
                    if any(z.e for z in f):
                        # sensitivity by evaluation at the interval ends (the functions are monotone or 1-Lipschitz there)
                        for k, z in enumerate(f):
                            if z.e:
                                for s in (-1, 1):
                                    arg = [float(y.v) for y in f]
                                    arg[k] = float(z.v + s * 4 * z.e)
                                    v2 = _libm(x.data, arg)
                                    if v2 is None:
                                        e = None
                                        break
                                    e = e + abs(Q(float(v2)) - Q(float(val)))
                            if e is None:
                                break
                    if e is None or not mpmath.isfinite(val) or abs(val) > 3e38:
                        r = ANY
                    else:
                        q = Q(float(val))
                        r = R(q, e + abs(q) * U * 4 + TINY)
        else:
            bs = [bits(y) for y in A]
            if None in bs:
                # masks absorb unknown operands
                if op == 'bvand' and 0 in bs:
                    r = 0
                else:
                    r = None
            else:
                if op == 'const':
                    r = x.data
                else:
                    y = t.rebuild(x, [t.const(b, z.w) if z.w else t.boolc(b) for b, z in zip(bs, A)])
                    r = y.data if t.isc(y) else None
        v[x.id] = r
    return [v[r.id] for r in roots]


def accepts(o, got, mode, slack=4):
    """does the oracle value `o` accept the native word `got`?"""
    if mode == 'bits':
        if isinstance(o, (R, str)):
            b = to_bits_exact(o)
            if b is None:
                return accepts(o, got, 'num')
            o = b
        return o is None or o == got
    if o is None or o == ANY:
        return True
    if isinstance(o, int):
        if fp.isnan(o):
            return fp.isnan(got)
        return o == got or (o & 0x7FFFFFFF == 0 and got & 0x7FFFFFFF == 0)
    if o == 'nan':
        return fp.isnan(got)
    if o == 'inf':
        return got == 0x7F800000
    if o == '-inf':
        return got == 0xFF800000
    if fp.isnan(got):
        return False
    if got & 0x7FFFFFFF == 0x7F800000:
        return abs(o.v) + slack * o.e + o.m * slack * U > FMAX
    x = Q(fp.tofloat(got))
    if mode == 'num':
        slack = 1
        # a single correctly rounded operation chain: allow the bound itself
    return abs(x - o.v) <= slack * o.e + (TINY if o.e else 0)
