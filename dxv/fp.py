"""Concrete IEEE-754 helpers (binary32/64/16), used for constant folding, term evaluation and replay."""
import math
import struct
from fractions import Fraction

INF = 0x7F800000


def tofloat(bits, w=32):
    if w == 32:
        return struct.unpack('<f', struct.pack('<I', bits & 0xFFFFFFFF))[0]
    if w == 64:
        return struct.unpack('<d', struct.pack('<Q', bits))[0]
    if w == 16:
        return struct.unpack('<e', struct.pack('<H', bits))[0]
    raise Exception(w)


def isnan(bits, w=32):
    return math.isnan(tofloat(bits, w))


def bits_of(x, w=32):
    """nearest-even rounding of a Python float (already exact enough) to width w"""
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    if w == 32:
        try:
            return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError:
            return 0xFF800000 if x < 0 else 0x7F800000
    raise Exception(w)


def frac(bits, w=32):
    return Fraction(tofloat(bits, w))


def round_frac(q, zero_sign=0):
    """correct rounding of an exact rational to binary32 bits (RNE)"""
    if q == 0:
        return zero_sign << 31
    s = 0
    if q < 0:
        s = 1
        q = -q
    # exponent e with 2^e <= q < 2^(e+1)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q:
        e -= 1
    elif Fraction(2) ** (e + 1) <= q:
        e += 1
    e = max(e, -126)
    ulp = Fraction(2) ** (e - 23)
    n = q / ulp
    f = n.numerator // n.denominator
    r = n - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f & 1):
        f += 1
    if f >= 1 << 24:
        f >>= 1
        e += 1
    if e > 127:
        return (s << 31) | INF
    if f < 1 << 23:
        return (s << 31) | f
    return (s << 31) | ((e + 127) << 23) | (f - (1 << 23))


def _finite(x):
    return not (math.isinf(x) or math.isnan(x))


def fold(op, a, w, rm=None):
    if w == 64:
        x = [tofloat(v, 64) for v in a]
        if op == 'fadd':
            r = x[0] + x[1]
        elif op == 'fsub':
            r = x[0] - x[1]
        elif op == 'fmul':
            r = x[0] * x[1]
        else:
            return None
        return None if math.isnan(r) else bits_of(r, 64)
    x = [tofloat(v) for v in a]
    if any(math.isnan(v) for v in x):
        return None
    try:
        if op == 'fadd':
            r = x[0] + x[1]
        elif op == 'fsub':
            r = x[0] - x[1]
        elif op == 'fmul':
            r = x[0] * x[1]
        elif op == 'fdiv':
            if x[1] == 0:
                if x[0] == 0:
                    return None
                s = (a[0] ^ a[1]) >> 31
                return (s << 31) | INF
            r = x[0] / x[1]
        elif op == 'fsqrt':
            if x[0] < 0:
                return None
            r = math.sqrt(x[0])
        elif op == 'ffma':
            if all(_finite(v) for v in x):
                q = Fraction(x[0]) * Fraction(x[1]) + Fraction(x[2])
                if q == 0:
                    sp = (a[0] ^ a[1]) >> 31
                    sc = a[2] >> 31
                    if Fraction(x[0]) * Fraction(x[1]) == 0 and x[2] == 0:
                        return ((sp & sc) << 31)
                    return 0
                return round_frac(q)
            p = x[0] * x[1]
            if math.isnan(p):
                return None
            r = p + x[2]
        elif op == 'fround':
            if not _finite(x[0]):
                return a[0]
            v = x[0]
            k = {'RNE': round, 'RTZ': math.trunc, 'RTN': math.floor, 'RTP': math.ceil}[rm](v)
            if k == 0:
                return a[0] & 0x80000000
            r = float(k)
        else:
            return None
    except OverflowError:
        return None
    if math.isnan(r):
        return None
    return bits_of(r)


def fold_cvt(op, v, wi, wo, data=None):
    if op == 'sitofp':
        s = v - (1 << wi) if v >> (wi - 1) else v
        return round_frac(Fraction(s))
    if op == 'uitofp':
        return round_frac(Fraction(v))
    if op in ('fptosi_sat', 'fptoui_sat', 'cvttps2dq', 'cvtps2dq'):
        x = tofloat(v, wi)
        lo, hi = (0, (1 << wo) - 1) if op == 'fptoui_sat' else (-(1 << (wo - 1)), (1 << (wo - 1)) - 1)
        if op.startswith('cvt'):
            if not _finite(x):
                return 1 << (wo - 1)
            k = math.trunc(x) if op == 'cvttps2dq' else round(x)
            if k < lo or k > hi:
                return 1 << (wo - 1)
            return k & ((1 << wo) - 1)
        if math.isnan(x):
            return 0
        if math.isinf(x):
            return (lo if x < 0 else hi) & ((1 << wo) - 1)
        k = min(max(math.trunc(x), lo), hi)
        return k & ((1 << wo) - 1)
    if op == 'fpext' and wi == 16 and wo == 32:
        if isnan(v, 16):
            return ((v & 0x8000) << 16) | 0x7FC00000 | ((v & 0x3FF) << 13)
        return bits_of(tofloat(v, 16))
    if op == 'fptrunc' and wi == 32 and wo == 16:
        return f32_to_f16(v)
    return None


def f32_to_f16(v):
    """RNE, as vcvtps2ph with rounding control 0"""
    s = (v >> 16) & 0x8000
    if isnan(v):
        return s | 0x7E00 | ((v >> 13) & 0x3FF)
    x = tofloat(v & 0x7FFFFFFF)
    if math.isinf(x) or x >= 65520.0:
        return s | 0x7C00
    return s | struct.unpack('<H', struct.pack('<e', x))[0]
