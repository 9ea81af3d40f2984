"""Hash-consed term DAG produced by the symbolic executor.

Two sorts: Bool (w == 0) and bit-vectors of width w.  A float is its IEEE bit pattern, so bitcasts
are free and a floating-point operation is an operator on bit-vectors:
  fadd fsub fmul fdiv fsqrt ffma fabs? (and with mask) frint/ffloor/fceil/ftrunc
  fcmp(pred) -> Bool, cvt operators, `app` (named function: libm, rcpps ...).
The constructors only apply identities that are valid for every bit pattern.
"""
import math

F32_SIGN = 0x80000000
F32_ABS = 0x7FFFFFFF


class T:
    __slots__ = ('op', 'w', 'args', 'data', 'id', '__weakref__')

    def __init__(self, op, w, args, data, id_):
        self.op = op
        self.w = w
        self.args = args
        self.data = data
        self.id = id_

    def __repr__(self):
        return show(self, 6)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}


def mk(op, w, args=(), data=None):
    k = (op, w, tuple(a.id for a in args), data)
    t = _tab.get(k)
    if t is None:
        t = T(op, w, tuple(args), data, len(_tab))
        _tab[k] = t
    return t


def show(t, depth=8):
    if t.op == 'const':
        return ('true' if t.data else 'false') if t.w == 0 else (f'{t.data:#x}:{t.w}')
    if t.op == 'var':
        return t.data
    if depth == 0:
        return f'#{t.id}'
    d = '' if t.data is None else f'[{t.data}]'
    return f'{t.op}{d}(' + ', '.join(show(a, depth - 1) for a in t.args) + ')'


# ------------------------------------------------------------------ leaves
def const(v, w):
    return mk('const', w, (), v & ((1 << w) - 1))


TRUE = mk('const', 0, (), 1)
FALSE = mk('const', 0, (), 0)


def boolc(b):
    return TRUE if b else FALSE


def var(name, w):
    return mk('var', w, (), name)


_undef = [0]


def undef(w):
    _undef[0] += 1
    return mk('var', w, (), f'undef!{_undef[0]}')


def is_undef(t):
    return t.op == 'var' and t.data.startswith('undef!')


def isc(t):
    return t.op == 'const'


# ------------------------------------------------------------------ booleans
def not_(a):
    if isc(a):
        return boolc(not a.data)
    if a.op == 'not':
        return a.args[0]
    if a.op == 'fcmp':
        return mk('fcmp', 0, a.args, FNEG[a.data])if a.data in FNEG else mk('not', 0, (a,))
    return mk('not', 0, (a,))


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            for y in x.args:
                if y.id not in seen:
                    seen.add(y.id)
                    out.append(y)
        elif x.id not in seen:
            seen.add(x.id)
            out.append(x)
    for x in out:
        if not_(x).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', 0, out)


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            for y in x.args:
                if y.id not in seen:
                    seen.add(y.id)
                    out.append(y)
        elif x.id not in seen:
            seen.add(x.id)
            out.append(x)
    for x in out:
        if not_(x).id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('or', 0, out)


def xorb(a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        return not_(a) if b.data else a
    if a is b:
        return FALSE
    if not_(a) is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk('xorb', 0, (a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    assert a.w == b.w, (a, b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'fcmp' and c.data in FCANON:      # canonical polarity of conditions
        return ite(not_(c), b, a)
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a.op == 'ite' or b.op == 'ite':
        a2, b2 = under(a, c, True), under(b, c, False)
        if a2 is not a or b2 is not b:
            return ite(c, a2, b2)
    if a.w == 0:
        if isc(a):
            return or_(c, b) if a.data else and_(not_(c), b)
        if isc(b):
            return or_(not_(c), a) if b.data else and_(c, a)
        if not_(a) is b:
            return xorb(not_(c), a)
    elif a.op == 'concat' and b.op == 'concat' and [x.w for x in a.args] == [x.w for x in b.args]:
        return concat(*[ite(c, x, y) for x, y in zip(a.args, b.args)])
    elif a.op == 'ite' and b.op == 'ite':
        pass
    return mk('ite', a.w, (c, a, b))


def under(y, c, val):
    """y, an ite, where condition c is known to be val"""
    while y.op == 'ite':
        k = y.args[0]
        if k is c:
            y = y.args[1 if val else 2]
            continue
        if k.op in ('and', 'or'):
            n = not_(c)
            if c in k.args or n in k.args:
                v = [TRUE if (z is c) == val else FALSE for z in k.args if z is c or z is n]
                rest = [z for z in k.args if z is not c and z is not n]
                y = ite((and_ if k.op == 'and' else or_)(*v, *rest), y.args[1], y.args[2])
                continue
        break
    return y


# ------------------------------------------------------------------ bit-vectors
def sval(t):
    return t.data - (1 << t.w) if t.data >> (t.w - 1) else t.data


def concat(*xs):
    """most significant first"""
    out = []
    for x in xs:
        if x.op == 'concat':
            out.extend(x.args)
        else:
            out.append(x)
    i = 0
    res = []
    for x in out:
        if res and isc(x) and isc(res[-1]):
            p = res.pop()
            res.append(const((p.data << x.w) | x.data, p.w + x.w))
        elif res and x.op == 'extract' and res[-1].op == 'extract' and x.args[0] is res[-1].args[0] \
                and res[-1].data[1] == x.data[0] + 1:
            p = res.pop()
            res.append(extract(x.args[0], p.data[0], x.data[1]))
        else:
            res.append(x)
    if len(res) == 1:
        return res[0]
    return mk('concat', sum(x.w for x in res), res)


def extract(t, hi, lo):
    if lo == 0 and hi == t.w - 1:
        return t
    w = hi - lo + 1
    if isc(t):
        return const(t.data >> lo, w)
    if t.op == 'extract':
        b = t.data[1]
        return extract(t.args[0], hi + b, lo + b)
    if t.op == 'concat':
        parts = []
        pos = t.w
        for x in t.args:
            pos -= x.w
            l = max(lo, pos)
            h = min(hi, pos + x.w - 1)
            if l <= h:
                parts.append(extract(x, h - pos, l - pos))
        return concat(*parts)
    if is_undef(t):
        return undef(w)
    if t.op == 'ite' and (isc(t.args[1]) or isc(t.args[2])):
        return ite(t.args[0], extract(t.args[1], hi, lo), extract(t.args[2], hi, lo))
    if t.op in ('bvand', 'bvor', 'bvxor'):
        return bit(t.op, extract(t.args[0], hi, lo), extract(t.args[1], hi, lo))
    return mk('extract', w, (t,), (hi, lo))


def zext(t, w):
    if t.w == 0:
        return ite(t, const(1, w), const(0, w))
    if w == t.w:
        return t
    return concat(const(0, w - t.w), t)


def sext(t, w):
    if t.w == 0:
        return ite(t, const(-1, w), const(0, w))
    if w == t.w:
        return t
    if isc(t):
        return const(sval(t), w)
    if t.op == 'ite' and isc(t.args[1]) and isc(t.args[2]):
        return ite(t.args[0], sext(t.args[1], w), sext(t.args[2], w))
    return mk('sext', w, (t,))


def bv2bool(t):
    """1-bit vector -> Bool"""
    return eq(t, const(1, t.w))


def _cuts(t):
    c = []
    p = t.w
    for x in t.args:
        p -= x.w
        c.append(p)
    return c[:-1]


def bit(op, a, b):
    """bvand / bvor / bvxor"""
    w = a.w
    assert a.w == b.w, (a, b)
    if isc(a) and isc(b):
        v = {'bvand': a.data & b.data, 'bvor': a.data | b.data, 'bvxor': a.data ^ b.data}[op]
        return const(v, w)
    if isc(a):
        a, b = b, a
    ones = (1 << w) - 1
    if isc(b):
        if op == 'bvand':
            if b.data == 0:
                return b
            if b.data == ones:
                return a
        elif op == 'bvor':
            if b.data == 0:
                return a
            if b.data == ones:
                return b
        elif b.data == 0:
            return a
    if a is b:
        return const(0, w) if op == 'bvxor' else a
    # split at concat boundaries
    if a.op == 'concat' or b.op == 'concat':
        if (a.op == 'concat' and (isc(b) or b.op in ('concat', 'ite', 'var', 'bvand', 'bvor', 'bvxor', 'extract'))) or \
           (b.op == 'concat' and a.op in ('ite', 'var', 'bvand', 'bvor', 'bvxor', 'extract')) or True:
            cuts = sorted(set((_cuts(a) if a.op == 'concat' else []) + (_cuts(b) if b.op == 'concat' else [])), reverse=True)
            hi = w - 1
            parts = []
            for c in cuts + [0]:
                parts.append(bit(op, extract(a, hi, c), extract(b, hi, c)))
                hi = c - 1
            return concat(*parts)
    # push into ites with mask-like branches
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            c, p, q = x.args
            if y.op == 'ite' and y.args[0] is c:
                return ite(c, bit(op, p, y.args[1]), bit(op, q, y.args[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            c, p, q = x.args
            if isc(p) and isc(q) and (isc(y) or (_maskc(p) and _maskc(q))):
                return ite(c, bit(op, p, y), bit(op, q, y))
    if op == 'bvand':
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and _masktree(x, 6):
                c, p, q = x.args
                return ite(c, bit(op, p, y), bit(op, q, y))
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and op in ('bvor', 'bvand', 'bvxor'):
            c, p, q = x.args
            if (_maskc(p) or _maskc(q)) and op != 'bvxor':
                # or(ite(c,X,0), Y) -> ite(c, X|Y, Y): only when this cannot blow up
                if y.op == 'ite' or isc(y):
                    return ite(c, bit(op, p, under(y, c, True)), bit(op, q, under(y, c, False)))
            if isc(y) and (isc(p) or isc(q)):
                return ite(c, bit(op, p, y), bit(op, q, y))
    # and(and(x,c1),c2) etc
    if isc(b) and a.op == op and isc(a.args[1]):
        return bit(op, a.args[0], bit(op, a.args[1], b))
    if isc(b) and op == 'bvand' and a.op == 'bvor' and isc(a.args[1]):
        return bit('bvor', bit('bvand', a.args[0], b), bit('bvand', a.args[1], b))
    if isc(b) and op == 'bvand' and a.op == 'bvxor' and isc(a.args[1]):
        return bit('bvxor', bit('bvand', a.args[0], b), bit('bvand', a.args[1], b))
    if op == 'bvxor' and a.op == 'bvxor':
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    if op == 'bvxor' and b.op == 'bvxor':
        if b.args[0] is a:
            return b.args[1]
        if b.args[1] is a:
            return b.args[0]
    # xor of two masks ite(c,-1,0) ^ ite(d,-1,0)
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk(op, w, (a, b))


def _masktree(x, d):
    if isc(x):
        return _maskc(x)
    return d > 0 and x.op == 'ite' and _masktree(x.args[1], d - 1) and _masktree(x.args[2], d - 1)


def _maskc(t):
    return isc(t) and (t.data == 0 or t.data == (1 << t.w) - 1)


def bvnot(a):
    return bit('bvxor', a, const(-1, a.w))


def arith(op, a, b):
    """add sub mul shl lshr ashr udiv urem sdiv srem umin.. on bit-vectors"""
    w = a.w
    if isc(a) and isc(b):
        x, y = a.data, b.data
        if op == 'add':
            return const(x + y, w)
        if op == 'sub':
            return const(x - y, w)
        if op == 'mul':
            return const(x * y, w)
        if op == 'shl':
            return const(x << y if y < w else 0, w)
        if op == 'lshr':
            return const(x >> y if y < w else 0, w)
        if op == 'ashr':
            return const(sval(a) >> min(y, w), w)
        if op == 'udiv' and y:
            return const(x // y, w)
        if op == 'urem' and y:
            return const(x % y, w)
        if op in ('sdiv', 'srem') and y:
            sx, sy = sval(a), sval(b)
            q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            return const(q if op == 'sdiv' else sx - q * sy, w)
    if op == 'add':
        if isc(a):
            a, b = b, a
        if isc(b) and b.data == 0:
            return a
        if isc(b) and a.op == 'add' and isc(a.args[1]):
            return arith('add', a.args[0], const(a.args[1].data + b.data, w))
    if op == 'sub' and isc(b):
        return arith('add', a, const(-b.data, w))
    if op == 'mul':
        if isc(a):
            a, b = b, a
        if isc(b) and b.data == 1:
            return a
        if isc(b) and b.data == 0:
            return b
        if isc(b) and b.data & (b.data - 1) == 0:
            return arith('shl', a, const(b.data.bit_length() - 1, w))
    if op in ('shl', 'lshr', 'ashr') and isc(b):
        k = b.data
        if k == 0:
            return a
        if k < w:
            if op == 'shl':
                return concat(extract(a, w - 1 - k, 0), const(0, k))
            if op == 'lshr':
                return concat(const(0, k), extract(a, w - 1, k))
            if op == 'ashr':
                return sext(extract(a, w - 1, k), w)
    if op == 'udiv' and isc(b) and b.data and b.data & (b.data - 1) == 0:
        return arith('lshr', a, const(b.data.bit_length() - 1, w))
    if op == 'urem' and isc(b) and b.data and b.data & (b.data - 1) == 0:
        return bit('bvand', a, const(b.data - 1, w))
    for i, (x, y) in enumerate(((a, b), (b, a))):
        if x.op == 'ite' and isc(y) and isc(x.args[1]) and isc(x.args[2]):
            f = (lambda z: arith(op, z, y)) if i == 0 else (lambda z: arith(op, y, z))
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    if op in ('add', 'mul') and not isc(b) and a.id > b.id:
        a, b = b, a
    return mk(op, w, (a, b))


def eq(a, b):
    assert a.w == b.w, (a, b)
    if a is b:
        return TRUE
    if a.w == 0:
        return not_(xorb(a, b))
    if isc(a) and isc(b):
        return boolc(a.data == b.data)
    if isc(a):
        a, b = b, a
    if a.op == 'concat' and (isc(b) or b.op == 'concat'):
        cuts = sorted(set(_cuts(a) + (_cuts(b) if b.op == 'concat' else [])), reverse=True)
        hi = a.w - 1
        cs = []
        for c in cuts + [0]:
            cs.append(eq(extract(a, hi, c), extract(b, hi, c)))
            hi = c - 1
        return and_(*cs)
    if isc(b) and a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if isc(b) and a.op == 'add' and isc(a.args[1]):
        return eq(a.args[0], const(b.data - a.args[1].data, a.w))
    if isc(b) and a.op == 'sext':
        s = a.args[0]
        v = sval(b)
        if -(1 << (s.w - 1)) <= v < (1 << (s.w - 1)):
            return eq(s, const(v, s.w))
        return FALSE
    if isc(b) and a.op == 'bvxor' and isc(a.args[1]):
        return eq(a.args[0], const(b.data ^ a.args[1].data, a.w))
    if isc(b) and a.op == 'bvand' and isc(a.args[1]) and b.data & ~a.args[1].data:
        return FALSE
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk('eq', 0, (a, b))


def ult(a, b):
    if isc(a) and isc(b):
        return boolc(a.data < b.data)
    if isc(b) and b.data == 0:
        return FALSE
    if isc(a) and a.data == (1 << a.w) - 1:
        return FALSE
    if a is b:
        return FALSE
    # drop common high zero bits
    if a.op == 'concat' and isc(a.args[0]) and a.args[0].data == 0 and isc(b):
        k = a.w - a.args[0].w
        if b.data >> k:
            return TRUE
        return ult(extract(a, k - 1, 0), const(b.data, k))
    if b.op == 'concat' and isc(b.args[0]) and b.args[0].data == 0 and isc(a):
        k = b.w - b.args[0].w
        if a.data >> k:
            return FALSE
        return ult(const(a.data, k), extract(b, k - 1, 0))
    for i, (x, y) in enumerate(((a, b), (b, a))):
        if x.op == 'ite' and isc(y) and (isc(x.args[1]) and isc(x.args[2])):
            f = (lambda z: ult(z, y)) if i == 0 else (lambda z: ult(y, z))
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    return mk('ult', 0, (a, b))


def slt(a, b):
    if isc(a) and isc(b):
        return boolc(sval(a) < sval(b))
    if a is b:
        return FALSE
    if isc(b) and b.data == 0:
        return eq(extract(a, a.w - 1, a.w - 1), const(1, 1))
    if isc(a) and a.data == (1 << a.w) - 1:
        return eq(extract(b, b.w - 1, b.w - 1), const(0, 1))
    for i, (x, y) in enumerate(((a, b), (b, a))):
        if x.op == 'ite' and isc(y) and (isc(x.args[1]) and isc(x.args[2])):
            f = (lambda z: slt(z, y)) if i == 0 else (lambda z: slt(y, z))
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    return mk('slt', 0, (a, b))


def icmp(pred, a, b):
    if pred == 'eq':
        return eq(a, b)
    if pred == 'ne':
        return not_(eq(a, b))
    if a.w == 0:
        a, b = zext(a, 1), zext(b, 1)
    if pred == 'ult':
        return ult(a, b)
    if pred == 'ugt':
        return ult(b, a)
    if pred == 'ule':
        return not_(ult(b, a))
    if pred == 'uge':
        return not_(ult(a, b))
    if pred == 'slt':
        return slt(a, b)
    if pred == 'sgt':
        return slt(b, a)
    if pred == 'sle':
        return not_(slt(b, a))
    if pred == 'sge':
        return not_(slt(a, b))
    raise Exception(pred)


# ------------------------------------------------------------------ floats
# predicates kept: oeq olt ole ord and their negations une uge(=not olt) ugt(=not ole) uno
FNEG = {'oeq': 'une', 'une': 'oeq', 'olt': 'uge', 'uge': 'olt', 'ole': 'ugt', 'ugt': 'ole', 'ord': 'uno', 'uno': 'ord'}
FCANON = ('une', 'uge', 'ugt', 'uno')     # never used as ite conditions
ONE = 0x3F800000


def fcmp(pred, a, b):
    if pred == 'true':
        return TRUE
    if pred == 'false':
        return FALSE
    if pred == 'ogt':
        return fcmp('olt', b, a)
    if pred == 'oge':
        return fcmp('ole', b, a)
    if pred == 'ult':
        return not_(fcmp('ole', b, a))
    if pred == 'ule':
        return not_(fcmp('olt', b, a))
    if pred == 'one':
        return and_(fcmp('ord', a, b), fcmp('une', a, b))
    if pred == 'ueq':
        return or_(fcmp('uno', a, b), fcmp('oeq', a, b))
    if pred in ('ugt', 'uge', 'une', 'uno'):
        return not_(fcmp(FNEG[pred], a, b))
    if isc(a) and isc(b):
        return boolc(_fcmp_c(pred, a, b))
    if pred == 'olt' and a.op == 'fsqrt' and isc(b) and b.data & 0x7FFFFFFF == 0:
        return FALSE
    if a is b:
        if pred == 'olt':
            return FALSE
        # x == x, x <= x, ord(x,x): not NaN
        return mk('fcmp', 0, (a, a), 'ord')
    if pred == 'ord':
        if isc(a):
            a, b = b, a
        if isc(b):
            return FALSE if _isnan_c(b) else fcmp('ord', a, a)
    if pred in ('oeq', 'ord') and a.id > b.id:
        a, b = b, a
    if pred == 'ord' and a is not b:
        return and_(fcmp('ord', a, a), fcmp('ord', b, b))
    return mk('fcmp', 0, (a, b), pred)


def _isnan_c(t):
    if t.w == 32:
        return (t.data & 0x7FFFFFFF) > 0x7F800000
    return (t.data & 0x7FFFFFFFFFFFFFFF) > 0x7FF0000000000000


def _fcmp_c(pred, a, b):
    from . import fp
    x, y = fp.tofloat(a.data, a.w), fp.tofloat(b.data, b.w)
    return {'oeq': x == y, 'olt': x < y, 'ole': x <= y, 'ord': not (math.isnan(x) or math.isnan(y))}[pred]


COMM = {'fadd', 'fmul'}


def fop(op, *args, rm=None):
    """fadd fsub fmul fdiv fsqrt ffma fround[rm] on 32-bit patterns.  Folds constants (correctly
    rounded); NaN results are left symbolic because their payload is not specified."""
    w = args[0].w
    if all(isc(a) for a in args):
        from . import fp
        r = fp.fold(op, [a.data for a in args], w, rm)
        if r is not None:
            return const(r, w)
    if op == 'fsub' and args[0] is not None:
        pass
    if op in COMM:
        a, b = args
        # x*1.0: same value (NaN payload aside, which specifications ignore)
        if op == 'fmul' and w == 32:
            if isc(b) and b.data == ONE:
                return fq(a)
            if isc(a) and a.data == ONE:
                return fq(b)
        if a.id > b.id:
            a, b = b, a
        args = (a, b)
    if op == 'ffma' and args[0].id > args[1].id:
        args = (args[1], args[0], args[2])
    return mk(op, w, args, rm)


def fq(a):
    """value of `a` after passing through an arithmetic instruction (may quieten a NaN)."""
    return a


def fneg(a):
    return bit('bvxor', a, const(1 << (a.w - 1), a.w))


def fabs(a):
    return bit('bvand', a, const((1 << (a.w - 1)) - 1, a.w))


def app(name, w, *args):
    return mk('app', w, args, name)


# ------------------------------------------------------------------ traversal
def postorder(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def support(roots):
    return {t.data for t in postorder(roots) if t.op == 'var'}


def substitute(roots, m):
    """m: {term id: term}; rebuilds bottom-up with the simplifying constructors"""
    res = {}
    for t in postorder(roots):
        if t.id in m:
            res[t.id] = m[t.id]
        elif not t.args:
            res[t.id] = t
        else:
            res[t.id] = rebuild(t, [res[a.id] for a in t.args])
    return [res[r.id] for r in roots]


def rebuild(t, a):
    op = t.op
    if op == 'not':
        return not_(a[0])
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'xorb':
        return xorb(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'concat':
        return concat(*a)
    if op == 'extract':
        return extract(a[0], *t.data)
    if op == 'sext':
        return sext(a[0], t.w)
    if op in ('bvand', 'bvor', 'bvxor'):
        return bit(op, *a)
    if op == 'eq':
        return eq(*a)
    if op == 'ult':
        return ult(*a)
    if op == 'slt':
        return slt(*a)
    if op == 'fcmp':
        return fcmp(t.data, *a)
    if op in FOPS:
        return fop(op, *a, rm=t.data)
    if op == 'app':
        return mk('app', t.w, a, t.data)
    if op in CVT:
        return cvt(op, t.w, a[0], t.data)
    return arith(op, *a)


FOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'ffma', 'fround'}
CVT = {'sitofp', 'uitofp', 'fptosi_sat', 'fptoui_sat', 'cvttps2dq', 'cvtps2dq', 'fpext', 'fptrunc'}


def cvt(op, w, a, data=None):
    if isc(a):
        from . import fp
        r = fp.fold_cvt(op, a.data, a.w, w, data)
        if r is not None:
            return const(r, w)
    if op == 'sitofp' and nonneg(a):
        op = 'uitofp'
    return mk(op, w, (a,), data)


def nonneg(a):
    if a.op == 'concat':
        return isc(a.args[0]) and a.args[0].data >> (a.args[0].w - 1) == 0
    if a.op == 'bvand':
        return any(isc(x) and x.data >> (x.w - 1) == 0 for x in a.args)
    return False
