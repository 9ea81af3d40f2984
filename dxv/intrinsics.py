"""Semantics of the LLVM and x86 intrinsics the crate reaches (Intel SDM / LLVM LangRef)."""
from . import terms as t
from .terms import const, ite, fcmp, fop, and_, or_, not_, TRUE, FALSE, isc

LIBM = {}
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'exp2', 'log', 'log2', 'log10', 'cbrt', 'expm1', 'log1p'):
    LIBM[_n + 'f'] = _n
    LIBM[f'llvm.{_n}.f32'] = _n
for _n in ('pow', 'atan2', 'fmod', 'hypot'):
    LIBM[_n + 'f'] = _n
    LIBM[f'llvm.{_n}.f32'] = _n


def is_noop(n):
    if n.endswith('18precondition_check'):      # the standard library's checks of unsafe preconditions (debug builds): the obligations cover them
        return True
    return n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.sideeffect', 'llvm.x86.sse.sfence', 'llvm.prefetch', 'llvm.donothing'))


def is_panic(n):
    return 'panicking' in n or 'panic_' in n or 'slice_index' in n or n in ('llvm.trap', 'abort') or 'unwrap_failed' in n or 'expect_failed' in n


def lanewise(f):
    def g(v):
        if isinstance(v[0], tuple):
            n = len(v[0])
            return tuple(f(*[x[i] if isinstance(x, tuple) else x for x in v]) for i in range(n))
        return f(*v)
    return g


def mask(c):
    return ite(c, const(-1, 32), const(0, 32))


SSECMP = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord']
AVXCMP = SSECMP + ['ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true']


def cmpps(v):
    p = AVXCMP[v[2].data & 15]
    return tuple(mask(fcmp(p, a, b)) for a, b in zip(v[0], v[1]))


def cmpss(v):
    p = AVXCMP[v[2].data & 15]
    return (mask(fcmp(p, v[0][0], v[1][0])),) + tuple(v[0][1:])


def xmin(a, b):
    return ite(fcmp('olt', a, b), a, b)


def xmax(a, b):
    return ite(fcmp('olt', b, a), a, b)


def ss(f):
    return lambda v: (f(v[0][0], *[x[0] for x in v[1:]]),) + tuple(v[0][1:])


def dpps(v):
    a, b, imm = v[0], v[1], v[2].data
    z = const(0, 32)
    p = [fop('fmul', a[i], b[i]) if imm >> (4 + i) & 1 else z for i in range(4)]
    s = fadd0(fadd0(p[0], p[1]), fadd0(p[2], p[3]))
    return tuple(s if imm >> i & 1 else z for i in range(4))


def fadd0(a, b):
    return fop('fadd', a, b)


RM = {0: 'RNE', 1: 'RTN', 2: 'RTP', 3: 'RTZ'}


def roundps(v):
    imm = v[1].data
    rm = 'RNE' if imm & 4 else RM[imm & 3]
    return tuple(fop('fround', a, rm=rm) for a in v[0])


def vpermilvar(v):
    a, c = v
    out = []
    for lane in range(0, len(a), 4):
        for j in range(4):
            k = t.extract(c[lane + j], 1, 0)
            r = a[lane + 3]
            for i in (2, 1, 0):
                r = ite(t.eq(k, const(i, 2)), a[lane + i], r)
            out.append(r)
    return tuple(out)


def movmsk(v):
    bits = [t.extract(x, x.w - 1, x.w - 1) for x in v[0]]
    return t.zext(t.concat(*reversed(bits)), 32)


def blendv(v):
    a, b, m = v
    return tuple(ite(t.eq(t.extract(c, 31, 31), const(1, 1)), y, x) for x, y, c in zip(a, b, m))


def insertps(v):
    a, b, imm = list(v[0]), v[1], v[2].data
    a[imm >> 4 & 3] = b[imm >> 6 & 3]
    return tuple(const(0, 32) if imm >> i & 1 else a[i] for i in range(4))


def hadd(v):
    a, b = v
    return (fadd0(a[0], a[1]), fadd0(a[2], a[3]), fadd0(b[0], b[1]), fadd0(b[2], b[3]))


def comi(pred):
    def g(v):
        a, b = v[0][0], v[1][0]
        un = fcmp('uno', a, b)
        c = {'eq': lambda: and_(fcmp('oeq', a, b)), 'lt': lambda: fcmp('olt', a, b), 'le': lambda: fcmp('ole', a, b),
             'gt': lambda: fcmp('ogt', a, b), 'ge': lambda: fcmp('oge', a, b), 'neq': lambda: fcmp('une', a, b)}[pred]()
        return t.zext(c, 32)
    return g


def fpclass(x, m):
    m = m.data
    e = t.extract(x, 30, 23)
    mant = t.extract(x, 22, 0)
    neg = t.eq(t.extract(x, 31, 31), const(1, 1))
    e0, e1 = t.eq(e, const(0, 8)), t.eq(e, const(255, 8))
    m0 = t.eq(mant, const(0, 23))
    q = t.eq(t.extract(x, 22, 22), const(1, 1))
    nan = and_(e1, not_(m0))
    cls = [and_(nan, not_(q)), and_(nan, q), and_(e1, m0, neg), and_(not_(e0), not_(e1), neg), and_(e0, not_(m0), neg), and_(e0, m0, neg),
           and_(e0, m0, not_(neg)), and_(e0, not_(m0), not_(neg)), and_(not_(e0), not_(e1), not_(neg)), and_(e1, m0, not_(neg))]
    return or_(*[c for i, c in enumerate(cls) if m >> i & 1])


def umin(a, b):
    return ite(t.ult(a, b), a, b)


def umax(a, b):
    return ite(t.ult(a, b), b, a)


def smin(a, b):
    return ite(t.slt(a, b), a, b)


def smax(a, b):
    return ite(t.slt(a, b), b, a)


def minnum(a, b):
    return ite(fcmp('uno', a, a), b, ite(fcmp('uno', b, b), a, ite(fcmp('olt', a, b), a, b)))


def maxnum(a, b):
    return ite(fcmp('uno', a, a), b, ite(fcmp('uno', b, b), a, ite(fcmp('olt', b, a), a, b)))


def copysign(a, b):
    return t.bit('bvor', t.fabs(a), t.bit('bvand', b, const(1 << (b.w - 1), b.w)))


def cvtps2ph(v):
    a, imm = v[0], v[1].data
    rm = 'RNE' if imm & 4 else RM[imm & 3]
    if rm != 'RNE':
        return tuple(t.mk('fptrunc', 16, (x,), rm) for x in a) + tuple(const(0, 16) for _ in range(4))
    return tuple(t.cvt('fptrunc', 16, x) for x in a) + tuple(const(0, 16) for _ in range(4))


def usub_sat(a, b):
    return ite(t.ult(a, b), const(0, a.w), t.arith('sub', a, b))


def uadd_sat(a, b):
    s = t.arith('add', a, b)
    return ite(t.ult(s, a), const(-1, a.w), s)


def ctlz(a, *_):
    r = const(a.w, a.w)
    for i in range(a.w):
        r = ite(t.eq(t.extract(a, i, i), const(1, 1)), const(a.w - 1 - i, a.w), r)
    return r


def cttz(a, *_):
    r = const(a.w, a.w)
    for i in range(a.w - 1, -1, -1):
        r = ite(t.eq(t.extract(a, i, i), const(1, 1)), const(i, a.w), r)
    return r


def ctpop(a):
    r = const(0, a.w)
    for i in range(a.w):
        r = t.arith('add', r, t.zext(t.extract(a, i, i), a.w))
    return r


def fsh(left):
    def f(a, b, c):
        if not isc(c):
            return None
        k = c.data % a.w
        s = t.concat(a, b)
        if left:
            return t.extract(s, 2 * a.w - 1 - k, a.w - k)
        return t.extract(s, a.w - 1 + k, k)
    return f


def ovf(op, signed):
    def f(v):
        a, b = v
        w = a.w
        e = t.sext if signed else t.zext
        wide = t.arith(op, e(a, 2 * w), e(b, 2 * w))
        r = t.arith(op, a, b)
        return [r, not_(t.eq(e(r, 2 * w), wide))]
    return f


def iabs(a, *_):
    return ite(t.slt(a, const(0, a.w)), t.arith('sub', const(0, a.w), a), a)


EXACT = {
    'llvm.x86.sse.cmp.ps': cmpps, 'llvm.x86.sse.cmp.ss': cmpss, 'llvm.x86.avx.cmp.ps.256': cmpps,
    'llvm.x86.sse.min.ps': lanewise(xmin), 'llvm.x86.sse.max.ps': lanewise(xmax),
    'llvm.x86.sse.min.ss': ss(xmin), 'llvm.x86.sse.max.ss': ss(xmax),
    'llvm.x86.avx.min.ps.256': lanewise(xmin), 'llvm.x86.avx.max.ps.256': lanewise(xmax),
    'llvm.x86.sse41.dpps': dpps, 'llvm.x86.sse41.round.ps': roundps,
    'llvm.x86.sse41.round.ss': lambda v: (fop('fround', v[1][0], rm='RNE' if v[2].data & 4 else RM[v[2].data & 3]),) + tuple(v[0][1:]),
    'llvm.x86.sse2.cvttps2dq': lanewise(lambda a: t.cvt('cvttps2dq', 32, a)),
    'llvm.x86.sse2.cvtps2dq': lanewise(lambda a: t.cvt('cvtps2dq', 32, a)),
    'llvm.x86.sse.cvttss2si': lambda v: t.cvt('cvttps2dq', 32, v[0][0]),
    'llvm.x86.sse.cvtss2si': lambda v: t.cvt('cvtps2dq', 32, v[0][0]),
    'llvm.x86.sse.rcp.ps': lanewise(lambda a: t.app('rcp', 32, a)),
    'llvm.x86.sse.rsqrt.ps': lanewise(lambda a: t.app('rsqrt', 32, a)),
    'llvm.x86.sse.rcp.ss': lambda v: (t.app('rcp', 32, v[0][0]),) + tuple(v[0][1:]),
    'llvm.x86.sse.rsqrt.ss': lambda v: (t.app('rsqrt', 32, v[0][0]),) + tuple(v[0][1:]),
    'llvm.x86.avx.vpermilvar.ps': vpermilvar, 'llvm.x86.avx.vpermilvar.ps.256': vpermilvar,
    'llvm.x86.sse.movmsk.ps': movmsk, 'llvm.x86.sse41.blendvps': blendv, 'llvm.x86.sse41.insertps': insertps,
    'llvm.x86.sse3.hadd.ps': hadd, 'llvm.x86.vcvtps2ph.128': cvtps2ph,
    'llvm.x86.sse2.pmovmskb.128': lambda v: t.zext(t.concat(*[t.extract(x, 7, 7) for x in reversed(v[0])]), 32),
}
for _p in ('eq', 'lt', 'le', 'gt', 'ge', 'neq'):
    EXACT[f'llvm.x86.sse.comi{_p}.ss'] = comi(_p)
    EXACT[f'llvm.x86.sse.ucomi{_p}.ss'] = comi(_p)

PREFIX = [
    ('llvm.fma.', lanewise(lambda a, b, c: fop('ffma', a, b, c))),
    ('llvm.sqrt.', lanewise(lambda a: fop('fsqrt', a))),
    ('llvm.fabs.', lanewise(t.fabs)),
    ('llvm.floor.', lanewise(lambda a: fop('fround', a, rm='RTN'))),
    ('llvm.ceil.', lanewise(lambda a: fop('fround', a, rm='RTP'))),
    ('llvm.trunc.', lanewise(lambda a: fop('fround', a, rm='RTZ'))),
    ('llvm.rint.', lanewise(lambda a: fop('fround', a, rm='RNE'))),
    ('llvm.nearbyint.', lanewise(lambda a: fop('fround', a, rm='RNE'))),
    ('llvm.roundeven.', lanewise(lambda a: fop('fround', a, rm='RNE'))),
    ('llvm.round.', lanewise(lambda a: fop('fround', a, rm='RNA'))),
    ('llvm.copysign.', lanewise(copysign)),
    ('llvm.minnum.', lanewise(minnum)), ('llvm.maxnum.', lanewise(maxnum)),
    ('llvm.minimumnum.', lanewise(minnum)), ('llvm.maximumnum.', lanewise(maxnum)),
    ('llvm.fptosi.sat.i32', lanewise(lambda a: t.cvt('fptosi_sat', 32, a))),
    ('llvm.fptosi.sat.v4i32', lanewise(lambda a: t.cvt('fptosi_sat', 32, a))),
    ('llvm.fptoui.sat.i32', lanewise(lambda a: t.cvt('fptoui_sat', 32, a))),
    ('llvm.fptoui.sat.v4i32', lanewise(lambda a: t.cvt('fptoui_sat', 32, a))),
    ('llvm.fptosi.sat.i64', lanewise(lambda a: t.cvt('fptosi_sat', 64, a))),
    ('llvm.fptoui.sat.i64', lanewise(lambda a: t.cvt('fptoui_sat', 64, a))),
    ('llvm.umin.', lanewise(umin)), ('llvm.umax.', lanewise(umax)), ('llvm.smin.', lanewise(smin)), ('llvm.smax.', lanewise(smax)),
    ('llvm.is.fpclass.', lambda v: tuple(fpclass(x, v[1]) for x in v[0]) if isinstance(v[0], tuple) else fpclass(*v)),
    ('llvm.usub.sat.', lanewise(usub_sat)), ('llvm.uadd.sat.', lanewise(uadd_sat)),
    ('llvm.ctlz.', lanewise(ctlz)), ('llvm.cttz.', lanewise(cttz)), ('llvm.ctpop.', lanewise(ctpop)),
    ('llvm.fshl.', lanewise(fsh(True))), ('llvm.fshr.', lanewise(fsh(False))),
    ('llvm.abs.', lanewise(iabs)),
    ('llvm.uadd.with.overflow.', ovf('add', False)), ('llvm.sadd.with.overflow.', ovf('add', True)),
    ('llvm.usub.with.overflow.', ovf('sub', False)), ('llvm.ssub.with.overflow.', ovf('sub', True)),
    ('llvm.umul.with.overflow.', ovf('mul', False)), ('llvm.smul.with.overflow.', ovf('mul', True)),
    ('llvm.vector.reduce.and.', lambda v: _red('bvand', and_, v)),
    ('llvm.vector.reduce.or.', lambda v: _red('bvor', or_, v)),
    ('llvm.expect.', lambda v: v[0]),
]


def _red(op, bop, v):
    xs = list(v[0])
    if xs[0].w == 0:
        return bop(*xs)
    r = xs[0]
    for x in xs[1:]:
        r = t.bit(op, r, x)
    return r


def INTR(name):
    if name in EXACT:
        return EXACT[name]
    for p, h in PREFIX:
        if name.startswith(p):
            return h
    return None
