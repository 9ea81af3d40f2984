"""Specification language: builders over the same term DAG, written lane by lane on words.

A specification of a wrapper is a Python function of its structured arguments (V: 4 floats, M: 4 V, f: float,
u: word, S: list of words) that returns the expected outputs (nested lists; None = the lane is not specified)."""
from fractions import Fraction as Q
from . import fp
from . import terms as t
from .core import W


class F:
    """a float-valued (32-bit pattern) term with operators"""
    __slots__ = ('t',)

    def __init__(self, x):
        self.t = x

    def __add__(a, b): return F(t.fop('fadd', a.t, lift(b).t))
    def __sub__(a, b): return F(t.fop('fsub', a.t, lift(b).t))
    def __mul__(a, b): return F(t.fop('fmul', a.t, lift(b).t))
    def __truediv__(a, b): return F(t.fop('fdiv', a.t, lift(b).t))
    def __radd__(a, b): return lift(b) + a
    def __rsub__(a, b): return lift(b) - a
    def __rmul__(a, b): return lift(b) * a
    def __rtruediv__(a, b): return lift(b) / a
    def __neg__(a): return F(t.fneg(a.t))
    def __lt__(a, b): return t.fcmp('olt', a.t, lift(b).t)
    def __le__(a, b): return t.fcmp('ole', a.t, lift(b).t)
    def __gt__(a, b): return t.fcmp('olt', lift(b).t, a.t)
    def __ge__(a, b): return t.fcmp('ole', lift(b).t, a.t)
    def feq(a, b): return t.fcmp('oeq', a.t, lift(b).t)
    def fne(a, b): return t.not_(a.feq(b))
    def sqrt(a): return F(t.fop('fsqrt', a.t))
    def abs(a): return F(t.fabs(a.t))
    def rnd(a, rm): return F(t.fop('fround', a.t, rm=rm))
    def isnan(a): return t.fcmp('uno', a.t, a.t)
    def isinf(a): return t.eq(t.fabs(a.t), t.const(0x7F800000, 32))
    def bit(a, op, b): return F(t.bit(op, a.t, lift(b).t))
    def app(a, name, *o): return F(t.app(name, 32, a.t, *[lift(x).t for x in o]))
    def __repr__(a): return repr(a.t)


def fc(x):
    """binary32 constant nearest to the number x"""
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return F(t.const(0x7FC00000 if x != x else (0x7F800000 if x > 0 else 0xFF800000), 32))
    q = Q(x)
    b = fp.round_frac(q)
    if q == 0 and str(x).startswith('-'):
        b = 0x80000000
    return F(t.const(b, 32))


def lift(x):
    if isinstance(x, F):
        return x
    if isinstance(x, t.T):
        return F(x)
    return fc(x)


def u(v):
    return F(t.const(v, 32))


ONES = u(0xFFFFFFFF)
ZERO = u(0)
and_, or_, not_ = t.and_, t.or_, t.not_


def ite(c, a, b):
    if isinstance(a, (V, list, tuple)):
        return V([ite(c, x, y) for x, y in zip(a, b)])
    return F(t.ite(c, lift(a).t, lift(b).t))


def mask(c):
    return F(t.ite(c, ONES.t, ZERO.t))


def b2u(c):
    return F(t.ite(c, t.const(1, 32), ZERO.t))


def ieq(a, b):
    return t.eq(lift(a).t, b.t if isinstance(b, F) else t.const(b, 32))


def iult(a, b):
    return t.ult(lift(a).t, b.t if isinstance(b, F) else t.const(b, 32))


def imin(a, b):
    """the smaller; the second operand when unordered or equal (as minps and `if a < b {a} else {b}`)"""
    return ite(a < b, a, b)


def imax(a, b):
    return ite(a > b, a, b)


class V(list):
    """vector with elementwise operators (scalars broadcast)"""

    def _b(a, b):
        return b if isinstance(b, (V, list, tuple)) else [lift(b)] * len(a)

    def __add__(a, b): return V([x + y for x, y in zip(a, a._b(b))])
    def __sub__(a, b): return V([x - y for x, y in zip(a, a._b(b))])
    def __mul__(a, b): return V([x * y for x, y in zip(a, a._b(b))])
    def __truediv__(a, b): return V([x / y for x, y in zip(a, a._b(b))])
    def __radd__(a, b): return V([y + x for x, y in zip(a, a._b(b))])
    def __rsub__(a, b): return V([y - x for x, y in zip(a, a._b(b))])
    def __rmul__(a, b): return V([y * x for x, y in zip(a, a._b(b))])
    def __rtruediv__(a, b): return V([y / x for x, y in zip(a, a._b(b))])
    def __neg__(a): return V([-x for x in a])
    def map(a, f): return V([f(x) for x in a])
    def abs(a): return V([x.abs() for x in a])
    def __getitem__(a, k):
        r = list.__getitem__(a, k)
        return V(r) if isinstance(k, slice) else r


def vmap(f, *vs):
    return V([f(*xs) for xs in zip(*vs)])


def splat(x, n=4):
    return V([lift(x)] * n)


def asum(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def dot(a, b, n=None):
    n = n or min(len(a), len(b))
    return asum([a[k] * b[k] for k in range(n)])


def cross(a, b):
    return V([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def args_of(name, words):
    w = W[name]
    out = []
    for e in w['lin']:
        k, off = e[1], e[2]
        x = [F(a) for a in words]
        if k == 'V':
            out.append(V(x[off:off + 4]))
        elif k == 'M':
            out.append([V(x[off + 4 * r:off + 4 * r + 4]) for r in range(4)])
        elif k in ('f', 'u'):
            out.append(x[off])
        else:
            out.append(V(x[off:off + e[3]]))
    return out


def flat(r):
    if r is None:
        return [None]
    if isinstance(r, F):
        return [r.t]
    if isinstance(r, t.T):
        assert r.w == 32
        return [r]
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in flat(x)]
    if isinstance(r, (int, float, Q)):
        return [lift(r).t]
    raise TypeError(r)


class Entry:
    """one claim: wrapper `name` computes fn(args) under pre(args), compared in `mode`"""

    def __init__(self, prop, name, fn, mode, pre=None, cfgs=None, label=None, gen=None, needs_call=False, nonfinite=None, alts=(), slack=4,
                 dom=None, note=None, pieces=None, eqw=None, nonan=False, shallow=False, split=None):
        self.split = split            # conditions (of the arguments) to decide the claim separately for
        self.shallow = shallow        # known to be out of reach of the quick tier's deep search
        self.nonan = nonan            # the claim is restricted to inputs on which no intermediate result is NaN
        self.prop, self.name, self.fn, self.mode, self.pre, self.cfgs = prop, name, fn, mode, pre, cfgs
        self.label = label or name
        self.gen = gen
        self.needs_call = needs_call
        self.nonfinite = nonfinite if nonfinite is not None else (mode in ('bits', 'num'))
        self.alts = alts
        self.slack = slack
        self.dom = dom
        self.note = note
        self.pieces = pieces
        self.eqw = eqw or {}          # input word -> the earlier input word it is bit-identical to (part of the precondition)

    def modes(self, n):
        return [self.mode] * n if isinstance(self.mode, str) else list(self.mode)


class Real:
    """the real lower-level functions (in the same configuration), for specifications phrased relative to them"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, name, *args):
        r = self.ctx.call(name, flat(list(args)))
        w = W[name]
        outs = []
        for e in w['lout']:
            k, off = e[1], e[2]
            if k == 'V':
                outs.append(V([F(x) for x in r[off:off + 4]]))
            elif k == 'M':
                outs.append([V([F(x) for x in r[off + 4 * q:off + 4 * q + 4]]) for q in range(4)])
            elif k in 'fu':
                outs.append(F(r[off]))
            else:
                outs.append(V([F(x) for x in r[off:off + e[3]]]))
        return outs[0] if len(outs) == 1 else outs


REG = {}          # property -> [Entry]
PRE = {}          # wrapper -> documented precondition (args) -> Bool term


def add(prop, name, fn, mode='num', **kw):
    assert name in W, name
    e = Entry(prop, name, fn, mode, **kw)
    if e.pre is None and name in PRE:
        e.pre = PRE[name]
    REG.setdefault(prop, []).append(e)
    return e


def pre(name, fn):
    PRE[name] = fn


def spec(prop, *names, mode='num', **kw):
    def deco(fn):
        for n in names:
            add(prop, n, fn, mode, **kw)
        return fn
    return deco


CUSTOM = {}       # property -> [custom check objects with .label, .cfgs, .run(ctx, rng, tier)]
META = {}         # property -> {'cfgs', 'bounds', 'assumptions'}
PARTS = {}


class Custom:
    def __init__(self, label, run, cfgs=None):
        self.label, self._run, self.cfgs = label, run, cfgs

    def run(self, ctx, rng, tier):
        return self._run(ctx, rng, tier)


def custom(prop, label, cfgs=None):
    def deco(fn):
        CUSTOM.setdefault(prop, []).append(Custom(label, fn, cfgs))
        return fn
    return deco
