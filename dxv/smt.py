"""Lowering of term DAGs to z3 and the solver front end (with statistics)."""
import time
import z3
from . import terms as t

RM = {'RNE': z3.RNE, 'RTZ': z3.RTZ, 'RTN': z3.RTN, 'RTP': z3.RTP, 'RNA': z3.RNA}
F32 = z3.Float32()


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.by = {}

    def add(self, res, dt, kind):
        self.queries += 1
        self.time += dt
        k = str(res)
        if k == 'unsat':
            self.unsat += 1
        elif k == 'sat':
            self.sat += 1
        else:
            self.unknown += 1
        self.by[kind] = self.by.get(kind, 0) + 1


STATS = Stats()


class Lower:
    """mode 'uf': float operators uninterpreted (comparisons exact on bits); mode 'fp': IEEE semantics."""

    def __init__(self, mode='uf'):
        self.mode = mode
        self.memo = {}
        self.ufs = {}
        self.side = []
        self.nn = {}

    def uf(self, name, ws, w):
        k = (name, tuple(ws), w)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(f'{name}_{len(ws)}_{w}', *[z3.BitVecSort(x) for x in ws], z3.BitVecSort(w))
        return self.ufs[k]

    def __call__(self, root):
        for x in t.postorder([root]):
            if x.id not in self.memo:
                a = [self.memo[y.id] for y in x.args]
                r = self.memo[x.id] = self.one(x, a)
                if self.mode == 'uf':
                    self.axioms(x, r, a)
        return self.memo[root.id]

    def nonneg(self, x):
        """structurally never negative (NaN allowed)"""
        k = self.nn.get(x.id)
        if k is None:
            k = False
            if x.op == 'fmul':
                k = x.args[0] is x.args[1] or all(self.nonneg(y) for y in x.args)
            elif x.op == 'fprod' and x.data > 0:
                c = {}
                for y in x.args:
                    c[y.id] = (c.get(y.id, (0,))[0] + 1, y)
                k = all(n % 2 == 0 or self.nonneg(y) for n, y in c.values())
            elif x.op in ('fsum', 'fadd'):
                k = all(self.nonneg(y) for y in x.args)
            elif x.op == 'ffma':
                k = (x.args[0] is x.args[1] or all(self.nonneg(y) for y in x.args[:2])) and self.nonneg(x.args[2])
            elif x.op == 'fsqrt':
                k = True
            elif x.op == 'finv':
                k = self.nonneg(x.args[0])
            elif x.op == 'ite':
                k = all(self.nonneg(y) for y in x.args[1:])
            elif x.op == 'const':
                k = x.w == 32 and x.data <= 0x7F800000
            elif x.op == 'bvand':
                k = any(y.op == 'const' and y.data == 0x7FFFFFFF for y in x.args)
            self.nn[x.id] = k
        return k

    def axioms(self, x, r, a):
        """facts of IEEE arithmetic about the uninterpreted operators"""
        if x.w != 32:
            return
        if x.op == 'fsqrt':
            z = a[0]
            neg = z3.Extract(31, 31, z) == 1
            zero = (z & 0x7FFFFFFF) == 0
            inf = z3.BitVecVal(0x7F800000, 32)
            self.side.append(z3.If(zero, (r & 0x7FFFFFFF) == 0, z3.If(z3.Or(self.nan(z, 32), neg), self.nan(r, 32),
                             z3.If(z == inf, r == inf, z3.And(z3.UGT(r, 0), z3.ULT(r, inf))))))
        elif x.op in ('fmul', 'fprod') and a:
            fin = [z3.ULT(y & 0x7FFFFFFF, 0x7F800000) for y in a]
            self.side.append(z3.Implies(z3.And(*fin, z3.Or(*[(y & 0x7FFFFFFF) == 0 for y in a])), (r & 0x7FFFFFFF) == 0))
        elif x.op in ('fsum', 'fadd'):
            self.side.append(z3.Implies(z3.And(*[(y & 0x7FFFFFFF) == 0 for y in a]), (r & 0x7FFFFFFF) == 0))
        if x.op in ('fmul', 'fprod', 'fsum', 'fadd', 'ffma', 'finv') and self.nonneg(x):
            self.side.append(z3.Or(z3.ULE(r, 0x7F800000), r == 0x80000000, self.nan(r, 32)))

    def fp(self, b, w):
        if w == 32:
            return z3.fpBVToFP(b, z3.Float32())
        if w == 16:
            return z3.fpBVToFP(b, z3.Float16())
        return z3.fpBVToFP(b, z3.Float64())

    def frombv(self, f, w):
        """bits of an FP value; NaN canonical"""
        return z3.If(z3.fpIsNaN(f), z3.BitVecVal({32: 0x7FC00000, 64: 0x7FF8000000000000, 16: 0x7E00}[w], w), z3.fpToIEEEBV(f))

    def nan(self, b, w):
        k = {32: (0x7FFFFFFF, 0x7F800000), 64: (0x7FFFFFFFFFFFFFFF, 0x7FF0000000000000), 16: (0x7FFF, 0x7C00)}[w]
        return z3.UGT(b & k[0], z3.BitVecVal(k[1], w))

    def fcmp(self, p, a, b, w):
        if p in t.FCANON:
            return z3.Not(self.fcmp(t.FNEG[p], a, b, w))
        if p == 'ord':
            return z3.Not(z3.Or(self.nan(a, w), self.nan(b, w)))
        ordd = z3.And(z3.Not(self.nan(a, w)), z3.Not(self.nan(b, w)))
        m = (1 << (w - 1)) - 1
        zero = z3.And((a & m) == 0, (b & m) == 0)
        if p == 'oeq':
            return z3.And(ordd, z3.Or(a == b, zero))
        sa = z3.Extract(w - 1, w - 1, a) == 1
        sb = z3.Extract(w - 1, w - 1, b) == 1
        lt = z3.If(sa, z3.If(sb, z3.UGT(a, b), z3.Not(zero)), z3.If(sb, z3.BoolVal(False), z3.ULT(a, b)))
        if p == 'olt':
            return z3.And(ordd, lt)
        return z3.And(ordd, z3.Or(lt, a == b, zero))

    def one(self, x, a):
        op, w = x.op, x.w
        if op == 'const':
            return z3.BoolVal(bool(x.data)) if w == 0 else z3.BitVecVal(x.data, w)
        if op == 'var':
            return z3.Bool(x.data) if w == 0 else z3.BitVec(x.data, w)
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(*a)
        if op == 'or':
            return z3.Or(*a)
        if op == 'xorb':
            return z3.Xor(a[0], a[1])
        if op == 'ite':
            return z3.If(*a)
        if op == 'concat':
            return z3.Concat(*a)
        if op == 'extract':
            return z3.Extract(x.data[0], x.data[1], a[0])
        if op == 'sext':
            return z3.SignExt(w - x.args[0].w, a[0])
        if op == 'bvand':
            return a[0] & a[1]
        if op == 'bvor':
            return a[0] | a[1]
        if op == 'bvxor':
            return a[0] ^ a[1]
        if op == 'eq':
            return a[0] == a[1]
        if op == 'ult':
            return z3.ULT(a[0], a[1])
        if op == 'slt':
            return a[0] < a[1]
        if op == 'fcmp':
            return self.fcmp(x.data, a[0], a[1], x.args[0].w)
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            return {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q, 'shl': lambda p, q: p << q,
                    'lshr': z3.LShR, 'ashr': lambda p, q: p >> q, 'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](*a)
        ws = [y.w for y in x.args]
        if self.mode == 'fp' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'ffma', 'fround'):
            f = [self.fp(b, w) for b in a]
            rm = z3.RNE()
            r = {'fadd': lambda: z3.fpAdd(rm, *f), 'fsub': lambda: z3.fpSub(rm, *f), 'fmul': lambda: z3.fpMul(rm, *f), 'fdiv': lambda: z3.fpDiv(rm, *f),
                 'fsqrt': lambda: z3.fpSqrt(rm, *f), 'ffma': lambda: z3.fpFMA(rm, *f), 'fround': lambda: z3.fpRoundToIntegral(RM[x.data](), f[0])}[op]()
            return self.frombv(r, w)
        if self.mode == 'fp' and op in t.CVT:
            return self.cvt(x, a[0])
        name = op if op != 'app' else 'app_' + x.data
        if x.data is not None and op not in ('app',):
            name += '_' + str(x.data).replace('/', 'o').replace('-', 'm')
        if not ws:
            return z3.BitVec(name, w)
        return self.uf(name, ws, w)(*a)

    def cvt(self, x, b):
        op, w, wi = x.op, x.w, x.args[0].w
        if op == 'sitofp':
            return z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), b, F32))
        if op == 'uitofp':
            return z3.fpToIEEEBV(z3.fpUnsignedToFP(z3.RNE(), b, F32))
        if op == 'fpext':
            return self.frombv(z3.fpFPToFP(z3.RNE(), self.fp(b, wi), {32: z3.Float32(), 64: z3.Float64()}[w]), w)
        if op == 'fptrunc':
            return self.frombv(z3.fpFPToFP(RM[x.data or 'RNE'](), self.fp(b, wi), {32: z3.Float32(), 16: z3.Float16()}[w]), w)
        f = self.fp(b, wi)
        rm = z3.RNE() if op == 'cvtps2dq' else z3.RTZ()
        r = z3.fpRoundToIntegral(rm, f)
        signed = op != 'fptoui_sat'
        import struct
        lo = -(2.0 ** (w - 1)) if signed else 0.0
        hi = 2.0 ** (w - 1) if signed else 2.0 ** w
        flo, fhi = z3.FPVal(lo, F32), z3.FPVal(hi, F32)
        iv = z3.fpToSBV(z3.RTZ(), r, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), r, z3.BitVecSort(w))
        if op.startswith('cvt'):
            return z3.If(z3.And(z3.fpGEQ(r, flo), z3.fpLT(r, fhi)), iv, z3.BitVecVal(1 << (w - 1), w))
        top = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        bot = 1 << (w - 1) if signed else 0
        return z3.If(z3.fpIsNaN(f), z3.BitVecVal(0, w), z3.If(z3.fpGEQ(r, fhi), z3.BitVecVal(top, w), z3.If(z3.fpLT(r, flo), z3.BitVecVal(bot, w), iv)))


def isnan_t(x):
    return t.fcmp('uno', x, x)


def differ(a, b, mode):
    """Bool term: the two words differ under the comparison mode"""
    if mode == 'bits' or a.w != 32:
        return t.not_(t.eq(a, b))
    both_nan = t.and_(isnan_t(a), isnan_t(b))
    return t.not_(t.or_(t.eq(a, b), t.fcmp('oeq', a, b), both_nan))


def solve(conds, mode='uf', timeout=20000, kind='uf', want_model=True):
    """conds: list of Bool terms.  -> ('unsat'|'sat'|'unknown', {var: int})"""
    L = Lower(mode)
    s = z3.Solver() if mode == 'uf' else z3.SolverFor('QF_BVFP') if False else z3.Solver()
    s.set('timeout', timeout)
    for c in conds:
        s.add(L(c))
    for c in L.side:
        s.add(c)
    t0 = time.time()
    r = s.check()
    STATS.add(r, time.time() - t0, kind)
    m = {}
    if r == z3.sat and want_model:
        mod = s.model()
        names = t.support(conds)
        for d in mod.decls():
            if d.arity() == 0 and d.name() in names:
                v = mod[d]
                if z3.is_bv_value(v):
                    m[d.name()] = v.as_long()
                elif z3.is_true(v) or z3.is_false(v):
                    m[d.name()] = int(z3.is_true(v))
    return str(r), m


def prop_unsat(conds, timeout=5000, label='prop'):
    """unsatisfiable already when every comparison is an independent proposition (comparisons of equal terms are shared)"""
    m = {}
    for x in t.postorder(conds):
        if x.op == 'fcmp':
            k = x if x.data not in t.FCANON else t.not_(x)
            if k.id not in m:
                m[k.id] = t.var(f'c!{k.id}', 0)
                m[t.not_(k).id] = t.not_(m[k.id])
    if not m:
        return False
    res = {}
    for x in t.postorder(conds):
        if x.id in m:
            res[x.id] = m[x.id]
        elif not x.args:
            res[x.id] = x
        elif x.op in ('and', 'or', 'not', 'xorb', 'ite', 'eq') or x.w != 32:
            res[x.id] = t.rebuild(x, [res[z.id] for z in x.args])
        else:
            res[x.id] = x
    r, _ = solve([res[c.id] for c in conds], 'uf', timeout, label)
    return r == 'unsat'
