"""Decides one claim (Entry) in one configuration.

T1  solver query over all bit patterns (floats uninterpreted, tolerant claims after AC normalisation; comparison claims exact)
T2  a satisfiable T1 is concretised and replayed against the compiled code: only a native mismatch is a violation
T3  not confirmed: exact floating-point theory, case splitting, expanded normal form, real arithmetic
"""
import random
import time
import traceback
import numpy as np
from . import build, evalc, fp, native, smt
from . import terms as t
from .core import W
from .evalnp import evalnp
from .norm import Norm
from .poly import PolyNorm, TooBig
from .real import solve_real
from .sweep import sweep
from .spec import F, Real, V, args_of, flat

PANICS = ('panic', 'unreachable', 'oob', 'ub', 'div0', 'abort')


class Verdict:
    def __init__(self, entry, cfg):
        self.name, self.label, self.cfg, self.mode = entry.name, entry.label, cfg, entry.mode
        self.status = None
        self.how = None
        self.cex = None
        self.why = None
        self.lanes = []
        self.time = 0.0
        self.ninst = 0
        self.called = []
        self.tv = 0


def floats_in(name):
    """per input word: 'f' or 'u' """
    k = []
    for e in W[name]['lin']:
        n = {'V': 4, 'M': 16, 'f': 1, 'u': 1}.get(e[1], e[3] if len(e) > 3 else 1)
        k += (['u'] if e[1] == 'u' else ['f']) * n
    return k


SPECIALS = [0, 0x80000000, 0x3F800000, 0xBF800000, 0x40000000, 0xC0000000, 0x3F000000, 0xBF000000, 0x00000001, 0x80000001, 0x007FFFFF, 0x00800000, 0x80800000,
            0x7F7FFFFF, 0xFF7FFFFF, 0x4B000000, 0xCB000000, 0x4AFFFFFF, 0x4B800000, 0x4F000000, 0xCF000000, 0x4F7FFFFF, 0x4F800000, 0x4EFFFFFF, 0x3FC90FDB, 0x40490FDB,
            0x40C90FDB, 0x40200000, 0xC0200000, 0x3FC00000, 0xBFC00000, 0x34000000, 0x33FFFFFF, 0x3F7FFFFF, 0x3F800001]
NONFIN = [0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00000, 0x7F800001, 0x7FFFFFFF, 0xFFFFFFFF, 0x7FA00000]


def harvest(roots):
    out = set()
    for x in t.postorder(roots):
        if x.op == 'const' and x.w == 32:
            out.add(x.data)
        if x.op == 'fprod' and x.data:
            pass
    return sorted(out)


def candidates(entry, roots, rng, n):
    """uint32 array [n, nin] of structured inputs"""
    name = entry.name
    kinds = floats_in(name)
    nin = len(kinds)
    r = np.random.default_rng(rng.randrange(1 << 30))
    if nin == 0:
        return np.zeros((1, 0), dtype=np.uint32)
    X = np.zeros((n, nin), dtype=np.uint32)
    f32 = lambda a: np.ascontiguousarray(a, dtype=np.float32).view(np.uint32)
    strat = r.integers(0, 8, size=n)
    lat = f32(r.integers(-4, 5, size=(n, nin)).astype(np.float32))
    half = f32(r.integers(-16, 17, size=(n, nin)) / 4.0)
    uni = f32(r.uniform(-1, 1, size=(n, nin)))
    ten = f32(r.uniform(-10, 10, size=(n, nin)))
    logu = f32(np.ldexp(r.uniform(-2, 2, size=(n, nin)), r.integers(-30, 31, size=(n, nin))))
    anyb = r.integers(0, 1 << 32, size=(n, nin), dtype=np.uint64).astype(np.uint32)
    hv = np.array([c for c in harvest(roots)] + SPECIALS, dtype=np.uint32)
    jit = r.integers(-2, 3, size=(n, nin)).astype(np.int64)
    hc = ((hv[r.integers(0, len(hv), size=(n, nin))].astype(np.int64) + np.where(r.random((n, nin)) < 0.5, 0, jit)) & 0xFFFFFFFF).astype(np.uint32)
    hc = np.where(r.random((n, nin)) < 0.3, hc ^ np.uint32(0x80000000), hc)
    sp = np.array(SPECIALS + NONFIN, dtype=np.uint32)[r.integers(0, len(SPECIALS) + len(NONFIN), size=(n, nin))]
    pools = [lat, half, uni, ten, logu, anyb, hc, sp]
    for k in range(8):
        X = np.where((strat == k)[:, None], pools[k], X)
    # mix: some words from another pool
    mixp = r.choice([0, 0, 0.15, 0.5], size=n)[:, None]
    m = r.random((n, nin)) < mixp
    alt = np.choose(r.integers(0, 8, size=(n, nin)), pools)
    X = np.where(m, alt, X)
    # copies of other words (equal or negated or one step away)
    cp = (r.random((n, nin)) < 0.12) & (r.random(n) < 0.5)[:, None]
    src = r.integers(0, nin, size=(n, nin))
    Y = np.take_along_axis(X, src, axis=1)
    neg = r.random((n, nin))
    Y = np.where(neg < 0.25, Y ^ np.uint32(0x80000000), np.where(neg < 0.4, Y + np.uint32(1), Y))
    X = np.where(cp, Y, X)
    # aligned copies: whole argument equal to another argument
    args = [(e[2], {'V': 4, 'M': 16, 'f': 1, 'u': 1}.get(e[1], e[3] if len(e) > 3 else 1)) for e in W[name]['lin']]
    if len(args) > 1:
        for k in range(len(args)):
            for j in range(k):
                if args[k][1] == args[j][1] and args[k][1] > 1:
                    rows = r.random(n) < 0.06
                    X[rows, args[k][0]:args[k][0] + args[k][1]] = X[rows, args[j][0]:args[j][0] + args[j][1]]
    X = X.astype(np.uint32)
    if not entry.nonfinite:
        bad = (X & np.uint32(0x7FFFFFFF)) >= np.uint32(0x7F800000)
        X = np.where(bad, lat, X)
        big = (X & np.uint32(0x7FFFFFFF)) >= np.uint32(0x60000000)
        X = np.where(big & (r.random((n, nin)) < 0.9), uni, X)
    for k, kd in enumerate(kinds):
        if kd == 'u':
            c = r.integers(0, 4, size=n)
            small = r.integers(0, 9, size=n).astype(np.uint32)
            mid = r.integers(0, 40, size=n).astype(np.uint32)
            X[:, k] = np.choose(c, [small, small, mid, anyb[:, k]])
    if entry.gen is not None:
        g = entry.gen(r, n)
        rows = r.random(n) < 0.75
        X = np.where(rows[:, None], g, X)
    for k, j in entry.eqw.items():
        X[:, k] = X[:, j]
    return np.ascontiguousarray(X, dtype=np.uint32)


class Judge:
    """compares native outputs with the specification on concrete inputs"""

    def __init__(self, entry, exps, pre, nout, modes):
        self.e, self.exps, self.pre, self.nout, self.modes = entry, exps, pre, nout, modes

    def env(self, words):
        return {**{f'o{k}': 0xA5A5A5A5 for k in range(self.nout)}, **{f'i{k}': int(w) for k, w in enumerate(words)}}

    def preok(self, words):
        if any(int(words[k]) != int(words[j]) for k, j in self.e.eqw.items()):
            return False
        if self.pre is t.TRUE:
            return True
        return bool(evalc.eval_bits([self.pre], self.env(words))[0])

    def lane_ok(self, k, o, got, mode):
        if mode == 'bits':
            return o is None or (o == got if isinstance(o, int) else evalc.accepts(o, got, 'num'))
        return evalc.accepts(o, got, mode, self.e.slack)

    def check(self, words, got):
        """-> None if accepted, else (lane, expected description, got)"""
        if not self.preok(words):
            return None
        env = self.env(words)
        res = []
        for exp in self.exps:
            roots = [x for x in exp if x is not None]
            exact = [k for k, m in enumerate(self.modes) if m in ('bits', 'num') and exp[k] is not None]
            tol = [k for k, m in enumerate(self.modes) if m not in ('bits', 'num') and exp[k] is not None]
            o = {}
            if exact:
                for k, v in zip(exact, evalc.eval_bits([exp[k] for k in exact], env)):
                    o[k] = v
            if tol:
                for k, v in zip(tol, evalc.eval_oracle([exp[k] for k in tol], env)):
                    o[k] = v
            res.append(o)
        for k in range(self.nout):
            if self.exps[0][k] is None:
                continue
            if not any(self.lane_ok(k, o[k], got[k], self.modes[k]) for o in res if k in o):
                return k, [repr(o.get(k)) for o in res], got[k]
        return None


def close(a, b, mode):
    """vectorised: lanes that look acceptable (a: native, b: spec evaluated in machine arithmetic)"""
    if mode in ('bits', 'disc'):
        return a == b
    x, y = a.view(np.float32), b.view(np.float32)
    eq = (a == b) | (x == y) | (np.isnan(x) & np.isnan(y))
    if mode == 'num':
        return eq
    with np.errstate(all='ignore'):
        d = np.abs(x.astype(np.float64) - y.astype(np.float64))
        rel = {'tol': 3e-7, 'real': 3e-7, 'est': 2e-3}.get(mode, 3e-7)
        return eq | (d <= rel * np.maximum(np.abs(x), np.abs(y)).astype(np.float64) + 1e-44)


def setup(entry, ctx):
    enc = ctx.encode(entry.name)
    return enc, specify(entry, ctx)


def specify(entry, ctx, words=None):
    w = W[entry.name]
    words = words or [t.var(f'i{k}', 32) for k in range(w['nin'])]
    args = args_of(entry.name, words)
    kw = {'real': Real(ctx)} if entry.needs_call else {}
    exps = []
    for fn in (entry.fn, *entry.alts):
        e = flat(fn(*args, **kw))
        assert len(e) == w['nout'], (entry.name, len(e), w['nout'])
        exps.append(e)
    pre = entry.pre(*args) if entry.pre else t.TRUE
    if not entry.nonfinite:
        pre = t.and_(pre, *[t.ult(t.bit('bvand', x, t.const(0x7FFFFFFF, 32)), t.const(0x7F800000, 32)) for x, k in zip(words, floats_in(entry.name)) if k == 'f'])
    return exps, pre, entry.modes(w['nout'])


def search(entry, ctx, J, roots, rng, n, enc=None, extra_rows=(), budget=250, deadline=None):
    """candidate inputs replayed natively; -> confirmed counterexample or None, number of native runs"""
    so = build.so_path(ctx.cfg)
    w = W[entry.name]
    X = candidates(entry, roots, rng, n)
    if len(extra_rows):
        ex = np.array(extra_rows, dtype=np.uint32).reshape(len(extra_rows), w['nin'])
        X = np.concatenate([ex, X])
    n = len(X)
    env = {f'i{k}': np.ascontiguousarray(X[:, k]) for k in range(w['nin'])}
    if J.pre is not t.TRUE:
        p = evalnp([J.pre], env, n)[0]
        if p is not None:
            X = np.ascontiguousarray(X[p])
            n = len(X)
            if n == 0:
                return None, 0
            env = {f'i{k}': np.ascontiguousarray(X[:, k]) for k in range(w['nin'])}
    env.update({f'o{k}': np.full(n, 0xA5A5A5A5, dtype=np.uint32) for k in range(w['nout'])})
    out, alive, died = native.run_many(so, 'h_' + entry.name, X, w['nout'])
    for row, sig in died.items():
        if J.preok(X[row]):
            return {'words': [int(x) for x in X[row]], 'died': sig, 'lane': None, 'expected': None, 'got': None}, n
    okrows = np.ones(n, dtype=bool)
    score = np.zeros(n)
    for k in range(w['nout']):
        if J.exps[0][k] is None:
            continue
        okk = np.zeros(n, dtype=bool)
        for exp in J.exps:
            s = evalnp([exp[k]], env, n)[0]
            if s is None:
                continue
            okk |= close(np.ascontiguousarray(out[:, k]), np.ascontiguousarray(s), J.modes[k])
            x, y = out[:, k].copy().view(np.float32).astype(np.float64), s.view(np.float32).astype(np.float64)
            with np.errstate(all='ignore'):
                sc = np.abs(x - y) / np.maximum(np.maximum(np.abs(x), np.abs(y)), 1e-30)
            if J.modes[k] == 'disc':
                sc = np.ones(n)
            score = np.maximum(score, np.where(okk, 0, np.nan_to_num(sc, nan=1.0, posinf=1.0)))
        okrows &= okk
    sus = np.nonzero(~okrows & alive)[0]
    order = list(sus[np.argsort(-score[sus])])
    if len(order) > budget:
        rng2 = random.Random(1)
        order = order[:budget // 2] + rng2.sample(order[budget // 2:], budget - budget // 2)
    for row in order:
        if deadline and time.time() > deadline:
            break
        try:
            bad = J.check(X[row], [int(x) for x in out[row]])
        except evalc.Unknown:
            continue
        if bad:
            return {'words': [int(x) for x in X[row]], 'lane': bad[0], 'expected': bad[1], 'got': bad[2], 'out': [int(x) for x in out[row]]}, n
    return None, n


def boundary(entry, ctx, J, roots, rng, n, lanes, seconds):
    """Discrete answers: walks across the boundary of the specified answer (bisection along a line in input space) and replays the code on both sides.
    -> confirmed counterexample or None"""
    so = build.so_path(ctx.cfg)
    w = W[entry.name]
    nin = w['nin']
    end = time.time() + seconds
    r = np.random.default_rng(rng.randrange(1 << 30))
    blocks = []
    for e in w['lin']:
        k = e[2]
        ln = {'V': 4, 'f': 1}.get(e[1], e[3] if e[1] == 'S' and len(e) > 3 else 0)
        if ln >= 3:
            blocks += [(k, 3)] * 4
        blocks += [(k + q, 1) for q in range(ln)]
    if not blocks:
        return None

    def ev(ts, X):
        m = len(X)
        env = {f'i{k}': np.ascontiguousarray(X[:, k]) for k in range(nin)}
        env.update({f'o{k}': np.full(m, 0xA5A5A5A5, dtype=np.uint32) for k in range(w['nout'])})
        return [None if y is None else np.broadcast_to(y, (m,)) for y in evalnp(ts, env, m)]

    spec_terms = [J.exps[0][k] for k in lanes]

    def spec(X):
        ys = ev([J.pre] + spec_terms, X)
        if any(y is None for y in ys[1:]):
            return None, None
        ok = np.ones(len(X), dtype=bool) if ys[0] is None else ys[0].astype(bool)
        key = np.zeros(len(X), dtype=np.uint64)
        for y in ys[1:]:
            key = key * np.uint64(1000003) + y.astype(np.uint64)
        return ok, key

    while time.time() < end:
        X = candidates(entry, roots, rng, n)
        ok, key = spec(X)
        if ok is None:
            return None
        X, key = X[ok], key[ok]
        m = len(X)
        if m < 8:
            return None
        # a direction per row: one block of words moves
        D = np.zeros((m, nin))
        bi = r.integers(0, len(blocks), size=m)
        g = r.standard_normal((m, 3))
        g /= np.linalg.norm(g, axis=1)[:, None]
        for q, (o, ln) in enumerate(blocks):
            rows = np.nonzero(bi == q)[0]
            for c in range(ln):
                D[rows, o + c] = g[rows, c] if ln == 3 else np.sign(g[rows, 0])
        XF = X.view(np.float32).astype(np.float64)
        mov = D != 0

        def at(sv, rows):
            Y = X[rows].copy()
            with np.errstate(all='ignore'):
                F = (XF[rows] + sv[:, None] * D[rows]).astype(np.float32).view(np.uint32)
            return np.ascontiguousarray(np.where(mov[rows], F, Y))

        lo = np.zeros(m)
        hi = np.full(m, np.nan)
        allr = np.arange(m)
        for sv in (0.05, 0.15, 0.4, 0.8, 1.5, 3.0, 6.0, 12.0, 30.0):
            op = np.nonzero(np.isnan(hi))[0]
            if len(op) == 0:
                break
            ok, kk = spec(at(np.full(len(op), sv), op))
            fl = ok & (kk != key[op])
            hi[op[fl]] = sv
            same = ok & (kk == key[op])
            lo[op[same]] = sv
        rows = np.nonzero(~np.isnan(hi))[0]
        if len(rows) == 0:
            continue
        for _ in range(12):
            mid = (lo[rows] + hi[rows]) / 2
            ok, kk = spec(at(mid, rows))
            eq = kk == key[rows]
            lo[rows[eq]] = mid[eq]
            hi[rows[~eq]] = mid[~eq]
        base = (lo[rows] + hi[rows]) / 2
        tests = []
        for f in (0.004, 0.03, 0.12, 0.4):
            dlt = f * np.maximum(base, 0.3)
            tests += [at(base - dlt, rows), at(base + dlt, rows)]
        T = np.concatenate(tests)
        ok, kk = [], []
        for q in range(0, len(T), n):
            a, b = spec(T[q:q + n])
            ok.append(a)
            kk.append(b)
        ok = np.concatenate(ok)
        T = np.ascontiguousarray(T[ok])
        if len(T) == 0:
            continue
        kk = np.concatenate(kk)[ok]
        out, alive, died = native.run_many(so, 'h_' + entry.name, T, w['nout'])
        for row, sig in died.items():
            if J.preok(T[row]):
                return {'words': [int(x) for x in T[row]], 'died': sig, 'lane': None, 'expected': None, 'got': None}
        gk = np.zeros(len(T), dtype=np.uint64)
        for k in lanes:
            gk = gk * np.uint64(1000003) + out[:, k].astype(np.uint64)
        bad = list(np.nonzero((gk != kk) & alive)[0])
        r.shuffle(bad)
        for row in bad[:60]:
            if time.time() > end + 20:
                break
            try:
                b = J.check(T[row], [int(x) for x in out[row]])
            except evalc.Unknown:
                continue
            if b:
                return {'words': [int(x) for x in T[row]], 'lane': b[0], 'expected': b[1], 'got': b[2], 'out': [int(x) for x in out[row]]}
    return None


def validate(entry, ctx, enc, rng, n):
    """translation validation: native outputs equal the encoding evaluated with machine semantics"""
    w = W[entry.name]
    so = build.so_path(ctx.cfg)
    X = candidates(entry, [], rng, n)
    n = len(X)
    env = {f'i{k}': np.ascontiguousarray(X[:, k]) for k in range(w['nin'])}
    env.update({f'o{k}': np.full(n, 0xA5A5A5A5, dtype=np.uint32) for k in range(w['nout'])})
    ob = t.or_(*[o.cond for o in enc.obls if o.kind != 'feature']) if enc.obls else t.FALSE
    outs = enc.outs
    if outs is None:
        return 0, None
    hasapp = {}
    p = evalnp([ob], env, n)[0]
    ok = ~p if p is not None else np.zeros(n, dtype=bool)
    X = np.ascontiguousarray(X[ok])
    n = len(X)
    if n == 0:
        return 0, None
    got, alive, died = native.run_many(so, 'h_' + entry.name, X, w['nout'])
    if died:
        row = next(iter(died))
        return n, ('died', [int(x) for x in X[row]])
    for row in range(n):
        e = {f'i{k}': int(X[row, k]) for k in range(w['nin'])}
        e.update({f'o{k}': 0xA5A5A5A5 for k in range(w['nout'])})
        try:
            ev = evalc.eval_bits(outs, e)
        except evalc.Unknown:
            continue
        for k, v in enumerate(ev):
            if v is None or t.is_undef(outs[k]):
                continue
            g = int(got[row, k])
            if v != g and not (fp.isnan(v) and fp.isnan(g)):
                if any(t.is_undef(x) for x in t.postorder([outs[k]])):
                    continue
                return n, ('mismatch', [int(x) for x in X[row]], k, v, g)
    return n, None


_pairs = {}
_fpmemo = {}


def fp_lane(c, mode, timeout):
    """exact floating-point decision of one lane; shared float subterms are generalised to arbitrary words first"""
    k, pre, cond, asg, impl, es, _ = c
    shared = {x.id for x in t.postorder([impl])}
    for e in es:
        shared &= {x.id for x in t.postorder([e])}
    cut = {}
    stack = [impl, *es, pre]
    seen = set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.id in shared and x.w == 32 and x.op not in ('const', 'var') and (x.op in t.FOPS or x.op in ('app', 'ite') or x.op in t.CVT):
            cut[x.id] = t.var(f'cut{x.id}', 32)
            continue
        stack.extend(x.args)
    # one lane at a time: rename the lane's variables so that equal lanes share the query
    if cut:
        s = t.substitute([pre, impl, *es], cut)
        d = t.and_(*[smt.differ(s[1], e, mode) for e in s[2:]])
        kk = ('cut', canon([s[0], d]))
        if kk not in _fpmemo:
            _fpmemo[kk] = smt.solve([s[0], d], 'fp', timeout, 'fp-cut')
        if _fpmemo[kk][0] == 'unsat':
            return _fpmemo[kk]
    # quotients and roots as arbitrary words: enough when a mask decides the lane
    hard = {x.id: t.var(f'cut{x.id}', 32) for x in t.postorder([pre, cond]) if x.op in ('fdiv', 'fsqrt') and x.w == 32}
    if hard:
        s = t.substitute([pre, cond], hard)
        kk = ('hard', canon(s))
        if kk not in _fpmemo:
            _fpmemo[kk] = smt.solve(s, 'fp', min(timeout, 20000), 'fp-cut')
        if _fpmemo[kk][0] == 'unsat':
            return _fpmemo[kk]
    kk = ('full', canon([pre, cond]))
    if kk not in _fpmemo:
        _fpmemo[kk] = smt.solve([pre, cond], 'fp', timeout, 'fp')
        return _fpmemo[kk]
    r, m = _fpmemo[kk]
    if r == 'unsat':
        return r, m
    return smt.solve([pre, cond], 'fp', timeout, 'fp')


def canon(roots):
    """identity of the roots up to renaming of variables"""
    vs = []
    for x in t.postorder(roots):
        if x.op == 'var':
            vs.append(x)
    m = {x.id: t.var(f'v!{k}', x.w) for k, x in enumerate(vs)}
    return tuple(y.id for y in t.substitute(roots, m))


def decide(entry, ctx, rng, tier='quick', tv=3, hurry=False):
    v = Verdict(entry, ctx.cfg)
    t0 = time.time()
    try:
        _decide(entry, ctx, rng, tier, v, tv, hurry or entry.shallow and tier == 'quick')
    except Exception as ex:          # out of reach of the encoding or a normal form: no verdict
        v.status, v.how, v.why = 'inconclusive', 'error', f'{type(ex).__name__}: {str(ex)[:300]}\n' + traceback.format_exc()[-600:]
    finally:
        v.time = time.time() - t0
    return v


def exhaustive(lits):
    """the cases cover all values of the compared quantities (none of which is NaN)"""
    cut = {}
    for ls in lits:
        for c, v in ls:
            for x in t.postorder([c]):
                if x.op == 'fcmp':
                    for y in x.args:
                        if y.op != 'const':
                            cut[y.id] = t.var(f'cut{y.id}', 32)
    nn = [t.fcmp('ord', v, v) for v in cut.values()]
    cs = [t.and_(*[c if v else t.not_(c) for c, v in ls]) for ls in lits]
    r, m = smt.solve(nn + t.substitute([t.not_(t.or_(*cs))], cut), 'fp', 60000, 'split-exhaustive')
    return r == 'unsat'


def cond_lane(impl, exps, k, mode):
    return t.and_(*[smt.differ(impl, e[k], mode) for e in exps])


def _decide(entry, ctx, rng, tier, v, tv, hurry=False):
    w = W[entry.name]
    exps, pre, modes = specify(entry, ctx)
    J = Judge(entry, exps, pre, w['nout'], modes)
    nsamp = 6000 if tier == 'quick' else 60000
    try:
        enc = ctx.encode(entry.name)
    except Exception as ex:          # outside the encodable fragment: no verdict, only a native search
        v.why = f'not encodable: {type(ex).__name__}: {str(ex)[:200]}'
        cex, n = search(entry, ctx, J, [x for e in exps for x in e if x is not None], rng, nsamp)
        if cex:
            v.status, v.how, v.cex = 'violated', 'native', cex
        else:
            v.status, v.how = 'inconclusive', 'not-encoded'
        return
    v.ninst, v.called = enc.ninst, enc.called
    lanes = [k for k in range(w['nout']) if exps[0][k] is not None]
    panic = t.or_(*[o.cond for o in enc.obls if o.kind in PANICS]) if enc.obls else t.FALSE
    if enc.outs is None:
        panic = t.TRUE
    roots = [x for e in exps for x in e if x is not None] + ([enc.outs[k] for k in lanes] if enc.outs else [])
    if tv:
        n, bad = validate(entry, ctx, enc, rng, tv)
        v.tv = n
        if bad:
            v.why = f'encoding disagrees with the compiled code: {bad}'
            cex, n = search(entry, ctx, J, roots, rng, nsamp)
            if cex:
                v.status, v.how, v.cex = 'violated', 'native', cex
            else:
                v.status, v.how = 'inconclusive', 'encoding-mismatch'
            return
    if enc.outs is None:
        impl = None
        todo = []
    else:
        impl = enc.outs
        todo = lanes
    if entry.eqw and impl is not None:          # encode the equalities of input words by substitution
        sub = {t.var(f'i{k}', 32).id: t.var(f'i{j}', 32) for k, j in entry.eqw.items()}
        fl = t.substitute([pre, panic] + impl + [x if x is not None else t.FALSE for e in exps for x in e], sub)
        no = w['nout']
        pre, panic, impl = fl[0], fl[1], fl[2:2 + no]
        exps = [[None if exps[j][q] is None else fl[2 + no * (j + 1) + q] for q in range(no)] for j in range(len(exps))]
    # ---- T1
    tolerant = [k for k in todo if modes[k] not in ('bits', 'num')]
    cases = [(None, pre, impl, exps)]
    if entry.pieces and impl is not None:
        cases = []
        args = args_of(entry.name, enc.ins)
        for asg in entry.pieces:
            m = {f'i{w_}': val for w_, val in asg.items()}
            sub = {t.var(nm, 32).id: t.const(val, 32) for nm, val in m.items()}
            fl = t.substitute([pre, panic] + impl + [x if x is not None else t.FALSE for e in exps for x in e], sub)
            no = w['nout']
            cases.append((m, fl[0], fl[2:2 + no], [[None if exps[j][q] is None else fl[2 + no * (j + 1) + q] for q in range(no)] for j in range(len(exps))]))
        # the pieces are exhaustive under the precondition
        lits = [t.and_(*[t.eq(t.var(f'i{w_}', 32), t.const(val, 32)) for w_, val in asg.items()]) for asg in entry.pieces]
        r, m = smt.solve([pre, t.not_(t.or_(*lits))], 'uf', 20000, 'split-exhaustive')
        assert r == 'unsat', f'{entry.label}: case split is not exhaustive'
    if entry.split and impl is not None:
        kw = {'real': Real(ctx)} if entry.needs_call else {}
        no = w['nout']
        lits = entry.split(*args_of(entry.name, enc.ins), **kw)
        assert exhaustive(lits), f'{entry.label}: case split is not exhaustive'
        cases = []
        for ls in lits:
            fl = [pre] + impl + [x if x is not None else t.FALSE for e in exps for x in e]
            for c, val in ls:
                fl = assume(fl, c, val)
            cp = t.and_(fl[0], *[c if val else t.not_(c) for c, val in ls])
            cases.append((None, cp, fl[1:1 + no], [[None if exps[j][k] is None else fl[1 + no * (j + 1) + k] for k in range(no)] for j in range(len(exps))]))
    conds = []
    for asg, cpre, cimpl, cexps in cases:
        if tolerant:
            N = Norm(est=any(modes[k] == 'est' for k in tolerant), nonan=entry.nonan)
            allr = N.roots([cpre] + [cimpl[k] for k in tolerant] + [e[k] for e in cexps for k in tolerant])
            npre, ni = allr[0], allr[1:1 + len(tolerant)]
            ne = [allr[1 + len(tolerant) * (1 + j):1 + len(tolerant) * (2 + j)] for j in range(len(cexps))]
            for q, k in enumerate(tolerant):
                conds.append((k, npre, t.and_(*[smt.differ(ni[q], e[q], 'bits' if modes[k] == 'disc' else 'num') for e in ne]), asg, cimpl[k], [e[k] for e in cexps], cpre))
        for k in todo:
            if k not in tolerant:
                conds.append((k, cpre, cond_lane(cimpl[k], cexps, k, modes[k]), asg, cimpl[k], [e[k] for e in cexps], cpre))
    key = tuple((c[0], c[1].id, c[2].id) for c in conds) + (panic.id, pre.id)
    res = _pairs.get(key)
    if res is None:
        r1, m1 = smt.solve([pre, panic], 'uf', 20000, 'uf-panic') if panic is not t.FALSE else ('unsat', {})
        byp = {}
        for c in conds:
            byp.setdefault(c[1].id, []).append(c)
        badc, models = [], []
        for cs in byp.values():
            if any(modes[c[0]] == 'disc' for c in cs) and smt.prop_unsat([cs[0][1], t.or_(*[c[2] for c in cs])]):
                continue
            r, m = smt.solve([cs[0][1], t.or_(*[c[2] for c in cs])], 'uf', 30000 if not hurry else 4000, 'uf')
            if r != 'unsat':
                for c in cs:
                    r, m = smt.solve([c[1], c[2]], 'uf', 10000 if not hurry else 2000, 'uf-lane')
                    if r != 'unsat':
                        badc.append(c)
                        if m:
                            models.append({**m, **(c[3] or {})})
        res = (r1, m1, badc, models)
        _pairs[key] = res
    r1, m1, badc, models = res
    v.lanes = sorted({c[0] for c in badc})
    if r1 == 'unsat' and not badc:
        v.status, v.how = 'holds', ('uf' if not tolerant else 'uf+ac') + ('+cases' if entry.pieces else '')
        return
    # ---- exact FP for bits/num lanes
    rows = []
    torow = lambda m: [m.get(f'i{entry.eqw.get(k, k)}', 0) for k in range(w['nin'])]
    if r1 != 'unsat':
        rows.append(torow(m1))
        r, m = smt.solve([pre, panic], 'fp', 30000, 'fp-panic')
        if r == 'sat':
            rows.append(torow(m))
        r1 = r
    rows += [torow(m) for m in models]
    still = []
    nsat = 0
    fpt = 20000 if tier == 'quick' else 200000
    for c in badc:
        k = c[0]
        if modes[k] in ('bits', 'num'):
            ck = (c[1].id, c[2].id)
            if ck not in _fpmemo:
                _fpmemo[ck] = fp_lane(c, modes[k], fpt)
            r, m = _fpmemo[ck]
            if r == 'unsat':
                continue
            if r == 'sat':
                rows.insert(0, torow({**m, **(c[3] or {})}))
                nsat += 1
        if k not in still:
            still.append(k)
        if nsat > 40:
            break
    if not still and r1 == 'unsat':
        v.status, v.how = 'holds', 'fp' + ('+cases' if entry.pieces else '')
        return
    # ---- T2
    cex, n = search(entry, ctx, J, roots, rng, nsamp, enc, rows)
    if cex:
        v.status, v.how, v.cex = 'violated', 'solver+native', cex
        return
    disc = [k for k in still if modes[k] == 'disc']
    if disc and not hurry:
        cex = boundary(entry, ctx, J, roots, rng, 1500, disc, 25 if tier == 'quick' else 600)
        if cex:
            v.status, v.how, v.cex = 'violated', 'boundary+native', cex
            return
    # ---- T3
    left = []
    hows = set()
    for c in badc:
        k = c[0]
        if k not in still or k in left:
            continue
        if hurry or (left and tier == 'quick'):
            left.append(k)
            continue
        h = t3(entry, c[4], c[5], c[6], modes[k], rng, tier)
        if h is None:
            left.append(k)
        else:
            hows.add(h)
    if not left and r1 == 'unsat':
        v.status, v.how = 'holds', '+'.join(sorted(hows))
        return
    # real-arithmetic counterexample search for what is left
    for k in ([] if hurry else left[:4 if tier != 'quick' else 2]):
        row = real_cex(impl[k], exps, k, pre, 4000 if tier == 'quick' else 60000, modes[k])
        if row is not None:
            rw = torow(row)
            cex, n = search(entry, ctx, J, roots, rng, 200, enc, [rw])
            if cex:
                v.status, v.how, v.cex = 'violated', 'nlsat+native', cex
                return
    cex, n = search(entry, ctx, J, roots, rng, nsamp * 5, enc, [])
    if cex:
        v.status, v.how, v.cex = 'violated', 'solver+native', cex
        return
    v.status, v.how, v.why = 'inconclusive', 'T3', f'lanes {left} panic {r1}'


def real_cex(a, exps, k, pre, timeout, mode):
    import z3
    e = exps[0][k]

    def extra(L):
        x, y = L(a), L(e)
        d = x - y
        vs = [z3.Real(s) for s in t.support([a, e]) if s[0] == 'i']
        return [x != y if mode == 'disc' else z3.Or(d > z3.Q(1, 100), d < -z3.Q(1, 100))] + [z3.And(q <= 64, q >= -64) for q in vs]
    try:
        r, m, L = solve_real([pre], extra, timeout, 'real-cex')
    except Exception:
        return None
    return m if r == 'sat' else None


def conditions(roots):
    """conditions of float-valued ites that sit under arithmetic, outermost first"""
    out = []
    seen = set()
    for x in t.postorder(roots):
        if x.op == 'ite' and x.w:
            c = x.args[0]
            if c.id not in seen:
                seen.add(c.id)
                out.append(c)
    return out


def assume(terms, c, val):
    """substitute condition c (and what follows for its parts) by a constant"""
    m = {}

    def put(x, b):
        m[x.id] = t.boolc(b)
        m[t.not_(x).id] = t.boolc(not b)
        if x.op == 'not':
            put(x.args[0], not b)
        elif x.op == 'and' and b:
            for y in x.args:
                put(y, True)
        elif x.op == 'or' and not b:
            for y in x.args:
                put(y, False)
    put(c, val)
    return t.substitute(terms, m)


def t3(entry, a, es, pre, mode, rng, tier):
    if mode in ('bits', 'num'):
        return None
    deadline = time.time() + (10 if tier == 'quick' else 120)
    est = mode == 'est'
    leaves = [0]

    eqm = 'bits' if mode == 'disc' else 'num'

    def leaf(a, es, path):
        N = Norm(est=est, nonan=entry.nonan)
        r = N.roots([a] + es)
        if any(r[0] is y for y in r[1:]):
            return 'split'
        try:
            P = PolyNorm(est=est, nonan=entry.nonan)
            r = P.roots([a] + es)
        except TooBig:
            return None
        if any(r[0] is y for y in r[1:]):
            return 'split+expand'
        return None

    X = candidates(entry, [], rng, 700)
    if pre is not t.TRUE:
        ok = evalnp([pre], {f'i{q}': np.ascontiguousarray(X[:, q]) for q in range(X.shape[1])}, X.shape[0])[0]
        if ok is not None and ok.sum() > 100:
            X = X[ok]
    sa, ses, merges, q = sweep(a, es, pre, X[:400], est, entry.nonan, 100 if tier == 'quick' else 600)
    if merges:
        N = Norm(est=est, nonan=entry.nonan)
        r = N.roots([pre, sa] + ses)
        if any(r[1] is y for y in r[2:]):
            return 'sweep'
        if smt.prop_unsat([r[0], t.and_(*[smt.differ(r[1], y, eqm) for y in r[2:]])]):
            return 'sweep'
        rr, m = smt.solve([r[0], t.and_(*[smt.differ(r[1], y, eqm) for y in r[2:]])], 'uf', 20000, 'sweep-root')
        if rr == 'unsat':
            return 'sweep'

    def rec(a, es, path, depth):
        leaves[0] += 1
        if time.time() > deadline or leaves[0] > 3000:
            return None
        h = leaf(a, es, path)
        if h:
            return h
        cs = conditions([a] + es)
        if not cs:
            r, m = smt.solve(path + [pre], 'uf', 5000, 'path')
            if r == 'unsat':
                return 'split'
            P = PolyNorm(est=est, nonan=entry.nonan)
            try:
                na = P.roots([a] + es + path + [pre])
            except TooBig:
                return None
            d = t.and_(*[smt.differ(na[0], y, eqm) for y in na[1:1 + len(es)]])
            r, m = smt.solve(list(na[1 + len(es):]) + [d], 'uf', 5000, 'split-leaf')
            if r == 'unsat':
                return 'split+expand'
            # the pair of terms is equal over the reals under the path?
            return None
        # choose the condition whose support is deepest first: an atom with no ite inside
        c = None
        for x in cs:
            if not any(y.op == 'ite' and y.w for y in t.postorder([x])):
                c = x
                break
        c = c or cs[0]
        at = c
        while at.op in ('and', 'or', 'not', 'xorb'):
            at = at.args[0]
        hs = []
        for val in (True, False):
            p2 = path + [at if val else t.not_(at)]
            if depth < 14:
                r, m = smt.solve(p2 + [pre], 'uf', 2000, 'path')
                if r == 'unsat':
                    continue
            sub = assume([a] + es, at, val)
            h = rec(sub[0], sub[1:], p2, depth + 1)
            if h is None:
                return None
            hs.append(h)
        return max(hs) if hs else 'split'
    deadline = time.time() + (10 if tier == 'quick' else 120)
    return rec(sa, ses, [], 0)
