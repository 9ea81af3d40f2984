"""Sweeping: pairs of internal conditions and selections that agree on simulated inputs are proved equal by the solver,
bottom-up, and merged; what remains to be compared at the root is then syntactically close.  A merge is made only on the
solver's verdict (or on identical normal forms); simulation only proposes the pairs."""
import os
import time
import numpy as np
from . import smt
from . import terms as t
from .evalnp import evalnp, f
from .norm import Norm
from .poly import PolyNorm, TooBig

DEBUG = os.environ.get('DXV_SWEEP')


def interesting(x):
    if x.op in ('const', 'var'):
        return False
    return x.w == 0 and x.op in ('and', 'or', 'xorb', 'ite', 'fcmp', 'not') or x.w == 32 and x.op in ('ite', 'fsqrt', 'fdiv', 'fadd', 'fsub', 'fmul')


def loceq(x, y, est, nonan, leaves=48):
    """x and y equal after generalising their largest common subterms to fresh variables and splitting on the remaining conditions"""
    cx, cy = {z.id for z in t.postorder([x])}, {z.id for z in t.postorder([y])}
    com = cx & cy
    cut, seen, st = {}, set(), [x, y]
    while st:
        z = st.pop()
        if z.id in seen:
            continue
        seen.add(z.id)
        if z.id in com and z.op not in ('const', 'var') and z.w in (0, 32):
            if z.op == 'not':
                st.append(z.args[0])
                continue
            c = t.not_(z) if z.op == 'fcmp' and z.data in t.FCANON else z
            v = t.var(f'cut{c.id}', z.w)
            cut[z.id] = v if c is z else t.not_(v)
            if z.op == 'fcmp':
                cut[t.not_(z).id] = t.not_(cut[z.id])
            continue
        st.extend(z.args)
    if not cut:
        return False
    a, b = t.substitute([x, y], cut)
    n = [0]

    def rec(a, b):
        n[0] += 1
        if n[0] > leaves:
            return False
        r = Norm(est=est, nonan=nonan).roots([a, b])
        if r[0] is r[1]:
            return True
        try:
            q = PolyNorm(est=est, nonan=nonan).roots([a, b])
            if q[0] is q[1]:
                return True
        except TooBig:
            pass
        c = None
        for z in t.postorder([a, b]):
            if z.op == 'ite':
                c = z.args[0]
                break
        if c is None:
            return False
        while c.op in ('and', 'or', 'not', 'xorb', 'ite'):
            c = c.args[0]
        for v in (t.TRUE, t.FALSE):
            m = {c.id: v, t.not_(c).id: t.not_(v)}
            if not rec(*t.substitute([a, b], m)):
                return False
        return True
    return rec(a, b)


def sweep(a, es, pre, X, est, nonan, budget, maxq=400):
    """-> (a', es', merges, queries)"""
    roots = [a] + list(es)
    nodes = [x for x in t.postorder(roots) if interesting(x)]
    n = X.shape[0]
    env = {f'i{k}': np.ascontiguousarray(X[:, k]) for k in range(X.shape[1])}
    vals = evalnp(nodes, env, n) if nodes else []
    val = {x.id: v for x, v in zip(nodes, vals)}
    deadline = time.time() + budget
    rep = {}
    bools, flts = [], []         # (values, representative)
    merges = q = 0
    N = Norm(est=est, nonan=nonan)
    npre = N.roots([pre])[0]
    height = {}
    for x in t.postorder(roots):
        height[x.id] = 1 + max((height[z.id] for z in x.args), default=0)
    impl_ids, spec_ids = {x.id for x in t.postorder([a])}, {x.id for x in t.postorder(es)}
    side = {x.id: (x.id in impl_ids) + 2 * (x.id in spec_ids) for x in t.postorder(roots)}
    for x in t.postorder(roots):
        y = t.rebuild(x, [rep[z.id] for z in x.args]) if x.args else x
        rep[x.id] = y
        v = val.get(x.id)
        if v is None or y.op == 'const' or time.time() > deadline or q > maxq:
            continue
        isb = x.w == 0
        pool = bools if isb else flts
        cands = []
        for w, z, h, sd in pool:
            if z is y:
                cands = []
                break
            if sd == side[x.id]:
                continue
            if isb:
                m = np.count_nonzero(w != v)
                if m <= n // 50:
                    cands.append((m, False, z, h))
                elif m >= n - n // 50 and len(cands) < 8:
                    cands.append((n - m, True, z, h))
            else:
                p, r = f(w).astype(np.float64), f(v).astype(np.float64)
                ok = (w == v) | (np.abs(p - r) <= 1e-4 * np.maximum(np.abs(p), np.abs(r)) + 1e-30) | (np.isnan(p) & np.isnan(r))
                m = n - np.count_nonzero(ok)
                if m <= n // 50:
                    cands.append((m, False, z, h))
        else:
            cands.sort(key=lambda c: (c[0], abs(c[3] - height[x.id])))
        if DEBUG:
            print('node', y.id, y.op, y.w, 'impl' if x.id in impl_ids else 'spec', [(c[0], c[1], c[2].id) for c in cands[:5]], flush=True)
        for m, neg, z, h in cands[:3]:
            zz = t.not_(z) if neg else z
            ny, nz = N.roots([y, zz])
            if ny is nz:
                rep[x.id] = zz
                merges += 1
                break
            q += 1
            d = t.xorb(ny, nz) if isb else smt.differ(ny, nz, 'num')
            if isb and smt.prop_unsat([d], 1500, 'sweep-prop') or smt.solve([npre, d], 'uf', 1500, 'sweep')[0] == 'unsat' or loceq(y, zz, est, nonan):
                rep[x.id] = zz
                merges += 1
                if DEBUG:
                    print('  merged', z.id)
                break
        else:
            pool.append((v, y, height[x.id], side[x.id]))
    out = [rep[r.id] for r in roots]
    return out[0], out[1:], merges, q
