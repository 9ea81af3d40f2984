"""C32: no safe function reaches undefined behaviour, for any argument values; functions of float data never panic.

Decided on the unoptimised IR: every load, store, copy, division, `unreachable` and panic on every path of the symbolic execution is an obligation
(path condition and access outside its object / misaligned / ...), which the solver has to refute for all input words, with no precondition.
A counterexample is interpreted with Miri before it is reported."""
from .. import build, miri, smt
from .. import terms as t
from ..core import W, short
from ..spec import META, PARTS, custom

BAD = ('oob', 'align', 'ub', 'feature')


def undef_vars(outs):
    names = set()
    for x in t.postorder([o for o in outs if isinstance(o, t.T)]):
        if x.op == 'var' and isinstance(x.data, str) and x.data.startswith('undef!'):
            names.add(x)
    return names


def mk(name):
    w = W[name]
    total = not any(e[1] == 'u' for e in w['lin'])

    def run(ctx, rng, tier):
        e = ctx.encode(name)
        info = dict(name=name, ninst=e.ninst, called=sorted(short(c) for c in e.called))
        todo = [o for o in e.obls if o.cond is not t.FALSE and (o.kind in BAD or (total and o.kind == 'panic'))]
        base = ctx.cfg[:-1]
        unk = None
        for o in todo:
            for mode, ms in (('uf', 5000), ('fp', 20000 if tier == 'quick' else 120000)):
                r, m = smt.solve([o.cond], mode, ms, 'obligation:' + o.kind)
                if r == 'unsat':
                    break
                if r != 'sat':
                    unk = f'{o.kind} {o.msg[:120]}: solver {r}'
                    continue
                words = [m.get(f'i{k}', 0) for k in range(w['nin'])]
                v, txt = miri.run(name, base, words, w['nout'])
                if v == 'ub' or (v == 'panic' and o.kind == 'panic'):
                    yield dict(status='violated', how='miri replay', why=o.msg[:200], mode='safety',
                               cex=dict(words=words, lane=None, expected='no undefined behaviour' if o.kind != 'panic' else 'no panic', got=f'{o.kind}: {txt[:300]}', kind='safety', base=base), **info)
                    return
                unk = f'{o.kind} {o.msg[:120]}: counterexample over {mode} not confirmed by Miri ({v}: {txt[:80]})'
        if unk:
            yield dict(status='inconclusive', how='obligation', why=unk, mode='safety', **info)
            return
        us = undef_vars(e.outs) if e.outs is not None else set()
        if us:
            # does a result depend on the content of uninitialised memory?
            sub = {u.id: t.var('other!' + u.data, u.w) for u in us}
            for k, o in enumerate(e.outs):
                if not undef_vars([o]):
                    continue
                r, m = smt.solve([t.not_(t.eq(o, rename(o, sub)))], 'uf', 5000, 'uninitialised')
                if r == 'unsat':
                    continue
                words = [m.get(f'i{q}', 0) for q in range(w['nin'])]
                v, txt = miri.run(name, base, words, w['nout']) if r == 'sat' else ('-', '')
                if v == 'ub':
                    yield dict(status='violated', how='miri replay', why=f'output word {k} depends on uninitialised memory', mode='safety',
                               cex=dict(words=words, lane=k, expected='no use of uninitialised memory', got=txt[:300], kind='safety', base=base), **info)
                else:
                    yield dict(status='inconclusive', how='uninitialised', why=f'output word {k} mentions uninitialised memory ({r}, Miri: {v})', mode='safety', **info)
                return
        yield dict(status='holds', how=f'{len(todo)} obligations refuted' if todo else 'every access in bounds on every path', mode='safety', **info)
    return run


def rename(x, sub):
    memo = {}
    for y in t.postorder([x]):
        if y.op == 'var':
            memo[y.id] = sub.get(y.id, y)
        else:
            memo[y.id] = t.mk(y.op, y.w, tuple(memo[a.id] for a in y.args), y.data)
    return memo[x.id]


for _n in sorted(W):
    custom('C32', _n)(mk(_n))
PARTS['C32'] = 3
META['C32'] = {'cfgs': build.RAW,
               'bounds': 'all 2^32 bit patterns of every input word and every value of the integer arguments; loops over points: 1 to 4 points; every other loop fully unrolled',
               'assumptions': ['raw-pointer aliasing (stacked borrows) is outside the property', 'the obligations are those of the IR before LLVM optimisation; MIR optimisations of rustc at opt-level 1 have run']}
