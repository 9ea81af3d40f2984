"""Encodes wrappers: (configuration, wrapper) -> output terms over input variables, plus obligations."""
import json
import os
from . import build, smt
from . import terms as t
from .symexec import Exec, ptr

HERE = os.path.dirname(os.path.abspath(__file__))
W = json.load(open(os.path.join(HERE, 'wrappers.json')))


class Enc:
    __slots__ = ('name', 'cfg', 'outs', 'obls', 'called', 'ninst', 'nforks', 'ins', 'intr')


class Ctx:
    """one configuration"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.mod = build.load(cfg)
        self.memo = {}
        self.callmemo = {}
        self.feasmemo = {}

    def encode(self, name):
        if name in self.memo:
            return self.memo[name]
        w = W[name]
        ins = [t.var(f'i{k}', 32) for k in range(w['nin'])]
        e = self._run(name, ins)
        self.memo[name] = e
        return e

    def _run(self, name, ins):
        w = W[name]
        ex = Exec(self.mod, self.feasible)
        mem = {}
        i = ex.new_obj(mem, 4 * w['nin'], 4, 'in')
        o = ex.new_obj(mem, 4 * w['nout'], 4, 'out')
        for k, x in enumerate(ins):
            mem[i].cells[4 * k] = (4, x)
        for k in range(w['nout']):
            mem[o].cells[4 * k] = (4, t.var(f'o{k}', 32))
        r = ex.run('h_' + name, [ptr(i, 0), ptr(o, 0)], mem)
        e = Enc()
        e.name = name
        e.cfg = self.cfg
        e.ins = ins
        if r is None:
            e.outs = None
        else:
            e.outs = [ex.read_raw(r[1][o], 4 * k, 4) for k in range(w['nout'])]
        e.obls = ex.obls
        e.called = {c for c in ex.called}
        e.ninst = ex.ninst
        e.nforks = ex.nforks
        e.intr = ex.used_intr
        return e

    def feasible(self, cond):
        """may the path condition be satisfied?  (float operators uninterpreted: an over-approximation) -- prunes loop unrollings"""
        if cond.op == 'const':
            return bool(cond.data)
        if cond.id not in self.feasmemo:
            self.feasmemo[cond.id] = smt.solve([cond], 'uf', 5000, 'loop-unwinding', want_model=False)[0] != 'unsat'
        return self.feasmemo[cond.id]

    def call(self, name, words):
        """outputs of the real function `name` applied to the given words (specifications may use it)"""
        k = (name, tuple(x.id for x in words))
        if k not in self.callmemo:
            self.callmemo[k] = self._run(name, list(words)).outs
        return self.callmemo[k]


def short(sym):
    """readable name of a mangled Rust symbol"""
    import re
    if not sym.startswith('_R'):
        return sym
    ids = re.findall(r'(\d+)_?([A-Za-z_][A-Za-z0-9_]*)', sym)
    out = []
    pos = 0
    for m in re.finditer(r'(\d+)', sym):
        n = int(m.group(1))
        s = sym[m.end():m.end() + n].lstrip('_')
        if len(s) > 2 and re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', s):
            out.append(s)
    return '::'.join(out[-2:]) if out else sym
