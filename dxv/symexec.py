"""Symbolic executor for LLVM IR with state merging at joins.

The result of running a function is one merged state: output words as terms over the input words, plus
proof obligations (out-of-bounds access, misaligned access, panic, unreachable) with their path conditions.
"""
from . import terms as t
from .irparse import sizeof, bitsof, struct_offsets
from .terms import const, ite, and_, or_, not_, TRUE, FALSE, isc

MAXVISIT = 3000
MAXSYMVISIT = 700


class Unsupported(Exception):
    pass


class BoundExceeded(Exception):
    pass


class Ptr:
    __slots__ = ('cases',)

    def __init__(self, cases):
        self.cases = cases          # list of (cond, obj, off)

    def __repr__(self):
        return 'Ptr' + repr(self.cases)


def ptr(obj, off):
    return Ptr([(TRUE, obj, off if not isinstance(off, int) else const(off, 64))])


class MObj:
    __slots__ = ('size', 'align', 'cells', 'const', 'name')

    def __init__(self, size, align, cells=None, const_=False, name=''):
        self.size = size
        self.align = align
        self.cells = cells if cells is not None else {}
        self.const = const_
        self.name = name

    def copy(self):
        return MObj(self.size, self.align, dict(self.cells), self.const, self.name)


def merge_ptr(c, a, b):
    if a is b:
        return a
    out = {}
    for g, p in ((c, a), (not_(c), b)):
        for cc, o, off in p.cases:
            k = (o, off.id)
            x = and_(g, cc)
            if x is FALSE:
                continue
            out[k] = (or_(out[k][0], x) if k in out else x, o, off)
    return Ptr(list(out.values()))


def merge_val(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, t.T):
        return ite(c, a, b)
    if isinstance(a, Ptr):
        return merge_ptr(c, a, b)
    if isinstance(a, tuple):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list):
        return [merge_val(c, x, y) for x, y in zip(a, b)]
    if a is None:
        return b
    raise Unsupported(f'merge {a!r} {b!r}')


def split_pc(p, q):
    n = 0
    while n < len(p) and n < len(q) and p[n] is q[n]:
        n += 1
    return p[:n], and_(*p[n:]), and_(*q[n:])


class Obl:
    __slots__ = ('kind', 'cond', 'msg')

    def __init__(self, kind, cond, msg):
        self.kind = kind
        self.cond = cond
        self.msg = msg

    def __repr__(self):
        return f'{self.kind}: {self.msg}'


ALIGN = {}          # object -> alignment (objects of the current run)


BASELINE = frozenset(('cmov', 'cx8', 'fxsr', 'mmx', 'sse', 'sse2', 'x87'))


class Exec:
    def __init__(self, mod, feasible=None):
        self.mod = mod
        self.obls = []
        self.feasible = feasible
        self.nobj = 0
        self.globobj = {}
        self.called = set()
        self.ninst = 0
        self.nforks = 0
        self.used_intr = set()

    # ---------------------------------------------------------------- memory
    def new_obj(self, mem, size, align, name=''):
        self.nobj += 1
        mem[self.nobj] = MObj(size, align, name=name)
        ALIGN[self.nobj] = align
        return self.nobj

    def oblige(self, kind, pc, cond, msg):
        c = and_(*pc, cond)
        if c is not FALSE:
            self.obls.append(Obl(kind, c, msg))

    @staticmethod
    def cell_at(o, pos):
        for s in range(pos, max(pos - 8, -1), -1):
            c = o.cells.get(s)
            if c is not None and s + c[0] > pos:
                return s, c
        return None

    def read_raw(self, o, off, n):
        """n bytes at constant offset -> T of 8n bits, or Ptr"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        parts = []       # little endian pieces
        pos = off
        while pos < off + n:
            ca = self.cell_at(o, pos)
            if ca is None:
                # uninitialised up to the next cell
                e = pos + 1
                while e < off + n and e not in o.cells:
                    e += 1
                parts.append(t.undef(8 * (e - pos)))
                pos = e
                continue
            s, (sz, v) = ca
            e = min(s + sz, off + n)
            if isinstance(v, Ptr):
                if len(v.cases) == 1 and v.cases[0][1] is None:
                    v = v.cases[0][2]
                else:
                    raise Unsupported('partial pointer read')
            parts.append(t.extract(v, (e - s) * 8 - 1, (pos - s) * 8))
            pos = e
        return t.concat(*reversed(parts))

    def write_raw(self, o, off, n, v):
        """in-place on o (already private)"""
        c = o.cells.get(off)
        if c is None or c[0] != n:
            # remove / split overlapped cells
            for s in list(range(max(off - 8, 0), off + n)):
                c = o.cells.get(s)
                if c is None or s + c[0] <= off:
                    continue
                sz, val = c
                del o.cells[s]
                if s < off or s + sz > off + n:
                    if isinstance(val, Ptr):
                        raise Unsupported('partial pointer overwrite')
                    for b in range(s, s + sz):
                        if b < off or b >= off + n:
                            o.cells[b] = (1, t.extract(val, (b - s) * 8 + 7, (b - s) * 8))
        o.cells[off] = (n, v)

    def flatten(self, ty, v, off, out):
        """scalar pieces of a value as (offset, nbytes, val)"""
        k = ty[0]
        if k == 'ptr':
            out.append((off, 8, v))
        elif k in ('i', 'f'):
            if ty[1] == 1:
                out.append((off, 1, t.zext(v, 8)))
                return
            n = sizeof(ty)
            if bitsof(ty) != n * 8:
                v = t.zext(v, n * 8)
            if n > 4 and n % 4 == 0:
                for j in range(0, n, 4):
                    out.append((off + j, 4, t.extract(v, 8 * j + 31, 8 * j)))
            else:
                out.append((off, n, v))
        elif k == 'vec':
            if ty[2] == ('i', 1):
                raise Unsupported('store of <n x i1>')
            es = sizeof(ty[2])
            for j, x in enumerate(v):
                self.flatten(ty[2], x, off + j * es, out)
        elif k == 'arr':
            es = sizeof(ty[2])
            for j, x in enumerate(v):
                self.flatten(ty[2], x, off + j * es, out)
        elif k == 'struct':
            for o2, et, x in zip(struct_offsets(ty), ty[1], v):
                self.flatten(et, x, off + o2, out)
        else:
            raise Unsupported(ty)

    def unflatten(self, ty, rd, off):
        k = ty[0]
        if k == 'ptr':
            v = rd(off, 8)
            if not isinstance(v, Ptr):
                if isc(v):
                    return Ptr([(TRUE, None, v)])
                return Ptr([(TRUE, 'wild', v)])
            return v
        if k in ('i', 'f'):
            n = sizeof(ty)
            v = rd(off, n)
            if isinstance(v, Ptr):
                raise Unsupported('pointer loaded as integer')
            if ty == ('i', 1):
                return t.bv2bool(t.extract(v, 0, 0))
            if bitsof(ty) != n * 8:
                v = t.extract(v, bitsof(ty) - 1, 0)
            return v
        if k == 'vec':
            es = sizeof(ty[2])
            return tuple(self.unflatten(ty[2], rd, off + j * es) for j in range(ty[1]))
        if k == 'arr':
            es = sizeof(ty[2])
            return [self.unflatten(ty[2], rd, off + j * es) for j in range(ty[1])]
        if k == 'struct':
            return [self.unflatten(et, rd, off + o2) for o2, et in zip(struct_offsets(ty), ty[1])]
        raise Unsupported(ty)

    @staticmethod
    def tz(x):
        """provable trailing zero bits of a term"""
        if isc(x):
            return 64 if x.data == 0 else (x.data & -x.data).bit_length() - 1
        if x.op == 'concat':
            n = 0
            for a in reversed(x.args):
                k = Exec.tz(a)
                if k >= a.w:
                    n += a.w
                    continue
                return n + k
            return n
        if x.op in ('add', 'sub'):
            return min(Exec.tz(x.args[0]), Exec.tz(x.args[1]))
        if x.op == 'ite':
            return min(Exec.tz(x.args[1]), Exec.tz(x.args[2]))
        return 0

    def candidates(self, mem, pc, p, n, al, what):
        """concrete (cond, obj, off) targets of an n-byte access; records obligations"""
        res = []
        for g, oid, off in p.cases:
            if oid is None or oid == 'wild' or isinstance(oid, tuple):
                self.oblige('oob', pc, g, f'{what} through a null or foreign pointer')
                continue
            o = mem[oid]
            a = 1 << min(self.tz(off), 12)
            if min(a, o.align) < al:
                if isc(off):
                    self.oblige('align', pc, g, f'{what} of {n} bytes needs alignment {al}, object `{o.name}` (align {o.align}) +{off.data}')
                else:
                    self.oblige('align', pc, g, f'{what} of {n} bytes needs alignment {al}, symbolic offset')
            if isc(off):
                if off.data + n > o.size:
                    self.oblige('oob', pc, g, f'{what} of {n} bytes at `{o.name}`+{t.sval(off)} (size {o.size})')
                    continue
                res.append((g, oid, off.data))
            else:
                step = min(a, 8)
                offs = list(range(0, o.size - n + 1, step))
                if len(offs) > 512:
                    raise Unsupported('symbolic offset into a large object')
                inb = or_(*[t.eq(off, const(k, 64)) for k in offs])
                self.oblige('oob', pc, and_(g, not_(inb)), f'{what} of {n} bytes at `{o.name}`+symbolic (size {o.size})')
                for k in offs:
                    c = and_(g, t.eq(off, const(k, 64)))
                    if c is not FALSE:
                        res.append((c, oid, k))
        return res

    def load(self, mem, pc, ty, p, al):
        cands = self.candidates(mem, pc, p, sizeof(ty), al, 'load')
        if not cands:
            return self.undef_val(ty)
        out = None
        for c, oid, off in reversed(cands):
            o = mem[oid]
            v = self.unflatten(ty, lambda q, n: self.read_raw(o, q, n), off)
            out = v if out is None else merge_val(c, v, out)
        return out

    def store(self, mem, pc, ty, v, p, al):
        pieces = []
        self.flatten(ty, v, 0, pieces)
        cands = self.candidates(mem, pc, p, sizeof(ty), al, 'store')
        objs = {}
        for c, oid, off in cands:
            if oid not in objs:
                if mem[oid].const:
                    self.oblige('oob', pc, c, 'store to constant memory')
                objs[oid] = mem[oid].copy()
            o = objs[oid]
            for po, n, val in pieces:
                if c is TRUE or len(cands) == 1:
                    self.write_raw(o, off + po, n, val)
                else:
                    old = self.read_raw(o, off + po, n)
                    if isinstance(val, Ptr) != isinstance(old, Ptr):
                        raise Unsupported('conditional pointer store')
                    self.write_raw(o, off + po, n, merge_val(c, val, old))
        mem.update(objs)

    def merge_mem(self, c, m1, m2):
        if m1 is m2:
            return m1
        out = {}
        for k in m1.keys() | m2.keys():
            a, b = m1.get(k), m2.get(k)
            if a is None or b is None:
                out[k] = a if b is None else b
                continue
            if a is b or a.cells == b.cells:
                out[k] = a
                continue
            o = a.copy()
            bounds = set()
            for m in (a, b):
                for s, (n, _) in m.cells.items():
                    bounds.add((s, n))
            # common refinement
            keys = sorted(bounds)
            simple = True
            for (s, n), (s2, n2) in zip(keys, keys[1:]):
                if s + n > s2:
                    simple = False
            if simple:
                rng = keys
            else:
                pts = sorted({s for s, n in keys} | {s + n for s, n in keys})
                rng = []
                for s, e in zip(pts, pts[1:]):
                    if self.cell_at(a, s) or self.cell_at(b, s):
                        rng.append((s, e - s))
            o.cells = {}
            for s, n in rng:
                va, vb = self.read_raw(a, s, n), self.read_raw(b, s, n)
                if isinstance(va, Ptr) != isinstance(vb, Ptr):
                    va = va if isinstance(va, Ptr) else vb       # other side uninitialised
                    o.cells[s] = (n, va)
                else:
                    o.cells[s] = (n, merge_val(c, va, vb))
            out[k] = o
        return out

    # ---------------------------------------------------------------- values
    def undef_val(self, ty):
        k = ty[0]
        if k == 'i' and ty[1] == 1:
            return t.bv2bool(t.undef(1))
        if k in ('i', 'f'):
            return t.undef(bitsof(ty))
        if k == 'ptr':
            return Ptr([(TRUE, 'wild', t.undef(64))])
        if k == 'vec':
            return tuple(self.undef_val(ty[2]) for _ in range(ty[1]))
        if k == 'arr':
            return [self.undef_val(ty[2]) for _ in range(ty[1])]
        if k == 'struct':
            return [self.undef_val(e) for e in ty[1]]
        raise Unsupported(ty)

    def zero_val(self, ty):
        k = ty[0]
        if k == 'i' and ty[1] == 1:
            return FALSE
        if k in ('i', 'f'):
            return const(0, bitsof(ty))
        if k == 'ptr':
            return Ptr([(TRUE, None, const(0, 64))])
        if k == 'vec':
            return tuple(self.zero_val(ty[2]) for _ in range(ty[1]))
        if k == 'arr':
            return [self.zero_val(ty[2]) for _ in range(ty[1])]
        if k == 'struct':
            return [self.zero_val(e) for e in ty[1]]
        raise Unsupported(ty)

    def val(self, env, mem, ty, v):
        k = v[0]
        if k == 'reg':
            return env[v[1]]
        if k == 'int':
            if ty[0] == 'ptr':
                return Ptr([(TRUE, None, const(v[1], 64))])
            return t.boolc(v[1] & 1) if ty[1] == 1 else const(v[1], ty[1])
        if k == 'fb':
            return const(v[1], ty[1])
        if k == 'zero':
            return self.zero_val(ty)
        if k == 'undef':
            return self.undef_val(ty)
        if k == 'null':
            return Ptr([(TRUE, None, const(0, 64))])
        if k == 'inttoptr':
            return Ptr([(TRUE, None, const(v[1][1], 64))])
        if k == 'splat':
            x = self.val(env, mem, v[1], v[2])
            return tuple(x for _ in range(ty[1]))
        if k == 'agg':
            es = [self.val(env, mem, et, ev) for et, ev in v[1]]
            return tuple(es) if ty[0] == 'vec' else es
        if k == 'bytes':
            return [const(b, 8) for b in v[1]]
        if k == 'glob':
            return self.globptr(mem, v[1])
        if k == 'cgep':
            return self.gep(env, mem, v[1], self.val(env, mem, ('ptr',), v[2]), v[3])
        raise Unsupported(v)

    def globptr(self, mem, name):
        if name in self.globobj:
            oid = self.globobj[name]
            if isinstance(oid, int) and oid not in mem:
                mem[oid] = self._globcache[oid]
            return ptr(oid, 0)
        g = self.mod.glob(name)
        if g is None or g[1] is None:
            self.globobj[name] = ('fn', name)
            return ptr(('fn', name), 0)
        ty, v, al, cst = g
        self.nobj += 1
        oid = self.nobj
        o = MObj(sizeof(ty), max(al, 1), {}, cst, '@' + name)
        self.globobj[name] = oid
        mem[oid] = o
        pieces = []
        self.flatten(ty, self.val({}, mem, ty, v), 0, pieces)
        for off, n, x in pieces:
            o.cells[off] = (n, x)
        if not hasattr(self, '_globcache'):
            self._globcache = {}
        self._globcache[oid] = o
        return ptr(oid, 0)

    def gep(self, env, mem, sty, base, idx):
        off = const(0, 64)
        cur = sty
        for j, (it, iv) in enumerate(idx):
            i = self.val(env, mem, it, iv)
            if not isinstance(i, t.T):
                raise Unsupported('vector gep')
            i = t.sext(i, 64) if i.w < 64 else i
            if j == 0:
                off = t.arith('add', off, t.arith('mul', i, const(sizeof(cur), 64)))
            elif cur[0] == 'struct':
                k = i.data
                off = t.arith('add', off, const(struct_offsets(cur)[k], 64))
                cur = cur[1][k]
            else:
                cur = cur[2]
                off = t.arith('add', off, t.arith('mul', i, const(sizeof(cur), 64)))
        return Ptr([(c, o, t.arith('add', b, off)) for c, o, b in base.cases])

    # ---------------------------------------------------------------- functions
    def run(self, name, args, mem, pc=(), depth=0):
        f = self.mod.fn(name)
        if f is None:
            raise Unsupported('no body for ' + name)
        if depth > 60:
            raise BoundExceeded('call depth in ' + name)
        self.called.add(name)
        if depth == 0:
            self.feats = self.mod.feats.get(name, frozenset())
        env0 = {}
        for (pn, pt, at), a in zip(f.params, args):
            env0[pn] = a
            if 'align' in at and isinstance(a, Ptr):
                for g, oid, off in a.cases:
                    if isinstance(oid, int) and oid in mem:
                        al = at['align']
                        if min(1 << min(self.tz(off), 12), mem[oid].align) < al:
                            self.oblige('align', pc, g, f'reference passed to {name} needs alignment {al}')
        pend = {f.order[0]: [(pc, env0, mem)]}
        visits = {}
        rets = []
        while pend:
            b = min(pend, key=lambda x: f.lines[x])
            sts = pend.pop(b)
            pc_, env, m = sts[0]
            for pc2, env2, m2 in sts[1:]:
                common, g1, g2 = split_pc(pc_, pc2)
                # on the union, g1 vs g2 are exclusive by construction
                g = g1
                e = {}
                for k, v in env.items():
                    v2 = env2.get(k)
                    e[k] = v if v2 is None or v2 is v else merge_val(g, v, v2)
                for k, v in env2.items():
                    if k not in e:
                        e[k] = v
                env = e
                m = self.merge_mem(g, m, m2)
                d = or_(g1, g2)
                pc_ = common + ((d,) if d is not TRUE else ())
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > MAXVISIT:
                raise BoundExceeded(f'{name}:{b}')
            if visits[b] > 8 and self.feasible is not None:
                c = and_(*pc_)
                if not self.feasible(c):
                    continue
                if c is not TRUE and visits[b] > MAXSYMVISIT:
                    raise BoundExceeded(f'{name}:{b}')
            env = dict(env)
            m = dict(m)
            for nxt in self.block(f, b, env, m, pc_, depth):
                if nxt[0] == 'ret':
                    rets.append((nxt[1], nxt[2], m))
                else:
                    _, to, pc3 = nxt
                    e3 = dict(env)
                    for ins in f.blocks[to]:
                        if ins[0] != 'phi':
                            break
                        for iv, ib in ins[3]:
                            if ib == b:
                                e3[ins[1]] = self.val(env, m, ins[2], iv)
                                break
                        else:
                            raise Unsupported('phi without edge')
                    pend.setdefault(to, []).append((pc3, e3, m))
        if not rets:
            return None
        pc_, rv, m = rets[0]
        for pc2, rv2, m2 in rets[1:]:
            common, g1, g2 = split_pc(pc_, pc2)
            rv = merge_val(g1, rv, rv2) if rv is not None else None
            m = self.merge_mem(g1, m, m2)
            d = or_(g1, g2)
            pc_ = common + ((d,) if d is not TRUE else ())
        return rv, m, pc_

    def block(self, f, b, env, mem, pc, depth):
        V = lambda ty, v: self.val(env, mem, ty, v)
        for pos, ins in enumerate(f.blocks[b]):
            op = ins[0]
            self.ninst += 1
            if op == 'phi':
                continue
            if op in BINF:
                _, dst, ty, a, c, flags = ins
                env[dst] = lanes2(BINF[op], V(ty, a), V(ty, c))
            elif op in BINI:
                _, dst, ty, a, c, flags = ins
                x, y = V(ty, a), V(ty, c)
                env[dst] = lanes2(lambda p, q: int_op(op, p, q), x, y)
                if op in ('udiv', 'urem', 'sdiv', 'srem'):
                    for q in (y if isinstance(y, tuple) else (y,)):
                        self.oblige('ub', pc, t.eq(q, const(0, q.w)), 'division by zero')
            elif op == 'call':
                after = f.blocks[b][pos + 1:pos + 2]
                r = self.call(f, ins, env, mem, pc, depth, bool(after) and after[0][0] == 'unreachable')
                if r == 'stop':
                    return []
                if r is not None:
                    pc = r
            elif op == 'load':
                _, dst, ty, p, al = ins
                env[dst] = self.load(mem, pc, ty, V(('ptr',), p), al)
            elif op == 'store':
                _, _, ty, v, p, al = ins
                self.store(mem, pc, ty, V(ty, v), V(('ptr',), p), al)
            elif op == 'getelementptr':
                _, dst, sty, base, idx = ins
                env[dst] = self.gep(env, mem, sty, V(('ptr',), base), idx)
            elif op == 'alloca':
                _, dst, ty, n, al = ins
                env[dst] = ptr(self.new_obj(mem, sizeof(ty) * n, al, dst), 0)
            elif op == 'insertelement':
                _, dst, ty, v, et, e, it, i = ins
                vec = list(V(ty, v))
                x = V(et, e)
                ix = V(it, i)
                if isc(ix):
                    vec[ix.data] = x
                else:
                    for j in range(len(vec)):
                        vec[j] = merge_val(t.eq(ix, const(j, ix.w)), x, vec[j])
                env[dst] = tuple(vec)
            elif op == 'extractelement':
                _, dst, ty, v, it, i = ins
                vec = V(ty, v)
                ix = V(it, i)
                if isc(ix):
                    env[dst] = vec[ix.data]
                else:
                    r = vec[-1]
                    for j in range(len(vec) - 2, -1, -1):
                        r = merge_val(t.eq(ix, const(j, ix.w)), vec[j], r)
                    env[dst] = r
            elif op == 'shufflevector':
                _, dst, ty, a, c, mt, mv = ins
                x = list(V(ty, a)) + list(V(ty, c))
                idx = self.mask(mt, mv)
                env[dst] = tuple(self.undef_val(ty[2]) if j is None else x[j] for j in idx)
            elif op == 'cast':
                _, dst, cop, ty, v, to = ins
                env[dst] = self.cast(cop, ty, V(ty, v), to)
            elif op == 'fneg':
                env[ins[1]] = lanes1(t.fneg, V(ins[2], ins[3]))
            elif op == 'freeze':
                env[ins[1]] = V(ins[2], ins[3])
            elif op == 'icmp':
                _, dst, pred, ty, a, c = ins
                x, y = V(ty, a), V(ty, c)
                if ty[0] == 'ptr' or isinstance(x, Ptr) or isinstance(y, Ptr):
                    x, y = (q if isinstance(q, Ptr) else ptr(None, q) for q in (x, y))
                    env[dst] = self.ptrcmp(pred, x, y)
                else:
                    env[dst] = lanes2(lambda p, q: t.icmp(pred, p, q), x, y)
            elif op == 'fcmp':
                _, dst, pred, ty, a, c = ins
                env[dst] = lanes2(lambda p, q: t.fcmp(pred, p, q), V(ty, a), V(ty, c))
            elif op == 'select':
                _, dst, ct, c, ty, a, e = ins
                cv, x, y = V(ct, c), V(ty, a), V(ty, e)
                if isinstance(cv, tuple):
                    env[dst] = tuple(merge_val(k, p, q) for k, p, q in zip(cv, x, y))
                else:
                    env[dst] = merge_val(cv, x, y)
            elif op == 'extractvalue':
                x = V(ins[2], ins[3])
                for j in ins[4]:
                    x = x[j]
                env[ins[1]] = x
            elif op == 'insertvalue':
                _, dst, ty, v, et, e, idx = ins
                env[dst] = ins_agg(V(ty, v), V(et, e), idx)
            elif op == 'br':
                return [('go', ins[2], pc)]
            elif op == 'condbr':
                c = V(('i', 1), ins[2])
                if c is TRUE:
                    return [('go', ins[3], pc)]
                if c is FALSE:
                    return [('go', ins[4], pc)]
                if ins[3] == ins[4]:
                    return [('go', ins[3], pc)]
                nc = not_(c)
                s = set(pc)
                if c in s:
                    return [('go', ins[3], pc)]
                if nc in s:
                    return [('go', ins[4], pc)]
                self.nforks += 1
                return [('go', ins[3], pc + (c,)), ('go', ins[4], pc + (nc,))]
            elif op == 'switch':
                _, _, ty, v, d, cases = ins
                x = V(ty, v)
                out = []
                rest = []
                for cv, lb in cases:
                    c = t.eq(x, const(cv, x.w)) if x.w else (x if cv & 1 else not_(x))
                    if c is TRUE:
                        return [('go', lb, pc)]
                    if c is FALSE:
                        continue
                    out.append(('go', lb, pc + (and_(c, *rest),)))
                    rest.append(not_(c))
                r = and_(*rest)
                if r is not FALSE:
                    out.append(('go', d, pc + (r,)))
                # several cases may share a target; phis have one entry per edge with equal values
                return out
            elif op == 'ret':
                return [('ret', pc, None if ins[3] is None else V(ins[2], ins[3]))]
            elif op == 'unreachable':
                self.oblige('ub', pc, TRUE, f'unreachable reached in {f.name}:{b}')
                return []
            elif op == 'fence':
                pass
            else:
                raise Unsupported(op)
        raise Unsupported('block without terminator')

    def mask(self, mt, mv):
        n = mt[1]
        if mv[0] == 'zero':
            return [0] * n
        if mv[0] == 'splat':
            return [mv[2][1]] * n
        if mv[0] == 'undef':
            return [None] * n
        return [None if v[0] == 'undef' else (0 if v[0] == 'zero' else v[1]) for _, v in mv[1]]

    def ptrcmp(self, pred, a, b):
        out = []
        for c1, o1, f1 in a.cases:
            for c2, o2, f2 in b.cases:
                g = and_(c1, c2)
                if g is FALSE:
                    continue
                if o1 == o2:
                    r = t.icmp(pred, f1, f2)
                elif pred == 'eq':
                    r = FALSE
                elif pred == 'ne':
                    r = TRUE
                else:
                    # order of two objects' addresses: unspecified, but the objects do not overlap
                    if o1 is None or o2 is None:
                        raise Unsupported('order of an address and a number')
                    lo, hi = min(o1, o2), max(o1, o2)
                    below = t.var(f'below!{lo}!{hi}', 0) if lo == o1 else not_(t.var(f'below!{lo}!{hi}', 0))
                    r = below if pred in ('ult', 'ule') else not_(below) if pred in ('ugt', 'uge') else None
                    if r is None:
                        raise Unsupported('signed order of addresses')
                out.append(and_(g, r))
        return or_(*out)

    def cast(self, op, ty, v, to):
        if op == 'bitcast':
            if ty[0] == 'ptr':
                return v
            return self.bitcast(ty, v, to)
        if op in ('ptrtoint', 'inttoptr'):
            return v                 # an address stays symbolic; only differences of addresses become numbers
        et = to[2] if to[0] == 'vec' else to
        w = bitsof(et)
        if isinstance(v, tuple):
            return tuple(self.cast1(op, x, w) for x in v)
        return self.cast1(op, v, w)

    def cast1(self, op, v, w):
        if op == 'zext':
            return t.zext(v, w)
        if op == 'sext':
            return t.sext(v, w)
        if op == 'trunc':
            if w == 1:
                return t.bv2bool(t.extract(v, 0, 0))
            return t.extract(v, w - 1, 0)
        if op == 'sitofp':
            if v.w == 0:
                v = t.zext(v, 1)
            return t.cvt('sitofp', w, v)
        if op == 'uitofp':
            if v.w == 0:
                v = t.zext(v, 2)
            return t.cvt('uitofp', w, v)
        if op == 'fpext':
            return t.cvt('fpext', w, v)
        if op == 'fptrunc':
            return t.cvt('fptrunc', w, v)
        if op == 'fptosi':
            return t.cvt('cvttps2dq', w, v)     # out of range is poison in IR; not produced by Rust `as`
        raise Unsupported(op)

    def bitcast(self, ty, v, to):
        # to one little-endian bit string, then cut
        def bits(ty, v):
            if ty[0] == 'vec':
                return t.concat(*[bits(ty[2], x) for x in reversed(v)])
            return t.zext(v, 1) if v.w == 0 else v
        same = ty[0] == 'vec' and to[0] == 'vec' and bitsof(ty[2]) == bitsof(to[2]) and bitsof(to[2]) > 1
        if same:
            return v
        s = bits(ty, v)
        if to[0] == 'vec':
            w = bitsof(to[2])
            r = []
            for j in range(to[1]):
                x = t.extract(s, (j + 1) * w - 1, j * w)
                r.append(t.bv2bool(x) if w == 1 else x)
            return tuple(r)
        if to == ('i', 1):
            return t.bv2bool(s)
        return s

    # ---------------------------------------------------------------- calls
    def call(self, f, ins, env, mem, pc, depth, diverges=False):
        from .intrinsics import INTR, is_noop, is_panic, LIBM
        _, dst, ty, callee, args = ins
        if callee[0] != 'glob':
            p = env[callee[1]]
            if len(p.cases) == 1 and isinstance(p.cases[0][1], tuple):
                name = p.cases[0][1][1]
            else:
                raise Unsupported('indirect call')
        else:
            name = callee[1]
        if is_noop(name):
            return None
        external = self.mod.fn(name) is None and not name.startswith('llvm.')
        if is_panic(name) and (external or '4core' in name or '3std' in name) or external and diverges:
            self.oblige('panic', pc, TRUE, f'{name} reached in {f.name}')
            return 'stop'
        vals = [None if v is None else self.val(env, mem, at, v) for at, v in args]
        if self.mod.fn(name) is not None:
            # the processor is only known to have the features of the configuration (those of every ordinary function) and the x86-64 baseline
            missing = self.mod.feats.get(self.mod.aliases.get(name, name), frozenset()) - self.feats - BASELINE
            if missing:
                self.oblige('feature', pc, TRUE, f'{name} needs the CPU features {sorted(missing)}, which this configuration does not require')
            r = self.run(name, vals, mem, pc, depth + 1)
            if r is None:
                return 'stop'
            rv, m2, pc2 = r
            if dst is not None:
                env[dst] = rv
            if m2 is not mem:
                mem.clear()
                mem.update(m2)
            return pc2
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name == 'memcpy' or name == 'memmove':
            n = vals[2]
            if not isc(n):
                raise Unsupported('memcpy of symbolic length')
            n = n.data
            if n == 0:
                return None
            w = 4 if n % 4 == 0 else 1
            src = self.candidates(mem, pc, vals[1], n, 1, 'memcpy source')
            if not src:
                return 'stop'
            data = []
            if len(src) == 1:
                _, so, soff = src[0]
                o = mem[so]
                pos = soff
                while pos < soff + n:
                    c = o.cells.get(pos)
                    if c is not None and pos + c[0] <= soff + n:
                        data.append((pos - soff, c[0], c[1]))
                        pos += c[0]
                    else:
                        step = min(4 if (soff + n - pos) >= 4 else 1, soff + n - pos)
                        data.append((pos - soff, step, self.read_raw(o, pos, step)))
                        pos += step
            else:
                for q in range(0, n, w):
                    v = None
                    for c, so, soff in reversed(src):
                        x = self.read_raw(mem[so], soff + q, w)
                        v = x if v is None else merge_val(c, x, v)
                    data.append((q, w, v))
            dstc = self.candidates(mem, pc, vals[0], n, 1, 'memcpy destination')
            if not dstc:
                return 'stop'
            if len(dstc) > 1:
                objs = {}
                for c, do, doff in dstc:
                    o2 = objs.setdefault(do, mem[do].copy())
                    for off, k, x in data:
                        self.write_raw(o2, doff + off, k, merge_val(c, x, self.read_raw(o2, doff + off, k)))
                mem.update(objs)
                return None
            _, do, doff = dstc[0]
            if mem[do].const:
                self.oblige('oob', pc, TRUE, 'memcpy to constant memory')
            o2 = mem[do].copy()
            for off, k, x in data:
                self.write_raw(o2, doff + off, k, x)
            mem[do] = o2
            return None
        if name.startswith('llvm.memset') or name == 'memset':
            n, b = vals[2], vals[1]
            if not isc(n):
                raise Unsupported('memset of symbolic length')
            n = n.data
            if n == 0:
                return None
            dstc = self.candidates(mem, pc, vals[0], n, 1, 'memset')
            if len(dstc) != 1:
                raise Unsupported('memset to ambiguous pointer')
            _, do, doff = dstc[0]
            o2 = mem[do].copy()
            pos = 0
            while pos < n:
                k = 4 if n - pos >= 4 else 1
                self.write_raw(o2, doff + pos, k, t.concat(*[b] * k))
                pos += k
            mem[do] = o2
            return None
        if name == 'llvm.assume':
            self.oblige('ub', pc, not_(vals[0]), 'assumption violated')
            return None
        if name in LIBM:
            self.used_intr.add(name)
            env[dst] = t.app(LIBM[name], 32, *vals)
            return None
        if name.startswith('llvm.'):
            h = INTR(name)
            if h is not None:
                self.used_intr.add(name)
                env[dst] = h(vals)
                return None
        raise Unsupported('call ' + name)


def ins_agg(v, e, idx):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        v[idx[0]] = ins_agg(v[idx[0]], e, idx[1:])
    return v


def lanes1(f, a):
    return tuple(f(x) for x in a) if isinstance(a, tuple) else f(a)


def lanes2(f, a, b):
    return tuple(f(x, y) for x, y in zip(a, b)) if isinstance(a, tuple) else f(a, b)


BINF = {
    'fadd': lambda a, b: t.fop('fadd', a, b),
    'fsub': lambda a, b: t.fop('fsub', a, b),
    'fmul': lambda a, b: t.fop('fmul', a, b),
    'fdiv': lambda a, b: t.fop('fdiv', a, b),
    'frem': lambda a, b: t.app('fmod', a.w, a, b),
}
BINI = {'and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}


def ptrdiff(a, b):
    r = None
    for c1, o1, f1 in a.cases:
        for c2, o2, f2 in b.cases:
            if o1 != o2:
                raise Unsupported('difference of unrelated pointers')
            d = t.arith('sub', f1, f2)
            r = d if r is None else ite(and_(c1, c2), d, r)
    return r


def int_op(op, a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            return ptrdiff(a, b)
        if op == 'and' and isinstance(a, Ptr) and isc(b) and (b.data & (b.data + 1)) == 0:
            # low bits of an address: known up to the alignment of the object
            r = None
            for c, o, f in a.cases:
                v = t.bit('bvand', f, b) if o is None or b.data < ALIGN.get(o, 1) else t.bit('bvand', t.var(f'addr{o}', 64), b)
                r = v if r is None else ite(c, v, r)
            return r
        raise Unsupported('arithmetic on an address: ' + op)
    if a.w == 0:
        if op == 'and':
            return and_(a, b)
        if op == 'or':
            return or_(a, b)
        if op in ('xor', 'add', 'sub'):
            return t.xorb(a, b)
        if op == 'mul':
            return and_(a, b)
        raise Unsupported('i1 ' + op)
    if op == 'and':
        return t.bit('bvand', a, b)
    if op == 'or':
        return t.bit('bvor', a, b)
    if op == 'xor':
        return t.bit('bvxor', a, b)
    return t.arith(op, a, b)
