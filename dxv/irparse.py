"""Parser for the subset of textual LLVM IR that rustc emits for this crate."""
import re
import struct


class Fn:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'order', 'lines')


# ---- types: ('i',n) ('f',w) ('ptr',) ('void',) ('arr',n,t) ('vec',n,t) ('struct',[t],packed)
def sizeof(t):
    k = t[0]
    if k == 'i':
        return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
    if k == 'f':
        return t[1] // 8
    if k == 'ptr':
        return 8
    if k in ('arr',):
        return t[1] * sizeof(t[2])
    if k == 'vec':
        return t[1] * bitsof(t[2]) // 8
    if k == 'struct':
        off = 0
        for e in t[1]:
            if not t[2]:
                a = alignof(e)
                off = (off + a - 1) // a * a
            off += sizeof(e)
        if not t[2] and t[1]:
            a = max(alignof(e) for e in t[1])
            off = (off + a - 1) // a * a
        return off
    raise Exception(t)


def bitsof(t):
    if t[0] in ('i', 'f'):
        return t[1]
    return sizeof(t) * 8


def alignof(t):
    k = t[0]
    if k in ('i', 'f', 'ptr'):
        return min(sizeof(t), 16)
    if k == 'arr':
        return alignof(t[2])
    if k == 'vec':
        return sizeof(t)
    if k == 'struct':
        return 1 if t[2] or not t[1] else max(alignof(e) for e in t[1])
    raise Exception(t)


def struct_offsets(t):
    off = 0
    out = []
    for e in t[1]:
        if not t[2]:
            a = alignof(e)
            off = (off + a - 1) // a * a
        out.append(off)
        off += sizeof(e)
    return out


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@]"(?:[^"\\]|\\.)*"|[%@][-a-zA-Z$._0-9]+)
 | (?P<num>[-+]?(?:f?0x[KLMHR]?[0-9A-Fa-f]+|\d+\.\d*(?:[eE][-+]?\d+)?|\d+|inf|qnan|snan|nan)(?:\(0x[0-9A-Fa-f]+\))?)(?![a-zA-Z_])
 | (?P<meta>![a-zA-Z0-9_.]*)
 | (?P<attr>\#\d+)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<p>\.\.\.|[<>{}\[\](),=*:])
)''', re.X)


class Toks:
    def __init__(self, s):
        self.t = []
        pos = 0
        n = len(s)
        while pos < n:
            if s[pos] == ';':
                break
            m = TOK.match(s, pos)
            if not m:
                if s[pos:].strip() == '':
                    break
                raise Exception('lex: ' + s[pos:pos + 60] + ' in ' + s[:200])
            pos = m.end()
            k = m.lastgroup
            self.t.append((k, m.group(k)))
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, o=0):
        j = self.i + o
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        g = self.next()
        if g != v:
            raise Exception(f'expected {v} got {g} in {self.t}')

    def eof(self):
        return self.i >= len(self.t)


NAMED = {}          # named struct types


def p_type(k):
    t = k.next()
    if t == 'void':
        return ('void',)
    if t == 'ptr':
        return ('ptr',)
    if t == 'float':
        return ('f', 32)
    if t == 'double':
        return ('f', 64)
    if t == 'half':
        return ('f', 16)
    if t == 'metadata':
        return ('meta',)
    if t == 'label':
        return ('label',)
    if re.fullmatch(r'i\d+', t):
        return ('i', int(t[1:]))
    if t == '[':
        n = int(k.next())
        k.expect('x')
        e = p_type(k)
        k.expect(']')
        return ('arr', n, e)
    if t == '<':
        if k.peek() == '{':
            k.next()
            es = []
            while not k.eat('}'):
                es.append(p_type(k))
                k.eat(',')
            k.expect('>')
            return ('struct', tuple(es), True)
        n = int(k.next())
        k.expect('x')
        e = p_type(k)
        k.expect('>')
        return ('vec', n, e)
    if t == '{':
        es = []
        while not k.eat('}'):
            es.append(p_type(k))
            k.eat(',')
        return ('struct', tuple(es), False)
    if t in NAMED:
        return NAMED[t]
    raise Exception('type ' + t + ' in ' + str(k.t[:30]))


def is_type_start(k):
    t = k.peek()
    return t in ('void', 'ptr', 'float', 'double', 'half', '[', '<', '{', 'metadata', 'label') or (t is not None and re.fullmatch(r'i\d+', t))


def fbits(s, w):
    neg = False
    if s.startswith('f0x'):
        return int(s[3:], 16)
    if s.startswith('0xH'):
        return int(s[3:], 16)
    if s.startswith('0x'):
        d = int(s[2:], 16)          # double bit pattern
        if w == 64:
            return d
        x = struct.unpack('<d', struct.pack('<Q', d))[0]
        if x != x:
            return ((d >> 32) & 0x80000000) | 0x7F800000 | ((d >> 29) & 0x7FFFFF)
        return struct.unpack('<I', struct.pack('<f', x))[0]
    m = re.fullmatch(r'([-+]?)(inf|qnan|nan|snan)(?:\(0x([0-9A-Fa-f]+)\))?', s)
    if m:
        sg = 1 if m.group(1) == '-' else 0
        if w == 32:
            base = 0x7F800000
            if m.group(2) == 'qnan':
                base |= 0x400000
            if m.group(3):
                base |= int(m.group(3), 16)
            elif m.group(2) in ('nan',):
                base |= 0x400000
            return (sg << 31) | base
        base = 0x7FF0000000000000 | (0 if m.group(2) == 'inf' else 1 << 51)
        return (sg << 63) | base
    x = float(s)
    if w == 32:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    return struct.unpack('<H', struct.pack('<e', x))[0]


# ---- values: ('reg',name) ('glob',name) ('int',v) ('fb',bits) ('zero',) ('undef',) ('null',)
#              ('agg',[ (type,val) ]) ('splat',(t,v)) ('bytes',b) ('cexpr', op, ...)
def p_value(k, ty):
    kd = k.kind()
    t = k.next()
    if kd == 'id':
        return ('reg', t[1:]) if t[0] == '%' else ('glob', t[1:].strip('"'))
    if kd == 'num':
        if ty[0] == 'f':
            return ('fb', fbits(t, ty[1]))
        return ('int', int(t, 0))
    if kd == 'str':
        return ('bytes', unesc(t))
    if t == 'true':
        return ('int', 1)
    if t == 'false':
        return ('int', 0)
    if t == 'zeroinitializer':
        return ('zero',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'null':
        return ('null',)
    if t == 'splat':
        k.expect('(')
        et = p_type(k)
        v = p_value(k, et)
        k.expect(')')
        return ('splat', et, v)
    if t in ('<', '[', '{'):
        close = {'<': '>', '[': ']', '{': '}'}[t]
        if t == '<' and k.peek() == '{':
            k.next()
            close = '}'
        es = []
        while not k.eat(close):
            et = p_type(k)
            es.append((et, p_value(k, et)))
            k.eat(',')
        if t == '<' and close == '}':
            k.expect('>')
        return ('agg', es)
    if t == 'inttoptr':
        k.expect('(')
        it = p_type(k)
        v = p_value(k, it)
        k.expect('to')
        p_type(k)
        k.expect(')')
        return ('inttoptr', v)
    if t == 'getelementptr':
        while k.peek() != '(':
            k.next()
        k.expect('(')
        st = p_type(k)
        k.expect(',')
        pt = p_type(k)
        base = p_value(k, pt)
        idx = []
        while k.eat(','):
            it = p_type(k)
            idx.append((it, p_value(k, it)))
        k.expect(')')
        return ('cgep', st, base, idx)
    raise Exception(f'value {t} ({ty}) in {k.t}')


def unesc(s):
    s = s[1:] if s[0] == 'c' else s
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5C)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf8')
            i += 1
    return bytes(out)


def skip_attrs(k):
    """parameter/return attributes up to a value or ',' / ')' ; returns dict of align"""
    at = {}
    while True:
        kd, t = k.kind(), k.peek()
        if kd == 'str':
            k.next()
            if k.eat('='):
                k.next()
            continue
        if kd != 'word':
            return at
        if t in ('true', 'false', 'zeroinitializer', 'undef', 'poison', 'null', 'splat', 'getelementptr', 'inttoptr'):
            return at
        if is_type_start(k):
            return at
        k.next()
        if t == 'align' and k.kind() == 'num':
            at['align'] = int(k.next())
        elif k.peek() == '(':
            d = 0
            while True:
                x = k.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
    return at


FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'inbounds', 'nusw', 'samesign', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'tail', 'notail', 'musttail', 'inrange'}
CASTS = {'bitcast', 'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'freeze'}
BIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}


def p_inst(line):
    if '/*' in line:
        line = re.sub(r'/\*.*?\*/', '', line)
    k = Toks(line)
    dst = None
    if k.kind() == 'id' and k.peek(1) == '=':
        dst = k.next()[1:]
        k.next()
    op = k.next()
    flags = set()
    while op in ('tail', 'notail', 'musttail'):
        op = k.next()
    while k.peek() in FLAGS:
        f = k.next()
        flags.add(f)
        if k.peek() == '(':          # inrange(...)
            while k.next() != ')':
                pass
    if op in BIN:
        ty = p_type(k)
        a = p_value(k, ty)
        k.expect(',')
        b = p_value(k, ty)
        return (op, dst, ty, a, b, flags)
    if op == 'fneg':
        ty = p_type(k)
        return (op, dst, ty, p_value(k, ty))
    if op in ('icmp', 'fcmp'):
        pred = k.next()
        ty = p_type(k)
        a = p_value(k, ty)
        k.expect(',')
        b = p_value(k, ty)
        return (op, dst, pred, ty, a, b)
    if op == 'freeze':
        ty = p_type(k)
        return ('freeze', dst, ty, p_value(k, ty))
    if op in CASTS:
        ty = p_type(k)
        v = p_value(k, ty)
        k.expect('to')
        to = p_type(k)
        return ('cast', dst, op, ty, v, to)
    if op == 'select':
        ct = p_type(k)
        c = p_value(k, ct)
        k.expect(',')
        ty = p_type(k)
        a = p_value(k, ty)
        k.expect(',')
        p_type(k)
        b = p_value(k, ty)
        return (op, dst, ct, c, ty, a, b)
    if op == 'load':
        ty = p_type(k)
        k.expect(',')
        pt = p_type(k)
        p = p_value(k, pt)
        al = 1
        while k.eat(','):
            if k.eat('align'):
                al = int(k.next())
            else:
                break
        return (op, dst, ty, p, al)
    if op == 'store':
        ty = p_type(k)
        v = p_value(k, ty)
        k.expect(',')
        pt = p_type(k)
        p = p_value(k, pt)
        al = 1
        while k.eat(','):
            if k.eat('align'):
                al = int(k.next())
            else:
                break
        return (op, dst, ty, v, p, al)
    if op == 'alloca':
        ty = p_type(k)
        al = alignof(ty)
        n = 1
        while k.eat(','):
            if k.eat('align'):
                al = int(k.next())
            elif is_type_start(k):
                t2 = p_type(k)
                n = p_value(k, t2)[1]
            else:
                break
        return (op, dst, ty, n, al)
    if op == 'getelementptr':
        st = p_type(k)
        k.expect(',')
        pt = p_type(k)
        base = p_value(k, pt)
        idx = []
        while k.eat(','):
            if k.kind() == 'meta':
                break
            it = p_type(k)
            idx.append((it, p_value(k, it)))
        return (op, dst, st, base, idx)
    if op == 'extractelement':
        ty = p_type(k)
        v = p_value(k, ty)
        k.expect(',')
        it = p_type(k)
        return (op, dst, ty, v, it, p_value(k, it))
    if op == 'insertelement':
        ty = p_type(k)
        v = p_value(k, ty)
        k.expect(',')
        et = p_type(k)
        e = p_value(k, et)
        k.expect(',')
        it = p_type(k)
        return (op, dst, ty, v, et, e, it, p_value(k, it))
    if op == 'shufflevector':
        ty = p_type(k)
        a = p_value(k, ty)
        k.expect(',')
        p_type(k)
        b = p_value(k, ty)
        k.expect(',')
        mt = p_type(k)
        m = p_value(k, mt)
        return (op, dst, ty, a, b, mt, m)
    if op == 'extractvalue':
        ty = p_type(k)
        v = p_value(k, ty)
        idx = []
        while k.eat(','):
            if k.kind() != 'num':
                break
            idx.append(int(k.next()))
        return (op, dst, ty, v, idx)
    if op == 'insertvalue':
        ty = p_type(k)
        v = p_value(k, ty)
        k.expect(',')
        et = p_type(k)
        e = p_value(k, et)
        idx = []
        while k.eat(','):
            if k.kind() != 'num':
                break
            idx.append(int(k.next()))
        return (op, dst, ty, v, et, e, idx)
    if op == 'phi':
        ty = p_type(k)
        inc = []
        while True:
            k.expect('[')
            v = p_value(k, ty)
            k.expect(',')
            b = k.next()[1:]
            k.expect(']')
            inc.append((v, b))
            if not k.eat(','):
                break
            if k.peek() != '[':
                break
        return (op, dst, ty, inc)
    if op == 'br':
        if k.eat('label'):
            return ('br', None, k.next()[1:])
        ty = p_type(k)
        c = p_value(k, ty)
        k.expect(',')
        k.expect('label')
        a = k.next()[1:]
        k.expect(',')
        k.expect('label')
        b = k.next()[1:]
        return ('condbr', None, c, a, b)
    if op == 'switch':
        ty = p_type(k)
        v = p_value(k, ty)
        k.expect(',')
        k.expect('label')
        d = k.next()[1:]
        k.expect('[')
        cases = []
        while not k.eat(']'):
            ct = p_type(k)
            cv = p_value(k, ct)
            k.expect(',')
            k.expect('label')
            cases.append((cv[1], k.next()[1:]))
        return ('switch', None, ty, v, d, cases)
    if op == 'ret':
        ty = p_type(k)
        if ty[0] == 'void':
            return ('ret', None, ty, None)
        return ('ret', None, ty, p_value(k, ty))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'call':
        # [cconv] [ret attrs] type callee(args)
        while k.kind() == 'word' and (k.peek() in ('fastcc', 'coldcc', 'ccc') or k.peek() in FLAGS):
            k.next()
        skip_attrs(k)
        ty = p_type(k)
        if k.peek() == '(':     # function type with varargs
            d = 0
            while True:
                x = k.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        if k.kind() == 'word' and k.peek() == 'asm':
            return ('asm', dst, ty, line)
        callee = p_value(k, ('ptr',))
        k.expect('(')
        args = []
        while not k.eat(')'):
            at = p_type(k)
            if at[0] == 'meta':
                # skip metadata operand
                d = 0
                while not (d == 0 and k.peek() in (',', ')')):
                    x = k.next()
                    d += (x in '({') - (x in ')}')
                args.append((at, None))
            else:
                skip_attrs(k)
                args.append((at, p_value(k, at)))
            k.eat(',')
        return ('call', dst, ty, callee, args)
    if op in ('fence',):
        return ('fence', None)
    raise Exception('inst ' + line)


LABEL = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')


class Module:
    def __init__(self):
        self.fns = {}
        self.globs = {}
        self.raw = {}
        self.aliases = {}
        self.feats = {}         # function: the CPU features it is compiled for

    def load(self, path):
        text = open(path).read().split('\n')
        group, attrs = {}, {}
        i = 0
        n = len(text)
        while i < n:
            l = text[i]
            if l.startswith('define '):
                name = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l).group(1).strip('"')
                body = []
                i += 1
                while text[i] != '}':
                    body.append(text[i])
                    i += 1
                if name not in self.raw:
                    self.raw[name] = (l, body)
                    ma = re.search(r'\) (?:.* )?#(\d+)\b', l)
                    group[name] = ma and ma.group(1)
            elif l.startswith('attributes #'):
                ma = re.search(r'"target-features"="([^"]*)"', l)
                attrs[re.match(r'attributes #(\d+)', l).group(1)] = frozenset(x[1:] for x in ma.group(1).split(',') if x.startswith('+')) if ma else frozenset()
            elif l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                if rest != 'opaque':
                    NAMED[nm] = p_type(Toks(rest))
            elif l.startswith('@'):
                m = re.match(r'^@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                nm = m.group(1).strip('"')
                rest = m.group(2)
                ma = re.search(r'\balias\b.*@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*$', rest)
                if re.search(r'\balias\b', rest) and ma:
                    self.aliases[nm] = ma.group(1).strip('"')
                else:
                    # private globals of different modules share content-hash names
                    self.globs.setdefault(nm, rest)
            i += 1
        for name, g in group.items():
            self.feats[name] = attrs.get(g, frozenset())

    def glob(self, name):
        g = self.globs.get(name)
        if isinstance(g, str):
            m = re.search(r'\b(constant|global)\b (.*)$', g)
            k = Toks(m.group(2))
            ty = p_type(k)
            if k.eof() or k.peek() == ',':
                g = (ty, None, 1, m.group(1) == 'constant')
            else:
                v = p_value(k, ty)
                al = re.search(r', align (\d+)', g)
                g = (ty, v, int(al.group(1)) if al else 1, m.group(1) == 'constant')
            self.globs[name] = g
        return g

    def fn(self, name):
        name = self.aliases.get(name, name)
        f = self.fns.get(name)
        if f is not None:
            return f
        if name not in self.raw:
            return None
        head, body = self.raw[name]
        f = Fn()
        f.name = name
        k = Toks(head)
        # find '@name' token then params
        while not (k.kind() == 'id' and k.peek()[1:].strip('"') == name):
            k.next()
        k.next()
        k.expect('(')
        f.params = []
        while not k.eat(')'):
            pt = p_type(k)
            at = skip_attrs(k)
            pn = k.next()[1:]
            f.params.append((pn, pt, at))
            k.eat(',')
        f.blocks = {}
        f.order = []
        cur = None
        j = 0
        while j < len(body):
            l = body[j]
            j += 1
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            if not l.startswith(' '):
                m = LABEL.match(l)
                cur = m.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = 'start'
                f.blocks[cur] = []
                f.order.append(cur)
            if s.startswith('#dbg'):
                continue
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                while ']' not in body[j]:
                    s += ' ' + body[j].strip()
                    j += 1
                s += ' ' + body[j].strip()
                j += 1
            f.blocks[cur].append(p_inst(s))
        f.lines = wto(f.order[0], {b: succs(f.blocks[b][-1]) for b in f.order})
        self.fns[name] = f
        return f


def succs(t):
    if t[0] == 'br':
        return [t[2]]
    if t[0] == 'condbr':
        return [t[3], t[4]]
    if t[0] == 'switch':
        return [t[4]] + [b for _, b in t[5]]
    return []


def sccs(nodes, succ, roots):
    """Tarjan; returns components in reverse topological order"""
    index, low, on, st, out = {}, {}, set(), [], []
    for r in roots:
        if r in index or r not in nodes:
            continue
        work = [(r, iter(succ[r]))]
        index[r] = low[r] = len(index)
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            push = None
            for w in it:
                if w not in nodes:
                    continue
                if w not in index:
                    push = w
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            if push is not None:
                index[push] = low[push] = len(index)
                st.append(push)
                on.add(push)
                work.append((push, iter(succ[push])))
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                c = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(c)
    return out


def wto(entry, succ):
    """weak topological order: a loop's blocks come before every block the loop exits to"""
    pos = {}

    def go(nodes, roots):
        for c in reversed(sccs(nodes, succ, roots)):
            if len(c) == 1:
                pos[c[0]] = len(pos)
                continue
            cs = set(c)
            # header: the member entered from outside (first placed predecessor), else any
            head = None
            for b in c:
                if b == entry or any(b in succ[p] for p in succ if p not in cs and p in pos):
                    head = b
                    break
            if head is None:
                head = c[-1]
            pos[head] = len(pos)
            rest = cs - {head}
            go(rest, [x for x in succ[head] if x in rest] + sorted(rest))
    go(set(succ), [entry])
    return pos
