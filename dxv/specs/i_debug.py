"""C33: builds with debug assertions reject the documented-invalid arguments and nothing else.

Decided on the IR of builds with debug assertions and overflow checks (as `cargo build` makes them): the disjunction of the path conditions of every panic
must be unsatisfiable together with the documented validity condition of the arguments, and implied by its negation where the function checks it."""
import numpy as np
from .. import build, native, smt
from .. import terms as t
from ..core import W, short
from ..evalc import eval_oracle
from ..spec import F, META, PARTS, Real, V, and_, args_of, custom, fc, ieq, iult, not_, or_, ZERO

FPMS = {'quick': 8000, 'thorough': 300000}
SIZE = {4: 'sphere', 6: 'box', 10: 'obox', 13: 'frustum'}


def unit(real, fn, v):
    return and_(*[x < fc(1e-4) for x in real('XMVectorAbs', real(fn, v) - 1)])


def zero3(v):
    return and_(*[x.feq(0) for x in v[:3]])


def inf(v, n):
    return or_(*[x.isinf() for x in v[:n]])


def near(a, b, eps):
    return (a - b).abs() <= fc(eps)


def finite(*xs):
    return and_(*[and_(not_(x.isinf()), not_(x.isnan())) for x in xs])


def same(v):
    return and_(*[x.feq(v[0]) for x in v])


def ident(v):
    return and_(*[t.eq(x.t, v[0].t) for x in v])


def all_(v, f):
    return and_(*[f(x) for x in v])


# wrapper -> function of (arguments, real) giving [(name of the condition, validity, checked?)]
VALID = {}
NEVER = 'never'


def valid(*names):
    def deco(fn):
        for n in names:
            assert n in W, n
            VALID[n] = fn
        return fn
    return deco


@valid('XMVectorClamp')
def _(a, real):
    v, lo, hi = a
    return [('Min <= Max', and_(*[x <= y for x, y in zip(lo, hi)]), True)]


def clampv(n):
    def f(a, real):
        v, lo, hi = a
        lo, hi = ([x] * 4 if isinstance(x, F) else x for x in (lo, hi))
        k = 2 if n == 2 else 4
        return [('lengths replicated', and_(same(lo[:k]), same(hi[:k])), True), ('0 <= LengthMin', all_(lo[:k], lambda x: x >= 0), True),
                ('0 <= LengthMax', all_(hi[:k], lambda x: x >= 0), True), ('LengthMin <= LengthMax', and_(*[x <= y for x, y in zip(lo[:k], hi[:k])]), True)]
    return f


for _n in (2, 4):
    VALID[f'XMVector{_n}ClampLength'] = VALID[f'XMVector{_n}ClampLengthV'] = clampv(_n)


@valid('XMFresnelTerm')
def _(a, real):
    return [('cosine not infinite', not_(inf(a[0], 4)), True)]


@valid('XMMatrixRotationAxis', 'XMQuaternionRotationAxis')
def _(a, real):
    return [('axis not zero', not_(zero3(a[0])), True), ('axis not infinite', not_(inf(a[0], 3)), True)]


@valid('XMMatrixReflect', 'XMMatrixShadow')
def _(a, real):
    return [('plane normal not zero', not_(zero3(a[0])), True), ('plane not infinite', not_(inf(a[0], 4)), True)]


def look(at):
    def f(a, real):
        e, d, up = a
        if at:
            d = V(d) - V(e)
        return [('direction not zero', not_(zero3(d)), True), ('direction not infinite', not_(inf(d, 3)), True),
                ('up not zero', not_(zero3(up)), True), ('up not infinite', not_(inf(up, 3)), True)]
    return f


for _h in ('LH', 'RH'):
    VALID['XMMatrixLookTo' + _h] = look(False)
    VALID['XMMatrixLookAt' + _h] = look(True)

    @valid('XMMatrixPerspective' + _h)
    def _(a, real):
        w, h, n, f = a
        return [('near and far positive', and_(n > 0, f > 0), True), ('width', not_(near(w, ZERO, 1e-5)), True), ('height', not_(near(h, ZERO, 1e-5)), True), ('near != far', not_(near(f, n, 1e-5)), True)]

    @valid('XMMatrixPerspectiveFov' + _h)
    def _(a, real):
        fov, asp, n, f = a
        return [('near and far positive', and_(n > 0, f > 0), True), ('angle', not_(near(fov, ZERO, 2e-5)), True), ('aspect', not_(near(asp, ZERO, 1e-5)), True), ('near != far', not_(near(f, n, 1e-5)), True)]

    @valid('XMMatrixPerspectiveOffCenter' + _h)
    def _(a, real):
        l, r, b, tp, n, f = a
        return [('near and far positive', and_(n > 0, f > 0), True), ('left != right', not_(near(r, l, 1e-5)), True), ('bottom != top', not_(near(tp, b, 1e-5)), True), ('near != far', not_(near(f, n, 1e-5)), True)]

    @valid('XMMatrixOrthographic' + _h)
    def _(a, real):
        w, h, n, f = a
        return [('width', not_(near(w, ZERO, 1e-5)), True), ('height', not_(near(h, ZERO, 1e-5)), True), ('near != far', not_(near(f, n, 1e-5)), True)]


@valid('XMQuaternionSlerp', 'XMQuaternionSlerpV')
def _(a, real):
    tt = a[-1]
    return [('parameter replicated', same(tt) if isinstance(tt, list) else tt.feq(tt), True)]


@valid('XMQuaternionSquad', 'XMQuaternionSquadV')
def _(a, real):
    tt = a[-1] if isinstance(a[-1], list) else [a[-1]]
    return [('parameter replicated', same(tt), True), ('parameter finite', finite(*tt), False), ('identical components', ident(tt), False)]


@valid('XMQuaternionBaryCentric', 'XMQuaternionBaryCentricV')
def _(a, real):
    f, g = (x if isinstance(x, list) else [x] for x in a[-2:])
    vec = len(f) > 1
    return [('f replicated', same(f), vec), ('g replicated', same(g), vec), ('finite', finite(*f, *g, f[0] + g[0]), False), ('identical components', and_(ident(f), ident(g)), False)]


@valid('XMConvertVectorFloatToInt', 'XMConvertVectorFloatToUInt', 'XMConvertVectorIntToFloat', 'XMConvertVectorUIntToFloat')
def _(a, real):
    return [('exponent < 32', iult(a[1], 32), True)]


def between(x, lo, hi):
    return t.ult(t.arith('sub', x.t, t.const(lo & 0xFFFFFFFF, 32)), t.const(hi - lo + 1, 32))


@valid('XMVectorSplatConstant')
def _(a, real):
    return [('constant in -16..15', between(a[0], -16, 15), True), ('exponent < 32', iult(a[1], 32), True)]


@valid('XMVectorSplatConstantInt')
def _(a, real):
    return [('constant in -16..15', between(a[0], -16, 15), True)]


@valid('XMVectorGetByIndex', 'XMVectorGetIntByIndex')
def _(a, real):
    return [('index < 4', iult(a[1], 4), True)]


@valid('XMVectorSetByIndex', 'XMVectorSetIntByIndex')
def _(a, real):
    return [('index < 4', iult(a[2], 4), True)]


@valid('XMVectorSwizzle')
def _(a, real):
    return [('indices < 4', and_(*[iult(x, 4) for x in a[1:]]), True)]


@valid('XMVectorPermute')
def _(a, real):
    return [('indices < 8', and_(*[iult(x, 8) for x in a[2:]]), True)]


@valid('XMVectorShiftLeft')
def _(a, real):
    return [('elements < 4', iult(a[2], 4), True)]


@valid('XMVectorRotateLeft', 'XMVectorRotateRight')
def _(a, real):
    return [('elements < 4', iult(a[1], 4), True)]


@valid('XMVectorInsert')
def _(a, real):
    return [('elements < 4', iult(a[2], 4), True), ('selectors 0 or 1', and_(*[iult(x, 2) for x in a[3:]]), False)]


@valid('XMVectorSelectControl')
def _(a, real):
    return [('selectors 0 or 1', and_(*[iult(x, 2) for x in a]), False)]


# ---------------------------------------------------------------- bounding volumes
def volumes(name):
    w = W[name]
    names = [e[0] for e in w['lin']]

    def f(a, real):
        out = []
        for e, x in zip(w['lin'], a):
            kind = SIZE.get(e[3]) if e[1] == 'S' else None
            if kind == 'obox':
                out.append((f'{e[0]}: unit orientation', unit(real, 'XMVector4Length', x[6:10]), True))
            elif kind == 'frustum':
                out.append((f'{e[0]}: unit orientation', unit(real, 'XMVector4Length', x[3:7]), True))
            elif e[0] == 'Direction':
                out.append(('unit direction', unit(real, 'XMVector3Length', x), True))
            elif e[0] == 'Plane':
                out.append(('unit plane', unit(real, 'XMVector3Length', x), True))
            elif e[0] == 'Rotation':
                out.append(('unit rotation', unit(real, 'XMVector4Length', x), True))
        for i in 'V', 'A', 'B':
            if i + '0' in names:
                p = [a[names.index(i + k)] for k in '012']
                n = real('XMVector3Cross', p[1] - p[0], p[2] - p[0])
                if name.startswith('Sphere_'):          # the normal is normalised before it is tested
                    n = real('XMVector3Normalize', n)
                out.append((f'triangle {i} has an area', not_(zero3(n)), True))
                out.append((f'triangle {i} finite', finite(*[x for q in p for x in q[:3]], *n[:3]), False))
        return out
    return f


@valid('Box_CreateFromSphere')
def _(a, real):
    s, = a
    return [('radius not negative', and_(*[s[k] - s[3] <= s[k] + s[3] for k in range(3)]), True)]


@valid('Box_CreateMerged')
def _(a, real):
    b1, b2 = ([V(list(b[:3]) + [ZERO]), V(list(b[3:]) + [ZERO])] for b in a)
    lo = real('XMVectorMin', b1[0] - b1[1], b2[0] - b2[1])
    hi = real('XMVectorMax', b1[0] + b1[1], b2[0] + b2[1])
    return [('corners ordered', and_(*[lo[k] <= hi[k] for k in range(3)]), True)]


for _n in sorted(W):
    if _n.split('_')[0] in ('Box', 'OBox', 'Sphere', 'Frustum', 'Tri') and _n not in VALID:
        VALID[_n] = volumes(_n)
# (wrapper, condition): not checked by the function on every path
UNCHECKED = {(n, c) for n in W for c in ('triangle V has an area', 'triangle B has an area')} - {(n, 'triangle V has an area') for n in ('Sphere_ContainsTriangle', 'Sphere_IntersectsTriangle')}
UNCHECKED |= {(f'Frustum_{m}', 'self: unit orientation') for m in ('ContainsFrustum', 'ContainsTriangle', 'ContainsBox', 'ContainsSphere', 'ContainsOrientedBox', 'GetPlanes')}
UNCHECKED |= {('Frustum_IntersectsRay', 'unit direction'), ('OBox_IntersectsTriangle', 'self: unit orientation'), ('OBox_ContainsTriangle', 'self: unit orientation'),
              ('OBox_ContainsPoint', 'self: unit orientation'), ('Sphere_CreateFromBoundingOrientedBox', 'b: unit orientation'), ('Sphere_TransformDecomposed', 'unit rotation')}
# whether the internally rotated triangle keeps an area is a question of rounding
ROUNDING = {'OBox_IntersectsTriangle', 'OBox_ContainsTriangle', 'Tri_IntersectsTriangle'}


REPLICATED = {n: {e[2] + k: e[2] for e in W[n]['lin'][-m:] for k in (1, 2, 3)} for n, m in (('XMQuaternionBaryCentricV', 2), ('XMQuaternionSquadV', 1))}


def mk(name):
    w = W[name]
    total = not any(e[1] == 'u' for e in w['lin'])

    def run(ctx, rng, tier):
        e = ctx.encode(name)
        info = dict(name=name, ninst=e.ninst, called=sorted(short(c) for c in e.called))
        pan = t.or_(*[o.cond for o in e.obls if o.kind in ('panic', 'unreachable')]) if e.obls else t.FALSE
        conds = VALID[name](args_of(name, e.ins), Real(ctx)) if name in VALID else []
        if name not in VALID and not total:
            conds = [('-', t.FALSE, False)]
        queries = [(True, 'valid arguments', [pan] + [c for _, c, _ in conds])] if name not in ROUNDING else []
        queries += [(False, nm, [t.not_(pan), t.not_(c)]) for nm, c, chk in conds if chk and (name, nm) not in UNCHECKED]
        n = 0
        for ispanic, nm, q in queries:
            label = f'{name}: ' + ('no panic for valid arguments' if ispanic else f'panic unless {nm}')
            if REPLICATED.get(name) and ispanic:        # bit-identical components: one variable
                q = t.substitute(q, {e.ins[k].id: e.ins[j] for k, j in REPLICATED[name].items()})
            if any(x is t.FALSE for x in q):
                n += 1
                continue
            st, why = None, ''
            cl = [c for _, c, _ in conds] if ispanic else [c for n2, c, _ in conds if n2 == nm]
            for mode, ms in (('uf', 5000), ('fp', FPMS[tier]), ('search', 0)):
                if mode == 'search':
                    cand = candidates(name, rng, 200 if tier == 'quick' else 5000)
                else:
                    r, m = smt.solve(q, mode, ms, 'assertion')
                    if r == 'unsat':
                        st = 'holds'
                        break
                    why = f'{label}: solver {r} ({mode})'
                    if r != 'sat':
                        continue
                    cand = np.array([[m.get(f'i{k}', 0) for k in range(w['nin'])]], dtype=np.uint32)
                words = confirm(ctx, name, cand, cl, ispanic)
                if words:
                    yield dict(status='violated', how='native replay', why=label, mode='assertion', label=label,
                               cex=dict(words=words, lane=None, expected='no panic' if ispanic else f'panic (not: {nm})', got='panic' if ispanic else 'no panic', kind='assertion'), **info)
                    return
            if st is None:
                yield dict(status='inconclusive', how='assertion', why=why, mode='assertion', label=label, **info)
            else:
                n += 1
        yield dict(status='holds', how='assertions', why=f'{n} claims', mode='assertion', **info)
    return run


def confirm(ctx, name, cand, conds, ispanic):
    """the first candidate whose arguments are certainly valid (resp. invalid) and on which the compiled function panics (resp. does not)"""
    w = W[name]
    for row in cand:
        words = [int(x) for x in row]
        env = {f'i{k}': x for k, x in enumerate(words)}
        v = [eval_oracle([c], env)[0] for c in conds]
        v = 0 if 0 in v else (None if None in v else 1)
        if v is None or bool(v) != ispanic:
            continue
        out, alive, died = native.run_many(build.so_path(ctx.cfg), 'h_' + name, np.array([words], dtype=np.uint32), w['nout'])
        if bool(died) == ispanic:
            return words
    return None


def candidates(name, rng, n):
    """valid-looking arguments, some with one argument rescaled, zeroed or made infinite"""
    w = W[name]
    r = np.random.default_rng(rng.randrange(1 << 30))
    X = r.uniform(-2, 2, size=(n, w['nin'])).astype(np.float32)
    if name.split('_')[0] in ('Box', 'OBox', 'Sphere', 'Frustum', 'Tri'):
        from .g_collision import gen_of
        X = gen_of(name)(r, n).view(np.float32).copy()
    spans = []
    for e in w['lin']:
        k = {'V': 4, 'M': 16, 'f': 1, 'u': 1}.get(e[1], e[3] if len(e) > 3 else 1)
        spans.append((e[2], k))
        if e[1] == 'S' and SIZE.get(k) == 'obox':
            spans.append((e[2] + 6, 4))
        if e[1] == 'S' and SIZE.get(k) == 'frustum':
            spans.append((e[2] + 3, 4))
    f = [1, 1, 1 + 3e-5, 1 - 3e-5, 1 + 3e-4, 1 - 3e-4, 1.002, 0.998, 1.05, 0.9, 2, 0, -1, np.inf]
    for q in range(n):
        if q % 3:
            o, k = spans[r.integers(len(spans))]
            if r.random() < 0.3:
                o, k = o + r.integers(k), 1
            with np.errstate(all='ignore'):
                X[q, o:o + k] *= np.float32(f[r.integers(len(f))])
    return X.view(np.uint32)


for _n in sorted(W):
    custom('C33', _n)(mk(_n))
PARTS['C33'] = 2
META['C33'] = {'cfgs': build.DBG,
               'bounds': 'all 2^32 bit patterns of every input word; loops over points: 1 to 4 points; every other loop fully unrolled',
               'assumptions': ['the standard library\'s own checks of unsafe preconditions are covered by C32']}
