"""Generates harness/src/g_collision.rs and g_ops.rs (operators, conversions, trait permutes) and extends wrappers.json."""
import json, os, itertools
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
HEAD = '// GENERATED by dxv/gen_harness2.py - do not edit.\nuse crate::util::*;\nuse directx_math::*;\n'

SZ = {'V': 4, 'M': 16, 'f': 1, 'u': 1, 'BoundingSphere': 4, 'BoundingBox': 6, 'BoundingOrientedBox': 10, 'BoundingFrustum': 13}
SHORT = {'BoundingSphere': 'Sphere', 'BoundingBox': 'Box', 'BoundingOrientedBox': 'OBox', 'BoundingFrustum': 'Frustum'}


def collision():
    out, tab = [], {}

    def emit(name, ins, outs, callf, ret):
        """ins: [(name,type)], outs: [(name,type)] written through &mut aliasing o; callf(inexprs,outexprs)"""
        ni = no = 0
        lin, lout, ie, oe, pre, post = [], [], [], [], [], []
        for n, ty in ins:
            if ty == 'V':
                ie.append(f'lv(i.add({ni}))')
            elif ty == 'M':
                ie.append(f'lm(i.add({ni}))')
            elif ty == 'f':
                ie.append(f'f32::from_bits(*i.add({ni}))')
            elif ty == 'u':
                ie.append(f'*i.add({ni}) != 0')
            elif ty.startswith('P'):
                k = int(ty[1:])
                ie.append(f'(*(i.add({ni}) as *const [XMFLOAT3; {k}])).iter()')
            else:
                ie.append(f'(&*(i.add({ni}) as *const {ty}))')
            s = SZ[ty] if ty in SZ else 3 * int(ty[1:])
            lin.append([n, ty if ty in ('V', 'M', 'f', 'u') else 'S', ni] + ([s] if ty not in ('V', 'M', 'f', 'u') else []))
            ni += s
        for j, (n, ty) in enumerate(outs):
            if ty == 'V':
                pre.append(f'let mut t{j} = lv(o.add({no}) as *const u32);')
                post.append(f'sv(o.add({no}), t{j});')
                oe.append(f'&mut t{j}')
                s = 4
            elif ty == 'f':
                oe.append(f'&mut *(o.add({no}) as *mut f32)')
                s = 1
            elif ty.startswith('P'):
                s = 3 * int(ty[1:])
                oe.append(f'&mut *(o.add({no}) as *mut [XMFLOAT3; {ty[1:]}])')
            else:
                s = SZ[ty]
                oe.append(f'&mut *(o.add({no}) as *mut {ty})')
            lout.append([n, ty if ty in ('V', 'f') else 'S', no] + ([s] if ty not in ('V', 'f') else []))
            no += s
        c = callf(ie, oe)
        if ret == 'u':
            body = f'let r = {c}; *o.add({no}) = r as u32;'
            lout.append(['ret', 'u', no])
            no += 1
        elif ret == 'V':
            body = f'let r = {c}; sv(o.add({no}), r);'
            lout.append(['ret', 'V', no])
            no += 4
        else:
            body = c + ';'
        out.append(f'#[no_mangle] pub unsafe extern "C" fn h_{name}(i: *const u32, o: *mut u32) {{ {" ".join(pre)} {body} {" ".join(post)} }}\n')
        tab[name] = dict(mod='collision', nin=ni, nout=no, lin=lin, lout=lout)

    for ty, sh in SHORT.items():
        m = lambda meth, extra, outs=(), ret='u': emit(f'{sh}_{meth}', [('self', ty)] + extra, list(outs),
                                                       lambda ie, oe: f'{ie[0]}.{meth}({", ".join(ie[1:] + oe)})', ret)
        mo = lambda meth, extra, outs, ret='': emit(f'{sh}_{meth}', [('self', ty)] + extra, list(outs),
                                                    lambda ie, oe: f'{ie[0]}.{meth}({", ".join(oe + ie[1:])})', ret)
        mo('TransformMatrix', [('M', 'M')], [('Out', ty)])
        mo('TransformDecomposed', [('Scale', 'f'), ('Rotation', 'V'), ('Translation', 'V')], [('Out', ty)])
        m('ContainsPoint', [('P', 'V')])
        m('ContainsTriangle', [('V0', 'V'), ('V1', 'V'), ('V2', 'V')])
        m('IntersectsTriangle', [('V0', 'V'), ('V1', 'V'), ('V2', 'V')])
        for t2, s2 in (('BoundingSphere', 'Sphere'), ('BoundingBox', 'Box'), ('BoundingOrientedBox', 'OrientedBox'), ('BoundingFrustum', 'Frustum')):
            m('Contains' + s2, [('o', t2)])
            m('Intersects' + s2, [('o', t2)])
        m('IntersectsPlane', [('Plane', 'V')])
        m('IntersectsRay', [('Origin', 'V'), ('Direction', 'V')], [('Dist', 'f')])
        m('ContainedBy', [(f'Plane{k}', 'V') for k in range(6)])
        if ty != 'BoundingSphere':
            mo('GetCorners', [], [('Corners', 'P8')])
    st = lambda name, call, ins, outs: emit(name, ins, outs, lambda ie, oe: f'{call}({", ".join(oe + ie)})', '')
    st('Sphere_CreateMerged', 'BoundingSphere::CreateMerged', [('S1', 'BoundingSphere'), ('S2', 'BoundingSphere')], [('Out', 'BoundingSphere')])
    st('Sphere_CreateFromBoundingBox', 'BoundingSphere::CreateFromBoundingBox', [('b', 'BoundingBox')], [('Out', 'BoundingSphere')])
    st('Sphere_CreateFromBoundingOrientedBox', 'BoundingSphere::CreateFromBoundingOrientedBox', [('b', 'BoundingOrientedBox')], [('Out', 'BoundingSphere')])
    st('Sphere_CreateFromFrustum', 'BoundingSphere::CreateFromFrustum', [('f', 'BoundingFrustum')], [('Out', 'BoundingSphere')])
    st('Box_CreateMerged', 'BoundingBox::CreateMerged', [('b1', 'BoundingBox'), ('b2', 'BoundingBox')], [('Out', 'BoundingBox')])
    st('Box_CreateFromSphere', 'BoundingBox::CreateFromSphere', [('s', 'BoundingSphere')], [('Out', 'BoundingBox')])
    st('OBox_CreateFromBoundingBox', 'BoundingOrientedBox::CreateFromBoundingBox', [('b', 'BoundingBox')], [('Out', 'BoundingOrientedBox')])
    emit('Frustum_CreateFromMatrix', [('Projection', 'M'), ('rh', 'u')], [('Out', 'BoundingFrustum')],
         lambda ie, oe: f'BoundingFrustum::CreateFromMatrix({oe[0]}, {ie[0]}, {ie[1]})', '')
    emit('Frustum_GetPlanes', [('self', 'BoundingFrustum')], [(n, 'V') for n in ('Near', 'Far', 'Right', 'Left', 'Top', 'Bottom')],
         lambda ie, oe: f'{ie[0]}.GetPlanes({", ".join("Some(" + e + ")" for e in oe)})', '')
    for k in (1, 2, 3, 4):
        st(f'Box_CreateFromPoints{k}', 'BoundingBox::CreateFromPoints', [('P', f'P{k}')], [('Out', 'BoundingBox')])
        st(f'Sphere_CreateFromPoints{k}', 'BoundingSphere::CreateFromPoints', [('P', f'P{k}')], [('Out', 'BoundingSphere')])
        st(f'OBox_CreateFromPoints{k}', 'BoundingOrientedBox::CreateFromPoints', [('P', f'P{k}')], [('Out', 'BoundingOrientedBox')])
    tr = lambda name, call, ins, outs=(): emit(name, ins, list(outs), lambda ie, oe: f'triangle_tests::{call}({", ".join(ie + oe)})', 'u')
    tr('Tri_IntersectsRay', 'IntersectsRay', [(n, 'V') for n in ('Origin', 'Direction', 'V0', 'V1', 'V2')], [('Dist', 'f')])
    tr('Tri_IntersectsTriangle', 'IntersectsTriangle', [(n, 'V') for n in ('A0', 'A1', 'A2', 'B0', 'B1', 'B2')])
    tr('Tri_IntersectsPlane', 'IntersectsPlane', [(n, 'V') for n in ('V0', 'V1', 'V2', 'Plane')])
    emit('Tri_ContainedBy', [(n, 'V') for n in ('V0', 'V1', 'V2', 'Plane0', 'Plane1', 'Plane2', 'Plane3', 'Plane4', 'Plane5')], [],
         lambda ie, oe: 'triangle_tests::ContainedBy(' + ', '.join(ie[:6] + ['&' + e for e in ie[6:]]) + ')', 'u')
    open(os.path.join(ROOT, 'harness/src/g_collision.rs'), 'w').write(HEAD + 'use directx_math::collision::*;\n\n' + ''.join(out))
    return tab


def ops():
    out, tab = [], {}

    def e(name, lin, lout, body):
        ni = max([x[2] + (x[3] if len(x) > 3 else SZ[x[1]]) for x in lin] or [0])
        no = max([x[2] + (x[3] if len(x) > 3 else SZ[x[1]]) for x in lout] or [0])
        out.append(f'#[no_mangle] pub unsafe extern "C" fn h_{name}(i: *const u32, o: *mut u32) {{ {body} }}\n')
        tab[name] = dict(mod='ops', nin=ni, nout=no, lin=lin, lout=lout)
    V = lambda n, k: [n, 'V', k]
    for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
        e(f'XMVector_{nm}', [V('a', 0), V('b', 4)], [V('ret', 0)], f'sv(o, (XMVector(lv(i)) {op} XMVector(lv(i.add(4)))).0);')
        e(f'XMVector_{nm}_assign', [V('a', 0), V('b', 4)], [V('ret', 0)], f'let mut a = XMVector(lv(i)); a {op}= XMVector(lv(i.add(4))); sv(o, a.0);')
    for nm, op in (('mul', '*'), ('div', '/')):
        e(f'XMVector_{nm}_f32', [V('a', 0), ['s', 'f', 4]], [V('ret', 0)], f'sv(o, (XMVector(lv(i)) {op} f32::from_bits(*i.add(4))).0);')
        e(f'XMVector_{nm}_f32_assign', [V('a', 0), ['s', 'f', 4]], [V('ret', 0)], f'let mut a = XMVector(lv(i)); a {op}= f32::from_bits(*i.add(4)); sv(o, a.0);')
        e(f'XMMatrix_{nm}_f32', [['a', 'M', 0], ['s', 'f', 16]], [['ret', 'M', 0]], f'sm(o, (XMMatrix(lm(i)) {op} f32::from_bits(*i.add(16))).0);')
        e(f'XMMatrix_{nm}_f32_assign', [['a', 'M', 0], ['s', 'f', 16]], [['ret', 'M', 0]], f'let mut a = XMMatrix(lm(i)); a {op}= f32::from_bits(*i.add(16)); sm(o, a.0);')
    e('f32_mul_XMVector', [V('a', 0), ['s', 'f', 4]], [V('ret', 0)], 'sv(o, (f32::from_bits(*i.add(4)) * XMVector(lv(i))).0);')
    e('f32_mul_XMMatrix', [['a', 'M', 0], ['s', 'f', 16]], [['ret', 'M', 0]], 'sm(o, (f32::from_bits(*i.add(16)) * XMMatrix(lm(i))).0);')
    e('XMVector_neg', [V('a', 0)], [V('ret', 0)], 'sv(o, (-XMVector(lv(i))).0);')
    e('XMMatrix_neg', [['a', 'M', 0]], [['ret', 'M', 0]], 'sm(o, (-XMMatrix(lm(i))).0);')
    e('XMVector_eq', [V('a', 0), V('b', 4)], [['ret', 'u', 0]], '*o = (XMVector(lv(i)) == XMVector(lv(i.add(4)))) as u32;')
    e('XMVector_ne', [V('a', 0), V('b', 4)], [['ret', 'u', 0]], '*o = (XMVector(lv(i)) != XMVector(lv(i.add(4)))) as u32;')
    e('XMMatrix_eq', [['a', 'M', 0], ['b', 'M', 16]], [['ret', 'u', 0]], '*o = (XMMatrix(lm(i)) == XMMatrix(lm(i.add(16)))) as u32;')
    e('XMMatrix_ne', [['a', 'M', 0], ['b', 'M', 16]], [['ret', 'u', 0]], '*o = (XMMatrix(lm(i)) != XMMatrix(lm(i.add(16)))) as u32;')
    for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*')):
        e(f'XMMatrix_{nm}', [['a', 'M', 0], ['b', 'M', 16]], [['ret', 'M', 0]], f'sm(o, (XMMatrix(lm(i)) {op} XMMatrix(lm(i.add(16)))).0);')
        e(f'XMMatrix_{nm}_assign', [['a', 'M', 0], ['b', 'M', 16]], [['ret', 'M', 0]], f'let mut a = XMMatrix(lm(i)); a {op}= XMMatrix(lm(i.add(16))); sm(o, a.0);')
    F = lambda n: ', '.join(f'f32::from_bits(*i.add({k}))' for k in range(n))
    e('XMVector_set', [['s', 'S', 0, 4]], [V('ret', 0)], f'sv(o, XMVector::set({F(4)}).0);')
    e('XMMatrix_set', [['s', 'S', 0, 16]], [['ret', 'M', 0]], f'sm(o, XMMatrix::set({F(16)}).0);')
    e('XMVector_from', [['s', 'S', 0, 4]], [V('ret', 0)], 'sv(o, XMVector::from(&*(i as *const [f32; 4])).0);')
    e('XMMatrix_from16', [['s', 'S', 0, 16]], [['ret', 'M', 0]], 'sm(o, XMMatrix::from(&*(i as *const [f32; 16])).0);')
    e('XMMatrix_from4x4', [['s', 'S', 0, 16]], [['ret', 'M', 0]], 'sm(o, XMMatrix::from(&*(i as *const [[f32; 4]; 4])).0);')
    e('XMMatrix_into16', [['s', 'M', 0]], [['ret', 'S', 0, 16]], 'let a: [f32; 16] = XMMatrix(lm(i)).into(); *(o as *mut [f32; 16]) = a;')
    e('XMMatrix_into4x4', [['s', 'M', 0]], [['ret', 'S', 0, 16]], 'let a: [[f32; 4]; 4] = XMMatrix(lm(i)).into(); *(o as *mut [[f32; 4]; 4]) = a;')
    e('XMVector_deref', [V('a', 0)], [V('ret', 0)], 'let mut v = XMVector(lv(i)); let w = *v; *v = w; sv(o, v.0);')
    e('XMMatrix_deref', [['a', 'M', 0]], [['ret', 'M', 0]], 'let mut v = XMMatrix(lm(i)); let w = *v; *v = w; sm(o, v.0);')
    # storage structs <-> arrays
    for nm, ty, n, fs in (('XMINT2', 'i32', 2, 'xy'), ('XMINT3', 'i32', 3, 'xyz'), ('XMINT4', 'i32', 4, 'xyzw'), ('XMUINT2', 'u32', 2, 'xy'), ('XMUINT3', 'u32', 3, 'xyz'),
                          ('XMUINT4', 'u32', 4, 'xyzw'), ('XMFLOAT2', 'f32', 2, 'xy'), ('XMFLOAT3', 'f32', 3, 'xyz'), ('XMFLOAT4', 'f32', 4, 'xyzw')):
        # six conversions: each writes the fields / array in order
        wr = ' '.join(f'*(o.add(K{k}) as *mut {ty}) = s.{f};' for k, f in enumerate(fs))

        def w(base):
            r = wr
            for k in range(n):
                r = r.replace(f'K{k})', f'{base + k})')
            return r
        arr = f'[{ty}; {n}]'
        setargs = ', '.join(f'*(i.add({k}) as *const {ty})' for k in range(n))
        body = (f'let a = *(i as *const {arr}); '
                f'{{ let s = {nm}::set({setargs}); {w(0)} }} '
                f'{{ let s = {nm}::from(a); {w(n)} }} '
                f'{{ let s: &{nm} = (&a).into(); {w(2 * n)} }} '
                f'let s = {nm}::from(a); '
                f'{{ let b: {arr} = s.into(); *(o.add({3 * n}) as *mut {arr}) = b; }} '
                f'{{ let b: &{arr} = (&s).into(); *(o.add({4 * n}) as *mut {arr}) = *b; }} '
                f'{{ let b: &{arr} = s.as_ref(); *(o.add({5 * n}) as *mut {arr}) = *b; }} '
                f'{{ let mut s2 = {nm}::default(); {{ let b: &mut {arr} = s2.as_mut(); *b = a; }} let s = s2; {w(6 * n)} }}')
        e(f'{nm}_conv', [['a', 'S', 0, n]], [['ret', 'S', 0, 7 * n]], body)
    for nm, r, c in (('XMFLOAT3X3', 3, 3), ('XMFLOAT4X3', 4, 3), ('XMFLOAT3X4', 3, 4), ('XMFLOAT4X4', 4, 4)):
        n = r * c
        body = []
        pos = 0
        for arr in (f'[f32; {n}]', f'[[f32; {c}]; {r}]'):
            wr = lambda b: ' '.join(f'*(o.add({b + p * c + q}) as *mut f32) = s.m[{p}][{q}];' for p in range(r) for q in range(c))
            body.append(f'{{ let a = *(i as *const {arr}); {{ let s = {nm}::from(a); {wr(pos)} }} {{ let s: &{nm} = (&a).into(); {wr(pos + n)} }} let s = {nm}::from(a); '
                        f'{{ let b: {arr} = s.into(); *(o.add({pos + 2 * n}) as *mut {arr}) = b; }} '
                        f'{{ let b: &{arr} = (&s).into(); *(o.add({pos + 3 * n}) as *mut {arr}) = *b; }} '
                        f'{{ let b: &{arr} = s.as_ref(); *(o.add({pos + 4 * n}) as *mut {arr}) = *b; }} '
                        f'{{ let mut s2 = {nm}::default(); {{ let b: &mut {arr} = s2.as_mut(); *b = a; }} let s = s2; {wr(pos + 5 * n)} }} }}')
            pos += 6 * n
        e(f'{nm}_conv', [['a', 'S', 0, n]], [['ret', 'S', 0, pos]], ' '.join(body))
    # trait forms: every swizzle combination and a covering set of permutes, packed several per wrapper
    L = 'XYZW'
    sw = list(itertools.product(range(4), repeat=4))
    for b in range(0, 256, 64):
        body = ''.join(f'sv(o.add({4 * k}), <({", ".join("Swizzle" + L[x] for x in q)})>::XMVectorSwizzle(v));' for k, q in enumerate(sw[b:b + 64]))
        e(f'trait_swizzle{b // 64}', [V('v', 0)], [['ret', 'S', 0, 256]], f'let v = lv(i); {body}')
    P = [f'Permute{k}{c}' for k in (0, 1) for c in L]
    pm = permute_set()
    for b in range(0, len(pm), 64):
        ch = pm[b:b + 64]
        body = ''.join(f'sv(o.add({4 * k}), <({", ".join(P[x] for x in q)})>::XMVectorPermute(v, w));' for k, q in enumerate(ch))
        e(f'trait_permute{b // 64}', [V('v', 0), V('w', 4)], [['ret', 'S', 0, 4 * len(ch)]], f'let v = lv(i); let w = lv(i.add(4)); {body}')
    open(os.path.join(ROOT, 'harness/src/g_ops.rs'), 'w').write(HEAD + '\n' + ''.join(out))
    return tab


def permute_set():
    """covering set: each lane takes every selector against two base patterns, the specialised ones, and a pairwise design"""
    s = []
    for base in ((0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 4, 5), (6, 7, 2, 3), (7, 2, 5, 0)):
        for lane in range(4):
            for k in range(8):
                q = list(base)
                q[lane] = k
                s.append(tuple(q))
    for a in range(8):
        for b in range(8):
            s.append((a, b, (a + b) % 8, (3 * a + 5 * b + 1) % 8))
    out = []
    for q in s:
        if q not in out:
            out.append(q)
    return out


if __name__ == '__main__':
    p = os.path.join(HERE, 'wrappers.json')
    t = json.load(open(p))
    t = {k: v for k, v in t.items() if v['mod'] not in ('collision', 'ops')}
    a, b = collision(), ops()
    t.update(a)
    t.update(b)
    json.dump(t, open(p, 'w'), indent=0, sort_keys=True)
    print(len(a), len(b), len(t))
