"""Generates harness/src/*.rs: one extern "C" wrapper per public function.

Every wrapper has the signature  fn(i: *const u32, o: *mut u32)  where `i` points at the
flattened input words and `o` at the flattened output words.  References to unaligned storage
structs (XMFLOAT3, ...) alias the i/o buffers directly, so that the symbolic memory model sees
exactly the object (size, alignment) the callee is given.

Run once by hand when the API table (api.json) changes; the output is committed.
"""
import json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

VEC = {'FXMVECTOR', 'XMVECTOR', 'GXMVECTOR', 'HXMVECTOR', 'CXMVECTOR'}
STRUCT = {'XMFLOAT2': 2, 'XMFLOAT3': 3, 'XMFLOAT4': 4, 'XMFLOAT3X3': 9, 'XMFLOAT4X3': 12,
          'XMFLOAT3X4': 12, 'XMFLOAT4X4': 16, '[u32; 2]': 2, '[u32; 3]': 3, '[u32; 4]': 4}


def wrapper(name, args, ret, call=None, sym=None):
    """returns (rust text, n_in, n_out, in layout, out layout)"""
    ni = no = 0
    pre, post, cargs = [], [], []
    lin, lout = [], []
    for k, (an, ty) in enumerate(args):
        if ty in VEC:
            cargs.append(f'lv(i.add({ni}))'); lin.append([an, 'V', ni]); ni += 4
        elif ty in ('f32',):
            cargs.append(f'f32::from_bits(*i.add({ni}))'); lin.append([an, 'f', ni]); ni += 1
        elif ty == 'u32':
            cargs.append(f'*i.add({ni})'); lin.append([an, 'u', ni]); ni += 1
        elif ty == 'i32':
            cargs.append(f'*i.add({ni}) as i32'); lin.append([an, 'u', ni]); ni += 1
        elif ty == 'bool':
            cargs.append(f'*i.add({ni}) != 0'); lin.append([an, 'u', ni]); ni += 1
        elif ty == 'HALF':
            cargs.append(f'*i.add({ni}) as u16'); lin.append([an, 'u', ni]); ni += 1
        elif ty == 'usize':
            cargs.append(f'*i.add({ni}) as usize'); lin.append([an, 'u', ni]); ni += 1
        elif ty in ('FXMMATRIX', 'XMMATRIX'):
            cargs.append(f'lm(i.add({ni}))'); lin.append([an, 'M', ni]); ni += 16
        elif ty == 'CXMMATRIX':
            cargs.append(f'&lm(i.add({ni}))'); lin.append([an, 'M', ni]); ni += 16
        elif ty == '&f32':
            cargs.append(f'&*(i.add({ni}) as *const f32)'); lin.append([an, 'f', ni]); ni += 1
        elif ty in ('&mut f32', '&mut u32'):
            t = ty.split()[1]
            cargs.append(f'&mut *(o.add({no}) as *mut {t})'); lout.append([an, t[0], no]); no += 1
        elif ty in ('&mut XMVECTOR', '&mut FXMVECTOR'):
            pre.append(f'let mut t{k} = lv(o.add({no}) as *const u32);')
            cargs.append(f'&mut t{k}'); post.append(f'sv(o.add({no}), t{k});')
            lout.append([an, 'V', no]); no += 4
        elif ty == 'Option<&mut XMVECTOR>':
            pre.append(f'let mut t{k} = lv(o.add({no}) as *const u32);')
            cargs.append(f'Some(&mut t{k})'); post.append(f'sv(o.add({no}), t{k});')
            lout.append([an, 'V', no]); no += 4
        elif ty == 'None':
            cargs.append('None')
        elif ty.startswith('&mut Align16<'):
            s = ty[len('&mut Align16<'):-1]
            pre.append(f'let mut t{k} = Align16(*(o.add({no}) as *const {s}));')
            cargs.append(f'&mut t{k}'); post.append(f'*(o.add({no}) as *mut {s}) = t{k}.0;')
            lout.append([an, 'S', no, STRUCT[s]]); no += STRUCT[s]
        elif ty.startswith('&Align16<'):
            s = ty[len('&Align16<'):-1]
            pre.append(f'let t{k} = Align16(*(i.add({ni}) as *const {s}));')
            cargs.append(f'&t{k}'); lin.append([an, 'S', ni, STRUCT[s]]); ni += STRUCT[s]
        elif ty.startswith('&mut '):
            s = ty[5:]
            cargs.append(f'&mut *(o.add({no}) as *mut {s})'); lout.append([an, 'S', no, STRUCT[s]]); no += STRUCT[s]
        elif ty.startswith('&'):
            s = ty[1:]
            cargs.append(f'&*(i.add({ni}) as *const {s})'); lin.append([an, 'S', ni, STRUCT[s]]); ni += STRUCT[s]
        else:
            raise Exception((name, ty))
    c = (call or name) + '(' + ', '.join(cargs) + ')'
    if ret in VEC:
        post.insert(0, f'sv(o.add({no}), r);'); lout.append(['ret', 'V', no]); no += 4
    elif ret == 'XMMATRIX':
        post.insert(0, f'sm(o.add({no}), r);'); lout.append(['ret', 'M', no]); no += 16
    elif ret == 'f32':
        post.insert(0, f'*o.add({no}) = r.to_bits();'); lout.append(['ret', 'f', no]); no += 1
    elif ret in ('u32', 'bool', 'HALF'):
        post.insert(0, f'*o.add({no}) = r as u32;'); lout.append(['ret', 'u', no]); no += 1
    elif ret == '()':
        pass
    else:
        raise Exception((name, ret))
    sym = sym or 'h_' + name
    body = ' '.join(pre) + (' let r = ' if ret != '()' else ' ') + c + '; ' + ' '.join(post)
    txt = f'#[no_mangle] pub unsafe extern "C" fn {sym}(i: *const u32, o: *mut u32) {{ let _ = (i, o); {body} }}\n'
    return txt, ni, no, lin, lout


PRELUDE = '''// GENERATED by dxv/gen_harness.py - do not edit.
#![allow(non_snake_case, unused_imports, clippy::all)]
use crate::util::*;
use directx_math::*;

'''


def main():
    api = json.load(open(os.path.join(HERE, 'api.json')))
    table = {}
    mods = {}
    for mod, name, args, ret in api:
        if name in ('XMMin', 'XMMax'):
            for t in ('f32', 'u32'):
                txt, ni, no, li, lo = wrapper(name, [[a, t] for a, _ in args], t, call=f'{name}::<{t}>', sym=f'h_{name}_{t}')
                mods.setdefault(mod, []).append(txt)
                table[f'{name}_{t}'] = dict(mod=mod, nin=ni, nout=no, lin=li, lout=lo)
            continue
        txt, ni, no, li, lo = wrapper(name, args, ret)
        mods.setdefault(mod, []).append(txt)
        table[name] = dict(mod=mod, nin=ni, nout=no, lin=li, lout=lo)
        if any(t.startswith('Option') for _, t in args):
            a2 = [[a, 'None' if t.startswith('Option') else t] for a, t in args]
            txt, ni, no, li, lo = wrapper(name, a2, ret, sym=f'h_{name}_None')
            mods[mod].append(txt)
            table[name + '_None'] = dict(mod=mod, nin=ni, nout=no, lin=li, lout=lo)
    for mod, l in mods.items():
        with open(os.path.join(ROOT, 'harness/src', f'g_{mod}.rs'), 'w') as f:
            f.write(PRELUDE.replace('#![allow(non_snake_case, unused_imports, clippy::all)]\n', '') + ''.join(l))
    json.dump(table, open(os.path.join(HERE, 'wrappers.json'), 'w'), indent=0, sort_keys=True)
    print({m: len(l) for m, l in mods.items()})


if __name__ == '__main__':
    main()
