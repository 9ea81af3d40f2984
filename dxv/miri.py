"""Replays a counterexample to memory safety: interprets the real wrapper (and all of /repo below it) with Miri on the concrete words."""
import os
import shutil
import subprocess
import tempfile

from . import build

# -Zmiri-disable-stacked-borrows: the aliasing model is not part of the property
FLAGS = '-Zmiri-disable-stacked-borrows -Zmiri-symbolic-alignment-check -Zmiri-disable-isolation'


def run(name, cfg, words, nout, timeout=240):
    """-> (verdict, text); verdict: 'ub' | 'panic' | 'ok' | 'error'"""
    feats, tf, _ = build.CONFIGS[cfg]
    d = tempfile.mkdtemp(prefix='dxv_miri_')
    try:
        os.makedirs(os.path.join(d, 'src'))
        hs = os.path.join(build.ROOT, 'harness', 'src')
        for f in os.listdir(hs):
            shutil.copy(os.path.join(hs, f), os.path.join(d, 'src', 'main.rs' if f == 'lib.rs' else f))
        with open(os.path.join(d, 'src', 'main.rs')) as g:
            src = g.read()
        mods = build.MODS.split()
        calls = []
        for f in sorted(os.listdir(hs)):
            if f.startswith('g_') and f'fn h_{name}(' in open(os.path.join(hs, f)).read():
                calls.append(f[:-3])
        if len(calls) != 1:
            return 'error', f'wrapper not found: {calls}'
        src += f'''
fn main() {{
    let i: [u32; {max(1, len(words))}] = [{', '.join(str(w) for w in words) or '0'}];
    let mut o = [0xA5A5A5A5u32; {max(1, nout)}];
    unsafe {{ {calls[0]}::h_{name}(i.as_ptr(), o.as_mut_ptr()); }}
    for w in o {{ if w == 0x12345678 {{ println!("{{w}}"); }} }}
    println!("dxv-finished");
}}
'''
        open(os.path.join(d, 'src', 'main.rs'), 'w').write(src)
        mf = '\n'.join(f'{m} = []' for m in mods)
        open(os.path.join(d, 'Cargo.toml'), 'w').write(f'''[package]
name = "dxmiri"
version = "0.1.0"
edition = "2021"
[dependencies]
directx_math = {{ path = "{build.REPO}" }}
[features]
{mf}
[workspace]
[profile.release]
debug-assertions = false
overflow-checks = true
''')
        env = dict(os.environ)
        env.pop('CARGO_ENCODED_RUSTFLAGS', None)
        env.pop('RUSTFLAGS', None)          # Miri's own sysroot is built without our flags
        r = subprocess.run(['cargo', '+nightly', 'miri', 'setup', '--print-sysroot'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
        if r.returncode == 0 and r.stdout.strip():
            env['MIRI_SYSROOT'] = r.stdout.strip().split('\n')[-1]
        env['RUSTFLAGS'] = '-A warnings' + (f' -C target-feature={tf}' if tf else '')
        env['MIRIFLAGS'] = FLAGS
        env['CARGO_TARGET_DIR'] = os.path.join(d, 'target')
        r = subprocess.run(['cargo', '+nightly', 'miri', 'run', '--offline', '--release', '-q', '--features', ('m_' + calls[0][2:] + ' ' + feats).strip()],
                           cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = r.stdout
        if 'Undefined Behavior' in out:
            k = out.index('Undefined Behavior')
            return 'ub', out[k:k + 400]
        if 'panicked at' in out:
            k = out.index('panicked at')
            return 'panic', out[k:k + 300]
        if 'dxv-finished' in out:
            return 'ok', ''
        return 'error', out[-800:]
    except subprocess.TimeoutExpired:
        return 'error', 'timeout'
    finally:
        shutil.rmtree(d, ignore_errors=True)
