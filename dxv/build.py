"""Builds the harness against /repo's working tree, one build per configuration: LLVM IR (encoded) + cdylib (replayed)."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DXV_REPO', '/repo')
BASE = ['directx_math']
CONFIGS = {
    # name: (cargo features, rustc target features, description)
    'n': ('directx_math/no_intrinsics', '', 'no_intrinsics'),
    's': ('', '', 'sse2 (default)'),
    's3': ('', '+sse3', 'sse3'),
    's4': ('', '+sse3,+sse4.1', 'sse4.1'),
    'avx': ('', '+sse3,+sse4.1,+avx,+f16c', 'avx+f16c'),
    'a': ('', '+sse3,+sse4.1,+avx,+f16c,+fma,+avx2', 'avx2+fma'),
    'i': ('directx_math/favor_intel', '+sse3,+sse4.1,+avx,+f16c,+fma,+avx2', 'avx2+fma+favor_intel'),
}
ALL = list(CONFIGS)
# nightly only: the specialised trait instances (does not build together with the SSE bodies)
CONFIGS['sp'] = ('directx_math/no_intrinsics directx_math/specialization', '', 'no_intrinsics+specialization (nightly)')
# unoptimised IR (memory safety: no access has been folded away yet)
EXTRA = {}
CONFIGS['v'] = ('', '+sse3,+sse4.1,+avx,+f16c,+avx2', 'avx2 without fma')
for _c in ALL + ['v']:
    CONFIGS[_c + '0'] = (CONFIGS[_c][0], CONFIGS[_c][1], CONFIGS[_c][2] + ', unoptimised IR')
    EXTRA[_c + '0'] = ' -C no-prepopulate-passes'
RAW = list(EXTRA)
# debug assertions and overflow checks on, as in a `cargo build` without --release
for _c in ('n', 's', 's4', 'a'):
    CONFIGS[_c + 'd'] = (CONFIGS[_c][0], CONFIGS[_c][1], CONFIGS[_c][2] + ', debug assertions, unoptimised IR')
    EXTRA[_c + 'd'] = ' -C no-prepopulate-passes'
DBG = ['nd', 'sd', 's4d', 'ad']
MODS = 'm_vector m_convert m_misc m_matrix m_packed_vector m_lib m_ops m_collision'
TOOLCHAIN = {'sp': 'nightly-x86_64-unknown-linux-gnu'}


class BuildError(Exception):
    pass


def outdir(cfg):
    return os.path.join(ROOT, '.build', cfg)


def ir_files(cfg):
    ll = glob.glob(os.path.join(outdir(cfg), 'release', '**', '*.ll'), recursive=True)
    return sorted(p for p in ll if not os.path.basename(p).startswith('build_script'))


def build_one(cfg):
    feats, tf, _ = CONFIGS[cfg]
    d = outdir(cfg)
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(os.path.join(d, 'release'), ignore_errors=True)      # never judge a stale build
    env = dict(os.environ)
    env['RUSTUP_TOOLCHAIN'] = TOOLCHAIN.get(cfg, 'stable-x86_64-unknown-linux-gnu')
    env['CARGO_TARGET_DIR'] = d
    if cfg in DBG:
        env['CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS'] = 'true'
    fl = '-C target-cpu=x86-64 --emit=llvm-ir,link -C no-vectorize-slp -C no-vectorize-loops --cap-lints allow'
    if tf:
        fl += f' -C target-feature={tf}'
    env['RUSTFLAGS'] = fl + EXTRA.get(cfg, '')
    env.pop('CARGO_ENCODED_RUSTFLAGS', None)
    hd = os.path.join(ROOT, 'harness')
    if REPO != '/repo':
        raise BuildError('checks run against /repo')
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '-q', '--features', (MODS + ' ' + feats).strip()], cwd=hd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f'{cfg}: ' + r.stdout[-3000:])
    so = glob.glob(os.path.join(d, 'release', 'libdxh.so'))
    ll = ir_files(cfg)
    if not so or not ll:
        raise BuildError(f'{cfg}: no output')
    return cfg


def build(cfgs=ALL):
    t0 = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(build_one, cfgs))
    return time.time() - t0


def load(cfg):
    from .irparse import Module
    m = Module()
    for p in ir_files(cfg):
        m.load(p)
    return m


def so_path(cfg):
    return os.path.join(outdir(cfg), 'release', 'libdxh.so')
