"""python3-vt -m dxv.replay FILE   runs the counterexample of a VIOLATION line against the code compiled from /repo's working tree."""
import json
import struct
import sys
import numpy as np
from . import build, native
from .core import W


def fl(w):
    return f'{w:#010x} ({struct.unpack("<f", struct.pack("<I", w))[0]!r})'


def main(argv):
    r = json.load(open(argv[1]))
    c = r['cex']
    name, cfg = r['wrapper'], r['config']
    w = W[name]
    print(f'{name}  [{r["config_desc"]}]  property {r["property"]}')
    for e in w['lin']:
        n = {'V': 4, 'M': 16, 'f': 1, 'u': 1}.get(e[1], e[3] if len(e) > 3 else 1)
        print(f'  {e[0]} = ' + ', '.join(fl(x) for x in c['words'][e[2]:e[2] + n]))
    if c.get('kind') == 'safety':
        from . import miri
        v, txt = miri.run(name, c['base'], c['words'], w['nout'])
        print(f'  Miri: {v} {txt}')
        return 1 if v == 'ub' or (v == 'panic' and c['expected'] == 'no panic') else 0
    build.build([cfg])
    out, alive, died = native.run_many(build.so_path(cfg), 'h_' + name, np.array([c['words']], dtype=np.uint32), w['nout'])
    if c.get('kind') == 'assertion':
        got = 'panic' if died else 'no panic'
        print(f'  expected {c["expected"]}, got {got}')
        return 1 if got == c['got'] else 0
    if died:
        print(f'the call died: {died}')
        return 1
    got = [int(x) for x in out[0]]
    print('  output: ' + ', '.join(fl(x) for x in got))
    print(f'  output word {c["lane"]}: expected {c["expected"]}, recorded {c["got"]}')
    same = c['lane'] is None or got[c['lane']] == c['got']
    print('reproduced' if same else 'not reproduced: the code now returns something else')
    return 1 if same else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
