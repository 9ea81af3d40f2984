"""bounds and assumptions reported in the evidence"""
from .. import build
from ..spec import META

FULL = 'all 2^32 bit patterns of every input word (vectors, matrices, scalars); integer arguments within their documented range'
TOL = ('all values of every input word; float equality is decided as equality of real expressions (uninterpreted operators modulo associativity, commutativity, distributivity), so the claim is '
       'about finite inputs without overflow, and rounding is outside it')
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C11'):
    META[p] = {'bounds': FULL}
META['C03']['cfgs'] = build.ALL + ['sp']
META['C03']['bounds'] += '; trait permutes: the instances in the neighbourhood of the specialised ones and a covering set of the rest (about 200 of 4096), trait swizzles: all 256'
for k in range(8, 28):
    META.setdefault(f'C{k:02d}', {'bounds': TOL})
META['C08']['bounds'] = FULL + ' for the correctly rounded operations; ' + TOL + ' for the others'
META['C09']['bounds'] = FULL + ' (modulo: ' + TOL + ')'
META['C10']['bounds'] = FULL + ', exponent 0..31 split into its 32 values'
META['C13']['bounds'] = '|x| <= 7 pi for sine, cosine and tangent, whole domain for the inverse functions; the error is decided over the reals by nlsat with a rounding budget per operation'
META['C14']['bounds'] = '-149 <= x < 128; the error is decided over the reals by nlsat with a rounding budget per operation'
GEO = ('all values of every input word within: finite components, extents and radii >= 0, unit quaternions, directions and plane normals (within 1e-3), 0 < near < far, right > left, top > bottom, scale > 0, '
       'triangles with a non-zero normal')
for k in (28, 29, 30, 31):
    META[f'C{k}'] = {'bounds': GEO + '; loops over points: 1 to 4 points, over corners, planes and axes: fully unrolled',
                     'assumptions': ['no intermediate result is NaN (finite inputs without overflow)', 'comparisons are decided between expressions equal over the reals: results on the rounding boundary are outside the claim']}
