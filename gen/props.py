#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when the set of properties changes)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFG = 'all seven x86-64 builds: no_intrinsics, SSE2 (default), SSE3, SSE4.1, AVX+F16C, AVX2+FMA3, AVX2+FMA3 with favor_intel'
TOL = ('"Up to rounding" means: equal as an expression over the reals (sums and products may be reassociated, fused or refactored); inputs are finite and away from overflow, and a counterexample '
       'must exceed the rounding error of the expression in the compiled code before it is reported.')
P = []


def p(id, title, statement, files, mech, why, over=('inputs', 'configurations'), quant=None, tol=True, technique=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, files=files, mech=mech, why=why, over=over, quant=quant, tol=tol, technique=technique, note=note))


VEC, CONV, MAT, MISC, COL, LIB, PK = 'src/vector.rs', 'src/convert.rs', 'src/matrix.rs', 'src/misc.rs', 'src/collision.rs', 'src/lib.rs', 'src/packed_vector.rs'
FEW = 'The tests call each function on a handful of values in the one configuration being compiled; they cannot cover every bit pattern or every instruction-set variant of the body.'

p('C01', 'Loads and stores move every component bit for bit',
  'Loading a 2-, 3- or 4-component float or integer structure, or a 3x3, 3x4, 4x3 or 4x4 matrix structure, yields exactly the stored bits in the documented components; vector components the structure lacks are 0, and a loaded matrix is completed with the identity (0,0,0,1 as last row or column). '
  'Storing writes exactly the selected components, bit for bit, and nothing beyond the structure. This holds for all bit patterns, including NaN payloads, denormals and negative zero.',
  [CONV, LIB], [('XMLoad*/XMStore* bodies per instruction set', CONV)], FEW, tol=False)
p('C02', 'Constructors, accessors and constants produce exactly the documented components',
  'Set, replicate and splat operations build vectors with exactly the given bits; component getters return, and component setters replace, exactly the addressed component and leave the others unchanged; the constant constructors return their documented constants. '
  'Fixed-point and binary constants have the documented value (integer times 2^-exponent; 1.0 where the low bit is set).',
  [VEC], [('XMVectorSet*/Get*/Splat*/Replicate*', VEC), ('constants', 'src/globals.rs')], FEW, tol=False)
p('C03', 'Swizzle, permute, shift, rotate, insert and select route components exactly',
  'Every component rearrangement (swizzle, permute, shift-left, rotate-left/right, insert, merge, select and its control mask, both as run-time functions and as the compile-time swizzle and permute trait instances) copies exactly the component bits its indices or masks name, for every valid combination of indices and every component value.',
  [VEC, 'src/vector.rs', 'src/globals.rs'], [('XMVectorSwizzle/Permute/ShiftLeft/RotateLeft/RotateRight/Insert/Select', VEC), ('Swizzle/Permute trait specialisations', VEC)],
  '256 swizzles, 4096 permutes and their specialised shuffles times all component bits: the tests check a few index combinations.', tol=False)
p('C04', 'Component-wise float comparisons give IEEE masks',
  'Component-wise comparisons return all ones where the IEEE-754 relation holds and zero elsewhere: equality, ordering, near-equality (|a-b| <= epsilon), bounds (-b <= a <= b), NaN and infinity tests, with every comparison against NaN false (not-equal true) and -0 equal to 0.',
  [VEC], [('XMVectorEqual.../NearEqual/InBounds/IsNaN/IsInfinite', VEC)], FEW, tol=False)
p('C05', 'Comparison records summarise the component results exactly',
  'The record-returning comparisons set the all-true bit exactly when the relation holds in every component considered and the all-false (or in-bounds) bit exactly when it holds in none (or all are in bounds), NaN components counting as not holding; the accompanying mask, where returned, equals the plain comparison. '
  'The record predicates (all true, any true, all false, any false, mixed, all in bounds, any out of bounds) read back exactly these bits.',
  [VEC, MISC, LIB], [('XMVector*R', VEC), ('XMComparison*', LIB)], FEW, tol=False)
p('C06', 'Whole-value predicates quantify over exactly their components',
  'The 2D, 3D, 4D vector, quaternion, plane, matrix and scalar predicates return true exactly when the component relation holds for all components of that dimension (for not-equal, NaN and infinity tests: for at least one), whatever the remaining components contain. '
  'Identity tests compare with the identity, and plane near-equality compares the normalised planes.',
  [VEC, MAT, MISC], [('XMVector2/3/4 predicates', VEC), ('XMMatrixIs*', MAT), ('XMQuaternion/XMPlane/XMScalar predicates', MISC)], FEW, tol=False)
p('C07', 'Bitwise and integer operations act on every bit of every component',
  'And, and-complement, or, nor, xor and the integer equality and inequality masks return, for each component, exactly the bitwise or integer result on its 32 bits.',
  [VEC], [('XMVectorAndInt...', VEC)], FEW, tol=False)
p('C08', 'Component arithmetic is the correctly rounded IEEE operation',
  'Component-wise add, subtract, multiply, divide, negate, abs, scale, min, max, clamp, saturate, square root and reciprocal return the correctly rounded IEEE-754 single-precision result of the documented formula in each component, for all inputs including NaN, infinities and zeros (clamp: lower bound <= upper bound). '
  'Multiply-add, reciprocal square root and the component sum hold up to rounding; the Est variants hold to about 2^-11 relative.',
  [VEC, LIB], [('XMVectorAdd...XMVectorSum', VEC), ('XMMin/XMMax', LIB)], FEW)
p('C09', 'Rounding functions follow their rounding mode for every float',
  'Round (to nearest even), truncate, floor and ceiling return the exact integer-valued result of their rounding mode for every 32-bit pattern, including halfway cases, large magnitudes, infinities and NaN; modulo returns a - b*trunc(a/b) up to rounding.',
  [VEC], [('XMVectorRound/Truncate/Floor/Ceiling/Mod', VEC)], 'Halfway and large values differ between the magic-number, SSE4.1 and scalar bodies; tests sample a few.')
p('C10', 'Integer/float conversions scale, truncate and saturate as documented',
  'Float-to-integer conversions multiply by 2^exponent, truncate toward zero and saturate to the range of the integer type; integer-to-float conversions return the value divided by 2^exponent, correctly rounded from the signed or (up to one rounding) unsigned integer. This holds for every component value and every exponent 0..31; degree/radian conversions multiply by pi/180 or 180/pi.',
  [CONV, MISC], [('XMConvertVector*', CONV), ('XMConvertToRadians/Degrees', LIB)], FEW)
p('C11', 'Half-precision conversion is exact in, rounded and clamped out',
  'Half to float returns the exact value of every one of the 65536 half patterns (NaN to NaN); float to half rounds to nearest even for values in the finite half range, including subnormal halves, and otherwise returns the documented overflow, infinity and NaN patterns.',
  [PK], [('XMConvertHalfToFloat/XMConvertFloatToHalf', PK)], FEW, tol=False)
p('C12', 'Angle wrapping returns the equivalent angle in the principal range',
  'Modulo-angle functions return x - 2*pi*k for the documented integer k (nearest for vectors), and adding or subtracting two angles in [-pi, pi) returns the sum or difference moved into that range by adding or subtracting 2*pi when it lies outside, up to rounding.',
  [VEC, MISC], [('XMVectorModAngles/AddAngles/SubtractAngles', VEC), ('XMScalarModAngle', MISC)], FEW)
p('C13', 'Trigonometric functions stay within their stated error everywhere',
  'Within |x| <= 7*pi, sine and cosine (vector, scalar and combined forms) are within 2e-6 of the true value and their Est forms within 3e-5; the tangent is the tangent of an angle within 3e-6 of x (Est 4e-3). '
  'On the whole domain, arc sine and arc cosine are within 1.5e-6 (Est 1.5e-4) and arc tangent within 1e-6 (Est 4e-5); for |x| <= 2^-10 sine, tangent and arc tangent equal x up to a relative error of 1.5e-6 (Est 3e-6, 1.5e-2, 3e-4), down to the smallest floats; the arguments of the scalar and the SIMD arc sine and arc cosine are clamped to [-1, 1] (checked up to magnitude 8); the two-argument arc tangent returns the arc tangent of y/x moved to the quadrant of (x, y) and the documented values for zeros and infinities.',
  [VEC, MISC], [('XMVectorSin...XMVectorATan2Est', VEC), ('XMScalarSin...XMScalarACosEst', MISC)],
  'An accuracy bound quantifies over a continuum; a wrong coefficient or reduction shows only in part of the domain, tests use a few angles.')
p('C14', 'Exponential, power and hyperbolic functions compute their function',
  'Base-2 exponential (both names) has relative error at most 6e-7 for 0 <= x < 128 and 1.3e-5 for -149 <= x < 0, in every component; it is +infinity from x = 128, zero up to x = -150 and NaN for NaN. Hyperbolic sine, cosine and tangent equal their defining combination of base-2 exponentials up to rounding, and power is the IEEE power function of each component pair.',
  [VEC], [('XMVectorExp2/Exp/Pow/SinH/CosH/TanH', VEC)], 'As C13; exponent handling differs at the ends of the range, which the tests do not reach.')
p('C15', 'Interpolation functions evaluate their polynomial for all arguments',
  'Linear, Hermite, Catmull-Rom and barycentric interpolation (scalar-parameter and vector-parameter forms) return, in every component, the value of their documented polynomial in the parameter, up to rounding, for all finite arguments.',
  [VEC], [('XMVectorLerp/Hermite/CatmullRom/BaryCentric(V)', VEC)], FEW)
p('C16', 'Dot, cross, length, orthogonal and line-distance formulas hold',
  'In 2, 3 and 4 dimensions the dot product, cross product, (squared, estimated) length, orthogonal vector and point-line distance equal their formulas over exactly the components of that dimension, replicated where documented, up to rounding and regardless of the other components.',
  [VEC], [('XMVector{2,3,4}Dot/Cross/Length*/Orthogonal/LinePointDistance', VEC)], FEW)
p('C17', 'Normalise, reciprocal length and length clamping keep the direction',
  'Normalising returns v/|v| (zero for a zero vector), reciprocal length 1/|v| (+infinity for a zero vector), and length clamping returns v rescaled to the nearest length within [min, max] (unchanged when already inside), over exactly the components of the dimension, up to rounding (Est: about 2^-11), for vectors whose squared length is within range. A NaN-free vector with a component of magnitude 2^64 or more (or infinite) has infinite length: length and squared length are infinite, reciprocal length is 0, and the SIMD normalise returns NaN in the components of the dimension.',
  [VEC], [('XMVector{2,3,4}Normalize(Est)/ReciprocalLength(Est)/ClampLength(V)', VEC)], FEW)
p('C18', 'Reflection, refraction, component split, Fresnel and line intersection formulas',
  'Reflect returns i - 2(i.n)n and refract the refracted vector, or zero on total internal reflection; splitting by a normal returns the parallel and perpendicular parts. '
  'The 2D line intersection returns the intersection point, infinity for coincident and NaN for parallel lines; the Fresnel term equals its formula, all up to rounding.',
  [VEC, MISC], [('XMVector*Reflect/Refract/ComponentsFromNormal/IntersectLine', VEC), ('XMFresnelTerm', MISC)], FEW)
p('C19', 'Angle-between functions are arc cosines of the normalised dot product',
  'The angle between two normals is the library arc cosine of their dot product clamped to [-1, 1]; the angle between two vectors divides by both lengths first; in 2, 3 and 4 dimensions, replicated to all components and up to rounding.',
  [VEC], [('XMVector*AngleBetweenNormals(Est)/AngleBetweenVectors', VEC)], FEW)
p('C20', 'Vector transform, projection and rotation equal matrix/quaternion formulas',
  'Transforming a vector by a matrix is the row-vector product with w = 1 (transform), with division by w (coordinate) or with w = 0 (normal); 3D project and unproject are the viewport mapping of that product, mutually consistent; rotating by a quaternion is the conjugation product. All components hold up to rounding for all finite inputs.',
  [VEC], [('XMVector{2,3,4}Transform*', VEC), ('XMVector3Project/Unproject/Rotate/InverseRotate', VEC)], FEW)
p('C21', 'Matrix product, transpose and arithmetic operators act on all sixteen entries',
  'Matrix multiplication (function, transposed form, * and *= operators) is the row-by-column product; transpose, identity and construction from entries are exact; matrix sum, difference, negation, scaling and division by a scalar, as operators and compound assignments, act on every entry; the tensor product is the outer product. All hold up to rounding for every entry.',
  [MAT], [('XMMatrixMultiply*/Transpose', MAT), ('impl Add/Sub/Mul/Div/*Assign/Neg for XMMatrix', MAT)], FEW)
p('C22', 'Determinant and inverse equal the cofactor formulas',
  'The determinant equals the cofactor expansion over all sixteen entries, replicated to all components; the inverse equals the adjugate divided by the determinant (and reports that determinant when asked), up to rounding, for every matrix whose determinant is not negligible.',
  [MAT], [('XMMatrixDeterminant/XMMatrixInverse', MAT)], 'Sixteen free entries; tests invert one or two matrices, so a wrong cofactor sign can be invisible.')
p('C23', 'Matrix builders produce exactly their documented matrix',
  'Translation, scaling, rotation (axis, normal, Euler angles, quaternion), affine and general transformation, reflection, shadow, view (look-at, look-to) and projection (perspective, field-of-view, off-center, orthographic) builders, left- and right-handed, return the documented matrix in all sixteen entries, up to rounding, for all arguments meeting their documented preconditions.',
  [MAT], [('XMMatrixTranslation...XMMatrixOrthographicOffCenterRH', MAT)], FEW)
p('C25', 'Quaternion algebra follows the Hamilton formulas',
  'Quaternion product, conjugate, inverse (zero for a negligible norm), normalisation, dot, length, logarithm, exponential, slerp, squad (and its setup), barycentric combination, construction from axis, normal, Euler angles or rotation matrix, and extraction of axis and angle equal their documented formulas in all four components, up to rounding, on both sides of every branch (shortest path, nearly parallel, largest component).',
  [MISC], [('XMQuaternion*', MISC)], FEW)
p('C26', 'Plane operations equal their formulas',
  'Plane dot products, normalisation, transformation, construction from point and normal or three points, and the intersections with a line and another plane equal their documented formulas, up to rounding, returning NaN when the line or plane is parallel. A finite plane (in SIMD builds, any plane) whose normal has no NaN and a component of magnitude 2^64 or more, hence infinite length, normalises to zero.',
  [MISC], [('XMPlane*', MISC)], FEW)
p('C27', 'Operators and conversions of the wrapper types act on every component',
  'The vector operators and their compound assignments equal the component-wise operation; equality of vectors and matrices is IEEE equality of all components and inequality its negation; conversions to and from arrays and component access move every entry bit for bit in row order.',
  [VEC, MAT, LIB], [('impl ops/PartialEq/From/Deref for XMVector and XMMatrix', LIB)], FEW)
exec(open(os.path.join(ROOT, 'gen', 'props2.py')).read()) if os.path.exists(os.path.join(ROOT, 'gen', 'props2.py')) else None

P.sort(key=lambda q: q['id'])
NA = globals().get('NA', [])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps({
            'id': q['id'], 'title': q['title'], 'statement': q['statement'],
            'quantifier': {'over': list(q['over']), 'text': q['quant'] or ('every value of every argument word (preconditions as documented), in ' + CFG + ('. ' + TOL if q['tol'] else ''))},
            'why_tests_cant': q['why'],
            'anchors': {'files': sorted(set(q['files'])), 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']], 'observe_at': ['return values and out-parameters of the public functions'], 'hook_needed': None},
        }) + '\n')
TECH = 'symbolic execution of the LLVM IR of /repo, z3 decides equivalence with a formula (UF + bit-vectors + FP)'
NOTE = ('z3 decides, over all bit patterns of the inputs, that the encoded real code equals the specification (bounds in the evidence); counterexamples are replayed in the compiled code. '
        'Trusted: the IR interpreter (cross-checked against the compiled code in every run), z3, the specification; tolerant claims hold over real arithmetic, rounding excluded.')
ids = {q['id'] for q in P}
m = {
    'version': 1, 'setup_cmd': 'bash setup.sh',
    'checks': [{'property': q['id'], 'quick_cmd': f'python3-vt -m dxv.check {q["id"]}', 'thorough_cmd': f'python3-vt -m dxv.check {q["id"]} thorough',
                'technique': q['technique'] or TECH, 'level': 'other', 'level_note': q['note'] or NOTE} for q in P if q['id'] not in {x['property'] for x in NA}],
    'not_applicable': NA,
    'notes': 'no hooks in /repo; fix commits are listed in KNOWN_FINDINGS.json',
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
