VOL = ('Volumes are valid: finite components, extents and radii not negative, unit orientation, frustum with 0 < near < far and right > left, top > bottom; scale factors are positive; '
       'directions and plane normals are unit.')
GEO = 'every valid volume, point, ray, triangle, plane and transformation (' + VOL + '), in ' + CFG + '. '
COMPARE = ('Decisions are compared as formulas over the reals: a disagreement must be larger than the rounding error of the compared quantities before it is reported.')
WHYC = 'The collision tests cover one or two placements per pair of volumes; a wrong separating axis, sign or frame is visible only for particular relative placements and orientations.'
p('C28', 'Bounding volumes are constructed, merged and transformed as documented',
  'Building a sphere, box, oriented box or frustum from points, from another volume, from a projection matrix or by merging yields the documented enclosing volume: boxes have the component-wise extremes (an oriented box, the extremes of the points expressed in its own frame), spheres grow to reach every point, merged volumes enclose both operands. '
  'Transforming a volume (by matrix, or scale-rotation-translation) maps center, extents, radius, orientation and planes accordingly; the corners are the eight corners in the documented order and the frustum planes bound exactly the frustum. Up to rounding.',
  [COL], [('BoundingSphere/BoundingBox/BoundingOrientedBox/BoundingFrustum ::CreateFrom*, CreateMerged, Transform*, GetCorners, GetPlanes', COL)], WHYC, quant=GEO + TOL + ' Point sets of 1 to 4 points.')
p('C29', 'Point containment, ray and triangle intersection tests decide the geometry',
  'Every volume reports a point as contained exactly when it satisfies the defining inequalities of the volume. Ray tests return whether the ray meets the volume, triangle or box and the distance along the ray at which it does. Triangle tests report whether a triangle meets a volume, another triangle, and which side of a plane or frustum (six planes) it lies on.',
  [COL], [('Contains_XMVECTOR, IntersectsRay, IntersectsTriangle, ContainsTriangle of the volumes', COL), ('triangle_tests::IntersectsRay/IntersectsTriangle/IntersectsPlane/ContainedBy', COL)], WHYC, quant=GEO + COMPARE + ' Triangles are not degenerate.')
p('C30', 'Intersection tests between two volumes decide whether they overlap',
  'For every pair of sphere, box, oriented box and frustum the intersection test is true exactly when the separating-axis (or nearest-point) criterion for that pair finds no separation, in whichever order and orientation the two are given.',
  [COL], [('BoundingSphere/BoundingBox/BoundingOrientedBox/BoundingFrustum ::Intersects*', COL)], WHYC, quant=GEO + COMPARE)
p('C31', 'Containment and plane-side classification of volumes is exact',
  'Containment between volumes answers Contains when the second volume lies entirely in the first, Disjoint when the intersection test rejects, and Intersects otherwise. Classification against a plane answers Front, Back or Intersecting according to the projected radius of the volume on the plane normal; '
  'classification against six planes answers Disjoint when the volume is outside any, Contains when it is inside all, and Intersects otherwise.',
  [COL], [('Contains* of the volumes, ContainedBy, Intersects_XMVECTOR (plane)', COL)], WHYC, quant=GEO + COMPARE)
p('C24', 'Matrix decomposition recovers scale, rotation and translation',
  'Decomposing a matrix returns its row lengths as scale (the largest one negated for a mirrored basis), its fourth row as translation and the quaternion of the normalised basis as rotation; axes of negligible length are completed from the coordinate axes to an orthonormal basis. '
  'It reports failure, and leaves the rotation untouched, exactly when the normalised basis is not orthonormal up to the documented tolerance (squared deviation of the determinant from 1 above 0.0001). Up to rounding.',
  [MAT], [('XMMatrixDecompose', MAT)], 'The tests decompose one regular matrix; the ranking of the axes has six orders and the degenerate axes eight combinations.')

p('C32', 'No argument values make a safe function reach undefined behaviour',
  'For every value of every argument, valid or not, no safe public function accesses memory outside the objects it was given, uses a misaligned access on a type with smaller alignment, reaches unreachable code, executes an instruction of a CPU feature its build does not require or returns uninitialised memory: load and store functions touch exactly the bytes of their structure. '
  'Functions without integer arguments also never panic, whatever the bit patterns of their float arguments (NaN, infinities, denormals); functions with index arguments may only panic or return some value when an index is out of range.',
  [VEC, MAT, CONV, COL], [('all public functions, operators and trait implementations (550 wrappers)', 'src/')],
  'Out-of-bounds and misaligned accesses mostly go unnoticed in tests: the neighbouring bytes are readable and x86 tolerates misalignment.',
  quant='every bit pattern of every argument including out-of-range integer arguments, in ' + CFG + ', and in AVX2 without FMA3.')

p('C33', 'Debug builds reject invalid arguments and nothing else',
  'In builds with debug assertions and overflow checks, no public function panics on valid arguments, whatever the float values (NaN, infinities, denormals and overflowing magnitudes included), and the argument checks panic whenever they are violated: '
  'component indices below 4, permute indices below 8, conversion exponents below 32, splat constants from -16 to 15; Min <= Max for clamps; replicated, non-negative and ordered length limits (2D and 4D ClampLength); replicated interpolation parameters; non-zero, non-infinite rotation axes, view directions and up vectors and non-zero planes; '
  'positive near and far distances (in either order: reversed depth is valid) that are not within 1e-5 of each other, view sizes not within 1e-5 and view angles not within 2e-5 of zero; '
  'and, in the collision functions that check them, unit orientations, ray directions and planes within 1e-4.',
  [VEC, MAT, CONV, MISC, COL], [('debug_assert!s and integer arithmetic of all public functions', 'src/')],
  'Tests run few valid arguments and almost never an invalid one, so a check that is too strict, too weak or computed with an overflowing expression goes unnoticed until a debug build panics on, or silently accepts, an unusual argument.',
  quant='every bit pattern of every argument, in four builds with debug assertions: no_intrinsics, SSE2, SSE4.1, AVX2+FMA3. Left out: whether a triangle the code has itself rotated still has an area (oriented box against triangle, triangle against triangle).')
