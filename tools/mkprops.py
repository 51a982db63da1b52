#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they can be edited readably)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))
I, C, H = 'inputs', 'configurations', 'histories'
INC = 'include/cglm/'
CFG = ' and every supported build (scalar, SSE2/3/4.1, AVX/FMA, NEON, WASM code paths; aligned and unaligned types)'

p('V01', 'Componentwise vector arithmetic is exact per lane',
  'For all finite inputs, float vector add/subtract/multiply/divide/scale/negate/absolute value/sqrt and the accumulate forms (dest +=/-= sum, difference, product, scaled, min, max), including complex multiply/divide/conjugate, produce in every lane the value of the documented formula within ordinary float rounding. No lane depends on another lane, and nothing but the destination changes.',
  [I, C], 'every finite float input for 2-, 3- and 4-component vectors in which the formula does not overflow, every build configuration and every API form',
  'The suite feeds a few fixed or rand()-drawn vectors once per function in one SSE2 build; per-lane faults that depend on magnitude, sign, equality of operands or the SIMD path are outside it.',
  [INC+'vec2.h', INC+'vec3.h', INC+'vec4.h', INC+'vec2-ext.h', INC+'simd'], [('lane-wise kernels', INC+'vec4.h'), ('fma/muladd intrinsics wrappers', INC+'simd/x86.h')], ['destination vectors'])
p('V02', 'Dot, cross, norms and distances match the Euclidean definitions',
  'For all finite inputs, dot products, 2D/3D cross products, horizontal sums, squared/Euclidean/one/infinity norms, distances, squared distances and midpoints equal their mathematical definitions within rounding. The cross product also stays correct when its destination is one of its operands.',
  [I, C], 'every finite vector pair whose squares stay in float range, including zero, parallel, opposite, tiny and huge vectors'+CFG,
  'Tests compare against the same expressions on one random vector; cancellation, extreme magnitudes and other SIMD reductions are not reached.',
  [INC+'vec2.h', INC+'vec3.h', INC+'vec4.h', INC+'simd/x86.h', INC+'simd/arm.h', INC+'simd/wasm.h'], [('glmm_dot / glmm_norm reductions', INC+'simd')], ['return values', 'destination vectors'])
p('V03', 'Normalizing and resizing keep direction and give the exact length',
  'Normalizing a vector whose length is not below float epsilon returns a vector with the same direction and length 1; a (near-)zero vector normalizes to exactly zero. Scaling a vector "as" a length returns the same direction with that length, zero for a zero vector, and normalized cross product and normalized plane follow the same rule.',
  [I, C], 'every finite vector of 2, 3 or 4 components (and plane) with length from 0 up to 1e18, in place or into a destination'+CFG,
  'Tests use vectors of ordinary magnitude; the zero/epsilon branch and very small or large vectors are never met.',
  [INC+'vec2.h', INC+'vec3.h', INC+'vec4.h', INC+'plane.h'], [('norm threshold branch', INC+'vec3.h')], ['destination vectors'])
p('V04', 'Vector geometry: angle, rotate, project, reflect, refract, ortho',
  'The angle between two non-zero vectors is in [0, pi] and correct even when rounding pushes the cosine past 1; projection, rotation about an axis or by a rotation matrix (which ignores matrix scale), faceforward and reflection match their geometric definitions. Refraction obeys Snell\'s law and, exactly on total internal reflection, returns false and a zero vector; the orthogonal-vector helper returns a perpendicular non-zero vector for every non-zero input.',
  [I, C], 'every finite non-degenerate direction, normal, angle and index ratio, including parallel and opposite vectors and axis-aligned ones',
  'Each relation is tested with a couple of hand-picked vectors; degenerate alignments and branch choices are not explored.',
  [INC+'vec2-ext.h', INC+'vec3-ext.h', INC+'vec4-ext.h', INC+'vec3.h'], [('acos clamp', INC+'vec3.h'), ('Rodrigues rotation', INC+'vec3.h')], ['destination vectors', 'return values'])
p('V05', 'Comparison and validity predicates answer exactly for every lane',
  'Equality (exact, epsilon, all-components-same, vector-vector), NaN, infinity and validity predicates and vector min/max reductions return true exactly when the relation holds on the values of all (respectively any) components, wherever in the vector the deciding component sits. NaN or infinity in any single component is always detected.',
  [I, C], 'every float vector including NaN, infinities, signed zeros and denormals in any lane',
  'Tests place the odd component in one or two positions; the predicate must look at every lane for all values.',
  [INC+'vec2-ext.h', INC+'vec3-ext.h', INC+'vec4-ext.h', INC+'util.h'], [('lane conjunctions', INC+'vec4-ext.h')], ['return values'])
p('V06', 'Selection and shaping functions pick or map each component correctly',
  'Min, max, clamp, sign, abs, floor, fract, modulo, step, smoothstep, swizzle, fill, broadcast, copy, zero/one and conversions between vector sizes return for each component precisely the selected or mapped value of the corresponding component(s). Clamped results always lie within the bounds and fract lies in [0,1).',
  [I, C], 'every finite input, every swizzle mask, edges equal to and one ulp around thresholds, all vector sizes'+CFG,
  'Only a handful of values are tested per function and most swizzle masks and threshold ties never.',
  [INC+'vec2-ext.h', INC+'vec3-ext.h', INC+'vec4-ext.h', INC+'vec2.h', INC+'vec3.h', INC+'vec4.h', INC+'util.h'], [('swizzle mask decoding', INC+'vec4.h')], ['destination vectors'])
p('V07', 'Interpolation and scalar helpers hit their endpoints and formulas',
  'Linear interpolation returns from + t(to - from) and its clamped forms never leave the segment; smooth/smoothstep interpolation is 0 and 1 at and beyond the edges and 3t^2-2t^3 between them; percent inverts lerp, including for negative and reversed ranges. Degree/radian conversions are inverse to each other, and scalar sign, clamp, step, min, max, power, equality and swap follow their definitions for every argument.',
  [I, C], 'every finite from/to/t, t outside [0,1], equal endpoints, all vector sizes',
  'Tests evaluate t at 0, 0.5, 1 and similar points; reversed ranges and out-of-range t across sizes are not covered.',
  [INC+'util.h', INC+'vec2.h', INC+'vec3.h', INC+'vec4.h', INC+'vec4-ext.h'], [('clamp_zo', INC+'util.h')], ['return values', 'destination vectors'])
p('V08', 'Integer vector operations are exact 32-bit integer arithmetic',
  'For every integer input whose mathematical result fits in 32 bits, integer vector arithmetic, accumulate forms, division, modulo, min/max, clamp, abs, comparison, dot, cross, squared distance and norms equal exact integer arithmetic in every component; Euclidean distance equals the square root of the exact squared distance within rounding.',
  [I, C], 'every non-overflowing 2-, 3- and 4-component integer vector, including negative operands and INT_MIN/INT_MAX lanes',
  'Tests use small positive constants; negative and extreme operands and all accumulate variants are not enumerated.',
  [INC+'ivec2.h', INC+'ivec3.h', INC+'ivec4.h'], [('component loops', INC+'ivec3.h')], ['destination vectors', 'return values'])
p('M01', 'Square matrix products equal the mathematical product',
  'For all finite inputs, 2x2, 3x3 and 4x4 column-major matrix-matrix, N-matrix chain, matrix-vector, matrix-vec3-with-w and row-matrix-column products equal the mathematical product within rounding, in every build. Matrix-matrix products remain correct when the destination is either or both of the operands.',
  [I, C], 'every finite matrix and vector without overflow, destination distinct from or identical to an operand, chain lengths 2..8'+CFG,
  'Tests multiply a few random matrices in one SSE2 build; AVX/NEON/WASM kernels and aliased destinations are not run.',
  [INC+'mat2.h', INC+'mat3.h', INC+'mat4.h', INC+'simd'], [('SIMD kernels', INC+'simd/sse2/mat4.h'), ('AVX kernel', INC+'simd/avx/mat4.h'), ('NEON kernel', INC+'simd/neon/mat4.h')], ['destination matrices'])
p('M02', 'Rectangular matrix operations respect their shapes',
  'For every rectangular matrix type, construction from an array, copy, zero, scale, transpose, matrix-vector and matrix-matrix products give the mathematical result with the documented (columns x rows) shape, and transposing twice or transposing a product is consistent with the swapped product of transposes.',
  [I, C], 'every finite input to each of the six rectangular types'+CFG,
  'One random matrix per function is tested against the same formula.',
  [INC+'mat2x3.h', INC+'mat2x4.h', INC+'mat3x2.h', INC+'mat3x4.h', INC+'mat4x2.h', INC+'mat4x3.h'], [('shape specific kernels', INC+'mat2x4.h')], ['destination matrices'])
p('M03', 'Determinants and inverses are true determinants and inverses',
  'For every finite 2x2, 3x3 and 4x4 matrix the determinant equals the mathematical determinant within rounding, and for every well-conditioned matrix the inverse times the matrix is the identity within a bound proportional to its conditioning. The fast inverse agrees with the precise one to the accuracy of a hardware reciprocal estimate.',
  [I, C], 'every finite matrix (determinant), every invertible matrix with finite cofactors (inverse), including permutations, triangular, affine, projection and negative-determinant matrices, in place or into a destination'+CFG,
  'A handful of random matrices is inverted; matrices with zero pivots, tiny determinants and other SIMD paths are not reached.',
  [INC+'mat2.h', INC+'mat3.h', INC+'mat4.h', INC+'simd/sse2/mat4.h', INC+'simd/neon/mat4.h', INC+'simd/wasm/mat4.h', INC+'simd/avx/mat4.h'], [('cofactor expansion', INC+'simd/sse2/mat4.h')], ['destination matrices', 'return values'])
p('M04', 'Matrix copy, transpose, pick, insert, swap, trace and scale are exact',
  'Copying, zeroing, identity (single and array), construction from an array, transposing (in place or to a destination, including the source itself), extracting or inserting the upper-left 3x3 part plain or transposed, swapping any two rows or columns, trace and uniform scaling move exactly the elements they name and leave all others untouched.',
  [I, C], 'every matrix content (any bit pattern that is not NaN) and every valid row/column index pair and array count'+CFG,
  'Index pairs, in-place use and untouched elements are sampled once or twice by tests.',
  [INC+'mat2.h', INC+'mat3.h', INC+'mat4.h', INC+'simd'], [('SIMD transpose/copy', INC+'simd/sse2/mat4.h')], ['destination matrices'])
p('A01', '3D transforms compose translation, scale and rotation in documented order',
  'Translate, scale, rotate (axis, x/y/z, about a pivot, and in place at the object\'s own origin) post-multiply the given matrix by the corresponding elementary transform and the "-ed" forms pre-multiply it, while the make forms create just the elementary matrix. This holds for every input matrix of the post-multiplying forms (a projection as much as an affine matrix), every affine input of the pre-multiplying ones, and every angle, axis (normalized internally) and offset, with right-handed rotation by the right-hand rule.',
  [I, C], 'every 4x4 matrix (affine for the pre-multiplying forms), finite vector, angle in any range and non-zero axis of any length'+CFG,
  'Tests apply each function to identity-like matrices with one or two angles; order of composition for general matrices is hardly exercised.',
  [INC+'affine.h', INC+'affine-pre.h', INC+'affine-post.h'], [('Rodrigues make-rotation', INC+'affine.h'), ('column updates', INC+'affine-pre.h')], ['destination matrices'])
p('A02', '2D transforms compose translation, scale and rotation in documented order',
  'The 3x3 2D translate, scale and rotate functions post-multiply (and their "-ed" forms pre-multiply) the given matrix by the elementary 2D transform, the make forms create it, and the texture-transform constructors build the documented scale-rotate-translate matrix, for every input matrix (affine for the pre-multiplying forms).',
  [I, C], 'every 3x3 matrix (affine for the pre-multiplying forms), finite vector, scale and angle',
  'Each function is tested once or twice from the identity.',
  [INC+'affine2d.h', INC+'affine2d-post.h', INC+'mat2.h', INC+'mat3.h', INC+'mat4.h'], [('column updates', INC+'affine2d.h')], ['destination matrices'])
p('A03', 'Affine products, rigid inverse and decomposition round-trip',
  'The affine matrix products equal the full product whenever their documented shape preconditions hold, the rigid-transform inverse undoes every rotation-translation matrix, and decomposing a translation-rotation-scale matrix returns its translation, a proper rotation and scale factors that recompose to the same matrix, including mirrored ones. The uniform-scale test and scale extraction report the true column lengths.',
  [I, C], 'every affine or rotation(+translation) matrix, every non-zero scale including negative determinants'+CFG,
  'Tests decompose one matrix; mirrored scales and SIMD-specific affine kernels are not explored.',
  [INC+'affine-mat.h', INC+'affine.h', INC+'simd/sse2/affine.h', INC+'simd/avx/affine.h', INC+'simd/neon/affine.h'], [('SIMD affine kernels', INC+'simd')], ['destination matrices', 'vectors'])
p('Q01', 'Quaternion algebra follows Hamilton\'s rules',
  'Quaternion product, sum, difference, dot, norm, conjugate, inverse, normalization, identity, construction (from components, from angle-axis) and the real/imaginary/angle/axis accessors satisfy the Hamilton definitions for all finite quaternions, with inverse times original equal to identity and norm multiplicative. Normalizing a zero quaternion yields the identity.',
  [I, C], 'every finite quaternion (non-zero where inverse or axis is taken)'+CFG,
  'Tests use a couple of quaternions; zero, negative-real and non-unit ones and SIMD products are not covered.',
  [INC+'quat.h', INC+'simd/sse2/quat.h', INC+'simd/neon/quat.h', INC+'simd/wasm/quat.h'], [('Hamilton product kernels', INC+'simd/sse2/quat.h')], ['destination quaternions'])
p('Q02', 'Quaternions and rotation matrices represent the same rotation',
  'Converting a unit quaternion to a 3x3 or 4x4 matrix (plain or transposed), converting a rotation matrix back, rotating vectors, rotating a transform, rotating about a pivot and quaternion camera look all realise exactly the rotation q v q*, and matrix-to-quaternion-to-matrix is the identity for every rotation matrix, whichever diagonal element dominates.',
  [I, C], 'every unit quaternion and rotation matrix, including half-turns and all trace/diagonal branches'+CFG,
  'The four branches of matrix to quaternion conversion and half-turn rotations are barely sampled.',
  [INC+'quat.h', INC+'mat3.h', INC+'mat4.h'], [('branch on trace and largest diagonal', INC+'mat4.h')], ['matrices', 'quaternions', 'vectors'])
p('Q03', 'Quaternion interpolation moves at the right place along the right arc',
  'For unit quaternions, slerp at t lies on the great arc at angle t times the total, taking the short way (or the long way for the longest variant), with endpoints reproduced up to sign; lerp and clamped lerp interpolate components and nlerp returns the normalized short-way lerp. Results of slerp and nlerp are unit length for every t in [0,1].',
  [I, C], 'every pair of unit quaternions (equal, opposite, near-parallel, near-antipodal, generic) and t in [0,1]',
  'Tests interpolate one pair at one t; sign flips and the small-angle fallback thresholds are not explored.',
  [INC+'quat.h'], [('sign flip and small-angle fallback', INC+'quat.h')], ['destination quaternions'])
p('Q04', 'Quaternions built from directions really align those directions',
  'The quaternion between two vectors is a unit quaternion rotating the first direction onto the second for every pair, including parallel and exactly opposite ones; the look quaternions orient forward (-Z) along the direction with up as close as possible to the given up vector.',
  [I, C], 'every pair of unit vectors; every direction/up pair not parallel',
  'Tests check one or two vector pairs.',
  [INC+'quat.h'], [('antiparallel fallback', INC+'quat.h')], ['destination quaternions'])
p('Q05', 'Euler conversions equal the product of axis rotations in the named order',
  'For every triple of angles, each Euler-to-matrix function (six named orders, the order-driven form and order computation) and each Euler-to-quaternion function (right- and left-handed conventions) equals the composition of single-axis rotations in the named order, and extracting XYZ angles from any rotation matrix, including gimbal lock, rebuilds the same matrix.',
  [I, C], 'every finite angle triple, all orders, both handedness conventions, gimbal-locked matrices',
  'Tests use a few fixed angles per order.',
  [INC+'euler.h', INC+'handed/euler_to_quat_rh.h', INC+'handed/euler_to_quat_lh.h'], [('closed-form matrices', INC+'euler.h')], ['matrices', 'quaternions', 'angles'])
p('C01', 'View matrices are rigid, place the eye at the origin and look forward',
  'For every eye, target and non-parallel up, look-at and look matrices of both handedness are rigid, send the eye to the origin, send the viewing direction to -Z (right-handed) or +Z (left-handed), and put up in the upper YZ half-plane; the any-up form does the first three with a perpendicular up of its own choice.',
  [I, C], 'every eye/target/direction/up with target distinct from eye and up not parallel to the direction, in both handed conventions and depth ranges',
  'Tests use one camera per convention and mostly compare implementations to each other.',
  [INC+'cam.h', INC+'clipspace/view_lh.h', INC+'clipspace/view_rh.h', INC+'quat.h'], [('basis construction', INC+'clipspace/view_rh.h')], ['destination matrices'])
p('C02', 'Perspective projections map their frustum exactly onto the clip volume',
  'For every valid field of view, aspect, near and far (or six planes), each perspective and frustum function maps the near and far rectangles\' corners to the corners of the clip volume of its convention (left/right handed, depth 0..1 or -1..1), with clip w equal to the distance along the view axis and depth increasing with distance; default and resize forms use the documented parameters.',
  [I, C], 'every positive near < far (or asymmetric window) and field of view in (0, pi), all four clip conventions',
  'Tests check one parameter set per convention against the same formula.',
  [INC+'cam.h', INC+'clipspace/persp_lh_no.h', INC+'clipspace/persp_lh_zo.h', INC+'clipspace/persp_rh_no.h', INC+'clipspace/persp_rh_zo.h', INC+'clipspace/persp.h'], [('closed-form matrices', INC+'clipspace/persp_rh_no.h')], ['destination matrices'])
p('C03', 'Orthographic projections map their box exactly onto the clip volume',
  'For every non-degenerate box, each orthographic function (explicit planes, bounding box, padded box, default and default-size forms) maps the box corners onto the corners of the clip volume of its convention, with bottom row (0,0,0,1).',
  [I, C], 'every non-degenerate box, padding, aspect and size, all four clip conventions',
  'Tests check one box per convention; the bounding-box forms of left-handed conventions are not tested at all.',
  [INC+'cam.h', INC+'clipspace/ortho_lh_no.h', INC+'clipspace/ortho_lh_zo.h', INC+'clipspace/ortho_rh_no.h', INC+'clipspace/ortho_rh_zo.h'], [('closed-form matrices', INC+'clipspace/ortho_rh_no.h')], ['destination matrices'])
p('C04', 'Projection decomposition returns the parameters that built the projection',
  'Decomposing a perspective matrix built by the same convention returns its near, far, left, right, top, bottom, field of view, aspect and near/far plane sizes within rounding, by the combined and every partial function alike; moving the far plane and changing the aspect give the matrix that the new parameters would have built.',
  [I, C], 'every valid symmetric or asymmetric perspective, all four clip conventions',
  'Several partial decompositions have no test in some conventions; others are tested with one projection.',
  [INC+'cam.h', INC+'clipspace/persp_lh_no.h', INC+'clipspace/persp_lh_zo.h', INC+'clipspace/persp_rh_no.h', INC+'clipspace/persp_rh_zo.h', INC+'clipspace/persp.h'], [('inverse formulas', INC+'clipspace/persp_lh_zo.h')], ['output scalars and vectors'])
p('C05', 'Project and unproject are inverse and viewport-correct',
  'Projecting a point gives the window coordinates defined by the matrix, perspective divide, viewport and depth convention; unprojecting them with the same matrix (or its inverse) returns the original point; the depth-only form equals the full form\'s depth, and the pick matrix maps the picking window onto the whole clip square and for an empty window leaves its destination alone (by value: yields the identity).',
  [I, C], 'every invertible view-projection matrix, viewport with positive size and point with non-zero w, both depth conventions',
  'Tests use a few points with one camera; the depth conventions are each tried once.',
  [INC+'project.h', INC+'clipspace/project_no.h', INC+'clipspace/project_zo.h'], [('viewport mapping', INC+'clipspace/project_no.h')], ['destination vectors'])
p('C06', 'The default clip-control names dispatch to the selected convention',
  'Whatever clip-space convention the build selects (handedness and depth range), every unsuffixed camera, projection and decomposition function returns exactly what the suffixed function of that convention returns, in header-only, linked and struct forms.',
  [I, C], 'all four clip-control configurations and every valid camera input',
  'The suite is built in a single clip-control configuration, so three of the four dispatch branches never execute.',
  [INC+'cam.h', INC+'common.h', INC+'project.h', INC+'struct/cam.h', 'src/cam.c'], [('CGLM_CONFIG_CLIP_CONTROL dispatch', INC+'cam.h')], ['destination matrices'])
p('G01', 'Extracted frustum planes and corners bound exactly the visible volume',
  'From any invertible view-projection matrix (depth -1..1), a point is inside all six extracted unit-normal planes exactly when it projects inside the clip volume, the eight corners are the unprojected clip corners in documented order, the center is their mean, the box is their tight bound after the given transform, and corner splits lie on the edges (for a symmetric frustum at the requested fraction of the depth).',
  [I, C], 'every invertible projection or view-projection matrix and every point off the boundary',
  'Tests never classify points against the extracted planes.',
  [INC+'frustum.h', INC+'plane.h'], [('row combinations', INC+'frustum.h')], ['planes', 'corners', 'boxes'])
p('G02', 'Axis-aligned 3D boxes behave as point sets',
  'Merging boxes gives the smallest enclosing box, cropping the intersection, and transforming the tight box of the eight transformed corners; containment, overlap, point and sphere tests agree with set membership including touching boundaries, and the frustum test never rejects a box that has a point inside the frustum. Invalidated boxes are invalid and are the neutral element of merge; center, size and radius match the diagonal.',
  [I, C], 'every valid finite box, affine matrix, sphere, point and plane set'+CFG,
  'Tests use a few integer boxes; boundary contact and general transforms are sampled once.',
  [INC+'box.h'], [('per-axis min/max', INC+'box.h')], ['boxes', 'return values'])
p('G03', 'Axis-aligned 2D boxes behave as point sets',
  'The 2D boxes obey the same laws in the plane: transform, merge, crop, crop-until, validity, diagonal, size, radius, center and the box/circle/point/containment tests agree with set membership including touching boundaries.',
  [I, C], 'every valid finite 2D box, 2D affine matrix, circle and point',
  'Tests use a few integer boxes.',
  [INC+'aabb2d.h'], [('per-axis min/max', INC+'aabb2d.h')], ['boxes', 'return values'])
p('G04', 'Sphere and ray queries return the true geometric answer',
  'Sphere overlap and point tests agree with distances, merging encloses both spheres, and transforming moves the center; ray-triangle intersection reports a hit exactly when the ray crosses the triangle interior (either side) with the true distance, ray-sphere returns both true ordered intersection parameters or reports a miss, and the point along a ray is origin plus distance times direction.',
  [I, C], 'every finite sphere, non-degenerate triangle and ray away from decision boundaries',
  'Tests use a few rays; origins inside spheres, tangents, back faces and skewed triangles are sampled at most once.',
  [INC+'ray.h', INC+'sphere.h'], [('Moeller-Trumbore', INC+'ray.h'), ('quadratic solve', INC+'ray.h')], ['return values', 'output parameters'])
p('G05', 'Curves, easing and color functions follow their defining formulas',
  'Cubic evaluation by matrix, Bezier and Hermite functions equal their polynomials and hit their endpoints, the de Casteljau solver inverts a monotone Bezier to its stated tolerance, every easing function matches its published formula with value 0 at 0 and 1 at 1 and the in/out mirror symmetry, and luminance is the documented weighted sum.',
  [I, C], 'every parameter in [0,1] (and beyond for polynomials) and every finite control value',
  'Only a few parameter values are tested; several easing functions have no numeric test.',
  [INC+'bezier.h', INC+'curve.h', INC+'ease.h', INC+'color.h'], [('piecewise easing formulas', INC+'ease.h')], ['return values'])
p('G06', 'Perlin noise equals classic gradient noise',
  'The 2D, 3D and 4D noise functions equal classic (Gustavson) Perlin noise for every ordinary finite point, vanish on the integer lattice, are continuous, and stay within [-1.5, 1.5].',
  [I, C], 'every point with moderate coordinates (|x| below a few hundred), positive and negative',
  'Tests compare a few points with recorded values.',
  [INC+'noise.h'], [('permutation polynomial and gradient selection', INC+'noise.h')], ['return values'])
p('X01', 'Inline, linked and struct APIs are the same function',
  'For every public function, the header-only array form, the precompiled linked form and the by-value struct form return the same results and the same modifications for identical arguments; struct members by name and by raw array view address the same storage, and every documented naming option of the struct API yields the same functions under the configured names.',
  [I, C], 'every public function having more than one form and every valid input, in each struct-API naming option and clip-control configuration',
  'The suite compares forms only with hard-wired inputs, and many struct wrappers and linked forms have no test.',
  [INC+'call', INC+'struct', 'src', INC+'types-struct.h'], [('one-line wrappers', 'src'), ('struct wrappers', INC+'struct')], ['all outputs'])
p('X02', 'All SIMD back ends and build options agree with the scalar code',
  'For identical inputs every public function returns the same result (within rounding) in the scalar build and in the SSE2, SSE3, SSE4.1, AVX, AVX2+FMA, NEON and WASM builds, with aligned or unaligned types, with either compiler and in every optimisation level.',
  [I, C], 'every public function and valid input across build configurations',
  'The suite only runs one SIMD configuration at a time and compares it with constants.',
  [INC+'simd', INC+'mat4.h', INC+'mat2.h', INC+'vec4.h', INC+'quat.h', INC+'affine-mat.h'], [('architecture dispatch', INC+'simd/intrin.h')], ['all outputs'])
p('X03', 'No function touches memory outside its arguments or reads its outputs',
  'No public function reads or writes outside the objects it is given (assuming only the documented alignment of each type), modifies an argument documented as input, lets the previous content of a pure output influence the result, reads uninitialised memory, or traps on any valid input.',
  [I, C], 'every public function, in every form, with arguments placed against inaccessible memory at the weakest documented alignment',
  'Tests use ordinary stack variables, where stray lane reads or writes and over-aligned accesses go unnoticed.',
  [INC+'vec3.h', INC+'mat3.h', INC+'mat4.h', INC+'simd', INC+'types.h'], [('per-type load/store widths', INC+'simd'), ('alignment macros', INC+'types.h')], ['memory around every argument'])
p('X04', 'In-place use gives the same result as a separate destination',
  'Whenever the documentation allows the destination to be one of the operands (componentwise and normalising vector operations, cross product, matrix products, inverses, transposes, scaling, quaternion operations computed componentwise, affine products, boxes), passing it gives exactly the result of using a separate destination.',
  [I, C], 'every function that supports it, every choice of operand as destination'+CFG,
  'Tests hardly ever pass the destination as operand, and only in the SSE2 build.',
  [INC+'vec3.h', INC+'vec4.h', INC+'mat2.h', INC+'mat3.h', INC+'mat4.h', INC+'quat.h', INC+'simd'], [('load-before-store discipline', INC+'simd')], ['destination objects'])
p('X05', 'Printed output shows every element at its place with the documented format',
  'Every print function writes, for any content, the documented header and all components of the matrix, vector, integer vector, quaternion or box in row/column layout with five decimals (compact form for large values), so that parsing the text yields the values back to the printed precision.',
  [I, C], 'every finite content including negative, large and tiny values, coloured or plain configuration',
  'The suite only checks that the printers run or compares no text.',
  [INC+'io.h', INC+'struct/io.h', 'src/io.c'], [('format and width computation', INC+'io.h')], ['text written to the stream'])
p('X06', 'Ready-made constants, masks and older names mean what they say',
  'Every public constant denotes its documented value in every API and build: zero, one, identity, black and axis values (as initialiser and as expression), the numeric constants in double and single precision, the Bezier and Hermite basis matrices, the clip-space corner and plane indices and coordinates, the swizzle masks and GLM_SHUFFLE*, GLM_MIN/GLM_MAX, the clip-control configuration bits; and every older function name (dup, flipsign, inv, mulv, step_uni, inv_precise, aabb2d_size) does what the current function does.',
  [I, C], 'every constant and alias in the three APIs; generated vectors, parameters and matrices they are used with; every clip configuration',
  'Tests compare a few of the constants with themselves; the struct forms, float companions, masks in expressions and call-API aliases are not exercised.',
  [INC+'types.h', INC+'common.h', INC+'vec3.h', INC+'vec4.h', INC+'frustum.h', INC+'bezier.h', INC+'struct', INC+'call/vec4.h'], [('constant and alias macros', INC+'types.h')], ['values and results of the aliased calls'])
p('X07', 'Calls are independent of each other',
  'The result of every public function depends only on the values passed to it: not on which calls were made before it, and not on calls made at the same time by other threads with their own arguments; and no call changes the floating point control state of its thread.',
  [I, C], 'every public function; histories of calls with partly changed arguments in either order; pairs of concurrent calls',
  'Tests call each function a few times in one thread and one order, so cached intermediate results, shared scratch objects and left-over rounding or flush modes go unnoticed.',
  [INC+'mat4.h', INC+'quat.h', INC+'cam.h', INC+'noise.h', INC+'box.h', INC+'simd'], [('local variables only; no static storage', INC+'mat4.h')], ['all outputs', 'mxcsr and x87 control word'])
p('X08', 'Build options change exactly what they announce',
  'Defining a build option changes only what the option is for; every other function gives bit for bit the result it gives without it, in all three APIs. CGLM_NO_INT_DOMAIN, the print and debug options, CGLM_NO_ANONYMOUS_STRUCT, and including the clipspace headers one by one (struct and call headers first) instead of CGLM_CLIPSPACE_INCLUDE_ALL change no result. CGLM_ALL_UNALIGNED only removes the alignment requirements: every function then works on arguments aligned like a float. CGLM_FORCE_LEFT_HANDED and CGLM_FORCE_DEPTH_ZERO_TO_ONE only switch the plain names that have explicit _lh/_rh/_no/_zo variants. GLM_FLT_EPSILON and CGLM_USE_DEFAULT_EPSILON set the tolerance of eq, _eq_eps, _eqv_eps and _eq_all (and how close to parallel quat_from_vecs looks) and nothing else. GLM_CUSTOM_CLIPSPACE makes frustum_corners return the images of the corners the user defined. The array types have exactly the size of their components and the documented alignment (vec4, versor 16; mat4 16, 32 with AVX).',
  [I, C], 'every public function, each option, generated in-domain arguments; values around each configured tolerance; arbitrary invertible matrices for user-defined corners',
  'The suite is built once, with one set of options; no test compares two builds.',
  ['include/cglm/common.h', INC+'types.h', INC+'simd/x86.h', INC+'simd/intrin.h', INC+'clipspace', INC+'frustum.h', 'docs/source/opt.rst'], [('option handling', INC+'common.h')], ['all outputs', 'sizeof and alignof of the types'])
if __name__ == '__main__':
    with open(OUT, 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    print(len(P))
