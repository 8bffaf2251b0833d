import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
B="include/math/bvh.hpp"; BS="source/bvh.cpp"; A="include/math/aabb.hpp"; AS="source/aabb.cpp"
SF="include/math/simd/vector/float.hpp"; SU="include/math/simd/vector/uint.hpp"; SI="include/math/simd/vector/int.hpp"
VF="include/math/vector/float.hpp"; VI="include/math/vector/int.hpp"; VU="include/math/vector/uint.hpp"
MF="include/math/matrix/float.hpp"; SM="include/math/simd/matrix/float.hpp"; MT="include/math/matrix/transform.hpp"; MP="include/math/matrix/projection.hpp"
Q="include/math/quaternion.hpp"
p("C01","A built BVH is a tree that holds every primitive exactly once, inside its box",
 "After building from any triangle mesh or any list of finite, non-empty boxes (with or without the caller's centroids), the nodes form one binary tree rooted at the root node, whose box is the one the caller gave: every input primitive is in exactly one leaf, no node is reachable twice, and no leaf refers to a primitive that was not given. Every other node's box (x, y, z) is exactly the union of the boxes of the primitives below it, primitives that lie apart along an axis are not all left together in a leaf of more than two, and unused fourth components never influence the tree. Building always terminates without touching memory outside its inputs, also when primitives coincide, are degenerate (points, flat triangles) or are spread very unevenly.",
 ["inputs","histories"],"all meshes / box lists of up to N primitives over a small position alphabet (coincident, collinear, clustered, far-apart), both build overloads, 16- and 32-bit indices",
 "The container test builds one or two fixed meshes; the partitioning, bin selection and leaf fallback depend on the multiset and order of centroids, so only enumerating primitive layouts reaches the tie, all-on-one-side and empty-bin cases.",
 [B,BS],[("recursive binned SAH split and in-place primitive partition","source/bvh.cpp recreate"),("leaf/children payload stored in box W lanes","include/math/bvh.hpp Bvh::Node")],
 ["Bvh::getNodes","Bvh::getPrimitives"])
p("C02","BVH traversal and frustum collection miss nothing and report nothing twice",
 "Traversing a built BVH with a node test that never rejects a box overlapping the query visits every primitive the query overlaps, each exactly once, and never descends below a node the test rejected. Collecting against a set of planes yields every primitive whose box is not entirely behind one of them, each at most once, and none that belongs to a node whose box (or whose ancestor's box) is entirely behind one.",
 ["inputs","histories"],"all small primitive sets x all query points/boxes/frusta of a lattice",
 "Tests run no query with a brute-force oracle; a missed subtree depends on the tree shape and the query together.",
 [B,BS,A],[("explicit-stack traversal","include/math/bvh.hpp traverse"),("frustum collection","source/bvh.cpp collectInFrustum")],["callbacks of traverse","collected index list"])
p("C03","A BVH's answers depend only on its last build, not on its history",
 "Rebuilding an existing BVH with new primitives gives the same tree and the same query answers as building a fresh one from those primitives, whatever was built, queried, copied, assigned, moved or swapped before. Copies and moved-to objects answer as the original did, and neither queries nor the mutation of one copy change another; queries leave the tree unchanged. A query cut short by an exception (from the caller's node test or leaf callback, or a failed allocation) leaves the tree and its later answers as they were, and a rebuild cut short by one can be repeated like any other.",
 ["histories"],"all sequences up to depth D of build/rebuild/clear/copy/move/query operations over a small alphabet of primitive sets; every callback and every allocation of an operation failing",
 "Tests build each object once; stale scratch stacks, stale node storage and shared state need a second operation on the same object.",
 [B,BS],[("reuse of nodes / primitives / scratch stack vectors","source/bvh.cpp recreate")],["Bvh accessors and queries"])
p("C04","Frustum culling keeps visible boxes, drops those wholly behind a plane",
 "The frustum planes extracted from a view-projection matrix enclose exactly the points the matrix maps into the clip volume, with normals facing inwards. A box (optionally transformed by a model matrix) is reported behind the frustum only if it lies entirely outside at least one of the planes, and always when it does; a box containing a point inside the frustum is never culled.",
 ["inputs"],"all boxes of a lattice x all model transforms of a rotation/scale/translation set x a set of projections",
 "Culling has eight corner combinations and six planes; the fixed tests never call it.",
 ["include/math/plane.hpp",A,MP,BS],[("plane extraction","include/math/plane.hpp Frustum"),("corner test","include/math/aabb.hpp isBehindFrustum")])
p("C05","A box always equals the interval triple its operations describe",
 "After any sequence of set, try-set, extend, shrink, translate and (positive) scale operations, a box's minimum, maximum, size, extent and centre equal those of the three intervals the operations describe; extending by points or boxes yields the smallest box containing both, and an empty or full box behaves as its name says. An attempt to set bounds whose minimum exceeds the maximum on any of the three axes is refused and leaves the box as it was, and a valid one is accepted and takes effect. Boxes of different bounds compare unequal and copies equal, and the binary-less order is a strict total order on boxes of different bounds.",
 ["histories","inputs"],"all operation sequences up to depth D over a small lattice of bounds, points and boxes",
 "Operations compose: the tests check a few single calls with fixed numbers.",
 [A],[("min/max representation","include/math/aabb.hpp Aabb")],["Aabb accessors"])
p("C06","Box containment, overlap and nearest-point queries are exact in 3D",
 "Whether a point or box lies inside a box, whether two boxes overlap, and the nearest point of a box to a point are decided exactly by the three axis intervals with closed boundaries. Overlap is symmetric, containment implies overlap, and the unused fourth component of any operand never influences an answer.",
 ["inputs"],"all pairs of boxes and points over a small lattice, with adversarial fourth components",
 "A wrong sign on one axis or a leak of the padding lane shows only for particular relative placements.",
 [A],[("componentwise interval comparisons","include/math/aabb.hpp isInside/isIntersected/closestPoint")])
p("C07","A ray hits a box exactly where the slab intervals say it does",
 "For a non-zero direction the ray/box test reports a hit exactly when the ray's line parameter interval clipped by the three slabs is non-empty and in front of the origin where the query is a forward query, including rays parallel to an axis, rays starting inside or on the surface, and rays grazing faces (up to rounding for normalised directions). The returned entry and exit distances are those parameter values along the ray direction, entry not after exit.",
 ["inputs"],"all origins, directions and boxes of a small lattice",
 "Axis-parallel, inside-origin and behind-origin cases need specific sign/zero combinations per axis; tests do not raycast.",
 ["include/math/ray.hpp",A],[("slab test with parallel-axis mask","include/math/aabb.hpp raycast"),("parallel mask kept by direction setters","include/math/ray.hpp")])
p("C08","The box/triangle overlap test agrees with exact geometry",
 "A box and a triangle are reported intersecting exactly when they share at least one point (closed sets), for non-degenerate triangles; the answer does not depend on the order of the triangle's vertices or on translating both together.",
 ["inputs"],"all triangles over a small integer lattice x all boxes of a lattice, against exact rational geometry",
 "Thirteen separating axes each matter only for particular triangle poses; tests do not exercise the function.",
 [AS,A],[("separating axis test","source/aabb.cpp isAabbIntersected")])
p("C09","Planes, lines, rays, spheres and triangles agree on distance and nearest point",
 "Signed plane distance is zero exactly on the plane (in particular on the three points or the triangle it was built from), positive on the normal's side, and linear; for non-degenerate shapes the nearest point of a plane, line segment, ray, sphere or triangle to a query point lies on the shape and no other point of the shape is closer. Point-in-shape (for a triangle: for points of its plane) and shape/shape overlap answers agree with those distances, touching spheres aside.",
 ["inputs"],"all shapes and query points over small lattices",
 "Region selection (vertex/edge/face; behind/at/after an end point) depends on the query point; tests do not call these.",
 ["include/math/plane.hpp","include/math/line.hpp","include/math/ray.hpp","include/math/sphere.hpp","include/math/triangle.hpp"],
 [("plane equation sign convention","include/math/plane.hpp"),("barycentric region selection","include/math/triangle.hpp closestPoint")])
p("C10","Independent BVH operations run at the same time do not see each other",
 "Several collections on one BVH, each with the caller's own node stack, also while one traversal or collection uses the object's stack, give in every interleaving exactly the results each gives alone and leave the tree unchanged. Likewise builds and queries of different BVH objects, copies of one another included, never influence each other.",
 ["schedules","histories"],"all interleavings of two or three operations at function-entry granularity up to a preemption bound, on several trees and frusta",
 "Shared scratch state corrupts a result only when a switch falls between two particular steps; tests run one query at a time.",
 [B,BS,A],[("caller-given node stack","source/bvh.cpp collectInFrustum"),("per-object scratch","include/math/bvh.hpp traverse")],["collected index list","callbacks of traverse"])
p("C11","Shapes moved or scaled by operators are the shapes of the moved points",
 "Multiplying, dividing, adding or subtracting a vector moves every point of a line or triangle and the origin of a ray componentwise, in the plain and the compound form alike, and a ray then points along its componentwise changed direction. After any sequence of such operators and normalize, a ray behaves (parallel axes, raycasts) as one freshly built from its origin and direction; setters change only the component they name, shapes compare equal exactly when their components do, and the named shapes are what they are called.",
 ["histories","inputs"],"all operator sequences up to depth D over a small alphabet of shapes and operands; all pairs of small shapes",
 "One wrong member in one of twenty-four operators, or a cached flag left stale, needs the particular operator and then a query; tests call none.",
 ["include/math/line.hpp","include/math/ray.hpp","include/math/triangle.hpp","include/math/sphere.hpp","include/math/plane.hpp"],
 [("operators","include/math/line.hpp"),("cached parallel axes","include/math/ray.hpp setDirection")])
p("C12","The library keeps no hidden state",
 "What a call yields depends on its operands only: not on the calls made before it (of the same or of any other operation), nor on calls that run at the same time on other operands or only read the same objects. Reading operations leave the objects they are given unchanged, and no call leaves another floating-point rounding, exception or flush mode behind.",
 ["schedules","histories"],"all histories over pairs of operand variants of every operation and over all pairs of operations; all pairs of concurrent calls at memory-access granularity",
 "A cached or scratch value shows only when a call with particular other operands comes before or in between; tests call each operation a few times in one order.",
 ["include/math","source"],[("function-local and namespace-scope statics","include/math/color-space.hpp, quaternion.hpp"),("per-call locals","include/math/aabb.hpp isBehindFrustum, simd/vector/float.hpp, quaternion.hpp, matrix/transform.hpp, sh.hpp")])
p("V01","Every SIMD float operation does to each lane what the scalar operation does",
 "For all operand values, each four-lane float operation (arithmetic, comparison, selection, min/max/clamp, swizzles, component access, dot/cross/length/normalise, lane reductions, fused multiply-add, conversions to and from scalar vectors) gives per lane the result of the corresponding scalar float operation, and three-component variants ignore the fourth lane. The SSE-only and AVX2 builds agree with each other.",
 ["inputs","configurations"],"all pairs of a special-value alphabet (zeros, denormals, huge, infinities, NaN, lattice values) in every lane position, in each instruction-set configuration",
 "Tests use one set of operands, only the AVX2 build, and a NaN-tolerant comparison that accepts wrong results.",
 [SF,VF],[("per-ISA intrinsics branches","include/math/simd/vector/float.hpp")])
p("V02","SIMD integer lanes are exact 32-bit integers, signed or unsigned as typed",
 "For all 32-bit operand values each four-lane integer operation (arithmetic modulo 2^32, division, remainder, bitwise, shifts, comparison, min/max/clamp, selection, negation, lane reductions, swizzles, string form) gives per lane the mathematical result for the lane type: unsigned lanes compare and order as unsigned, signed lanes as signed. Mask queries (all/any/none true, bit mask) read exactly the lanes they name.",
 ["inputs","configurations"],"all pairs of a boundary-value alphabet across the full 32-bit range in every lane, in each instruction-set configuration",
 "Tests only use small non-negative numbers, where signed and unsigned behaviour coincide.",
 [SU,SI,VU,VI],[("per-ISA intrinsics branches","include/math/simd/vector/uint.hpp, int.hpp")])
p("V03","Integer, unsigned and float vectors convert as C++ scalars do",
 "Converting between float, signed, unsigned and boolean-mask vectors (scalar and SIMD, all widths) gives per component the C++ conversion of that component, over the whole range where that conversion is defined; bit reinterpretation preserves every bit pattern and round-trips. Widening or narrowing a vector keeps the named components in order.",
 ["inputs"],"all 2^32 values for lane conversions (thorough), boundary values per lane otherwise",
 "Values above 2^31 and negative values are never converted in tests.",
 [SF,SU,SI,VF,VI,VU],[("cvt intrinsics","include/math/simd/vector/float.hpp")])
p("V04","Rounding, modulo, repeat, sign and clamp functions satisfy their definitions",
 "For every finite float, floor, ceil, trunc and round return the integers their names define (ties of round may go either way), SIMD modulo takes the divisor's sign and scalar modulo is C's fmod, and repeat returns a value in [0,1] that differs from the input by a whole number. Sign, abs, min, max, clamp, lerp and its time-step form, gain, and degree/radian conversion obey their definitions, and the SIMD and scalar versions agree except in what is said above.",
 ["inputs"],"all 2^32 float bit patterns for unary functions (strided in the quick tier by complete enumeration of a reduced-mantissa lattice), all pairs of an alphabet for binary ones",
 "Negative numbers, halves, values beyond 2^23 and exact multiples are each a separate regime; tests sample none systematically.",
 [SF,VF,"include/math/common.hpp"],[("round intrinsics and SSE2 fallbacks","include/math/simd/vector/float.hpp")])
p("V05","SIMD exp, log, pow and trigonometric functions track the real functions",
 "For every float in the functions' domain the vectorised exp and log stay within a few units of the last place of the real function (relative error below 5e-7), sine and cosine within 2e-7 absolute up to |x| = 8192 (2e-6 up to 65536), and pow and its fast approximation (positive bases, or negative ones with integer exponents) within their stated accuracy, in each lane independently of the other lanes. Special values (0, 1, negative, infinities, NaN, overflow and underflow) give exp and log the limits the real functions have.",
 ["inputs"],"all 2^32 float bit patterns in the thorough tier; every exponent/sign with a complete reduced mantissa in the quick tier",
 "Polynomial/coefficient or range-reduction faults affect narrow argument ranges; tests do not evaluate these functions.",
 [SF],[("polynomial approximations and range reduction","include/math/simd/vector/float.hpp")])
p("V06","Scalar int, uint and float vectors are componentwise in every operator",
 "Every operator and helper of the 2, 3 and 4 component scalar vectors (binary, compound, vector-scalar and scalar-vector forms, comparison masks, all/any/none, select, min/max/clamp, indexing, constants, string conversion) acts on each component independently as the C++ operator does and returns components in order; compound and binary forms agree, and equality is exact equality of all components.",
 ["inputs"],"all operand pairs over a boundary alphabet with pairwise distinct components, for all nine vector types",
 "About a thousand hand-written one-line operators; tests cover only some of them with equal components.",
 [VF,VI,VU],[("hand-written per-component operators","include/math/vector/*.hpp")])
p("M01","Matrix products, transposes and inverses obey linear algebra",
 "For all matrices of each size (2x2, 3x3, 4x3, 4x4, scalar and SIMD), products agree with the textbook definition and are associative with matrix-vector products, transposition swaps rows and columns, a vector times a matrix equals the transposed matrix times the vector, and an invertible matrix times its inverse is the identity. Scalar and SIMD versions give the same matrix, element access and constructors place elements as documented, and arithmetic and comparison operators act on every element.",
 ["inputs"],"all matrices with entries from a small integer alphabet (2x2, 3x3 completely; 4x4 over complete sub-lattices and all elementary/permutation products)",
 "A swapped cofactor or column only shows for asymmetric matrices; the tests multiply a few matrices and accept NaN.",
 [MF,SM],[("hand-expanded cofactors","include/math/matrix/float.hpp inverse"),("SIMD shuffles","include/math/simd/matrix/float.hpp")])
p("M02","Transforms built from position, rotation and scale decompose back to them",
 "For every translation, rotation and positive scale, building a transform and extracting position, rotation and scale returns the inputs; translate, rotate and scale compose in the documented order, applying a transform to a point, direction or normal equals applying scale, rotation and translation in turn, and the specialised inverse of a translation-rotation matrix undoes it.",
 ["inputs","histories"],"all sequences up to depth D of translate/rotate/scale generators over the 24 cube rotations and lattice translations/scales",
 "Composition order and extraction errors cancel for identity rotations or unit scale, which is all the tests use.",
 [MT],[("compose/extract functions","include/math/matrix/transform.hpp")])
p("M03","Projection matrices map their view volume onto the clip volume",
 "Each perspective and orthographic projection (finite, infinite, reversed depth) maps the corners of the view volume it was given to the corresponding corners of the clip volume, with depth monotonic between near and far, and accessors that recover near, far, field of view or aspect return the values the matrix was built with.",
 ["inputs"],"all combinations of a parameter grid of fov/aspect/near/far/bounds",
 "Depth convention and off-centre terms need several parameters and points together; tests never call them.",
 [MP],[("projection formulas","include/math/matrix/projection.hpp")])
p("M04","Look-at and view orientations are rigid and point where asked",
 "For every view direction not parallel to the up direction, every look-at, look-to and direction-to-rotation construction yields an orthonormal right-handed (or documented-handed) basis whose forward axis is the requested direction, whose up axis lies in the plane of the direction and the requested up, and which maps the eye position to the origin; the matrix and quaternion forms describe the same rotation.",
 ["inputs"],"all direction/up pairs of a lattice (non-parallel), all eye positions",
 "A wrong cross product leaves the matrix right for axis-aligned inputs.",
 [MT,Q],[("basis construction","include/math/matrix/transform.hpp lookAt, include/math/quaternion.hpp lookAtQuat")])
p("Q01","Quaternions act as rotations: products, inverses, vectors and matrices agree",
 "Multiplying quaternions composes their rotations, conjugate/inverse undo them, rotating a vector equals multiplying by the converted matrix, converting a rotation matrix to a quaternion and back is the identity on rotations, and an axis-angle quaternion turns by the given angle about the given axis with the documented handedness.",
 ["inputs","histories"],"the full closure of the 24 binary-tetrahedral / 48 binary-octahedral generators under multiplication, and all integer quaternions of small norm",
 "Each of four branches in matrix-to-quaternion conversion covers a quarter of rotation space; tests use one rotation.",
 [Q,MT],[("Hamilton product and largest-component branch","include/math/quaternion.hpp")])
p("Q02","Euler angles and quaternions convert back and forth to the same rotation",
 "Building a quaternion from Euler angles and extracting pitch, yaw and roll gives angles that rebuild the same rotation, for every angle triple including the gimbal-lock poles (there within the accuracy of a float arcsine); building from angles equals the product of the three axis rotations in the documented order.",
 ["inputs"],"all triples of a complete angle grid including the poles and wrap-around",
 "Singularity branches are taken only at specific component values.",
 [Q,"include/math/angles.hpp"],[("extraction with singularity tests","include/math/quaternion.hpp extractPitch/Yaw/Roll")])
p("Q03","Quaternion and vector interpolation stays on the path between its end points",
 "Interpolating between two values returns the first at 0 and the second at 1; spherical interpolation of unit quaternions stays unit length, takes the shorter arc, and divides the angle proportionally to the parameter, also when the two are equal, nearly equal or opposite in sign.",
 ["inputs"],"all pairs of a closed quaternion set x a grid of parameters",
 "Sign flip and near-parallel fallback branches need particular pairs.",
 [Q,VF,"include/math/common.hpp"],[("slerp/lerp branches","include/math/quaternion.hpp")])
p("P01","8-bit colours convert to and from floats, hex and integers without drift",
 "For every one of the 2^32 colours, converting to float components and back, to hexadecimal text and back, and to a packed integer and back returns the same colour; setting a normalised component to any float stores the nearest 8-bit value after clamping to [0,1], and channels that a constructor or text does not give are zero. Component access and equality act per channel, and the binary-less order is that of the packed integer.",
 ["inputs","histories"],"all 256 values per component, all floats near every rounding boundary, all component setter sequences to depth D",
 "Off-by-one rounding affects single values out of 256; tests do not cover colours.",
 ["include/math/color.hpp","include/math/hex.hpp"],[("norm conversion with rounding","include/math/color.hpp")])
p("P02","Colour-space conversions invert each other and keep their ranges",
 "Every pair of forward and backward colour-space conversions (linear/sRGB, RGB/XYZ, XYZ/Yxy) composes to the identity within float accuracy over the whole unit cube (black has no Yxy form), transfer functions follow the sRGB standard, are monotonic and fix 0 and 1, and alpha passes through. Grey stays grey, white is the D65 white point, and luminance is the Rec. 709 weighted sum.",
 ["inputs"],"complete 3D grids of the unit cube and every 8-bit code value",
 "Piecewise thresholds and matrix coefficients need dense argument coverage.",
 ["include/math/color-space.hpp"],[("piecewise transfer functions and matrices","include/math/color-space.hpp")])
p("P03","Gamma correction is monotonic, fixes black and white and keeps alpha",
 "Gamma correction maps each colour channel to the channel raised to the inverse gamma within the stated accuracy of its fast approximation, independently of the other channels, and keeps alpha. It fixes 0 and 1, is non-decreasing in each channel over the non-negative range, stays within [0,1] for input within [0,1], and never produces NaN for finite non-negative input.",
 ["inputs"],"complete grids over many decades per channel and gamma",
 "Monotonicity is a property over all input pairs.",
 ["include/math/tone-mapping.hpp"],[("fastPow-based curve","include/math/tone-mapping.hpp fastGammaCorrection")])
p("P04","Version numbers order, print and pack as (major, minor, patch, build)",
 "For all component values, a version packs into and unpacks from its integer form without loss, and two versions compare as their (major, minor, patch, build) tuples compare lexicographically. Each text form lists the leading one to four components in order, and indexing reads and writes exactly the part it names.",
 ["inputs"],"all component tuples of a boundary alphabet, all pairs for ordering",
 "Packing overlap shows only with large minor or patch values.",
 ["include/math/version.hpp"],[("bit packing","include/math/version.hpp")])
p("P05","Hex text conversion is exact and round-trips for every width",
 "Converting an integer to hexadecimal text yields its fixed-width, most-significant-first digits, and parsing that text (either letter case) gives the same integer back, for 8, 16, 32 and 64-bit values.",
 ["inputs"],"all 8- and 16-bit values; all values with digit patterns from an alphabet for wider ones",
 "Leading zeros and high-bit values are separate cases.",
 ["include/math/hex.hpp"],[("digit table","include/math/hex.hpp")])
p("P06","Flag-set operators behave as set operations on the enumerators",
 "For every pair of flag values of every underlying width, or/and/xor/not and their compound forms act as the bitwise operation, and 'has flag' is true exactly when all bits of the flag are set in the value. 'Has one flag' is true for a value equal to the flag and false for a value with any bit outside it, logical not tests for the empty set, and adding then removing a flag restores the other bits.",
 ["inputs","histories"],"all pairs of 8-bit flag sets and boundary patterns for wider types",
 "Only multi-bit flags distinguish the queries.",
 ["include/math/flags.hpp"],[("macro-generated operators","include/math/flags.hpp")])
p("P07","A packed vector behaves as an array of small integers",
 "After any sequence of resize, set, copy, move and destroy operations, every element reads back the last value written to it (modulo its bit width), unwritten elements keep their previous values, neighbours are never disturbed, and copies are independent of their originals. Elements brought in by growing past the last storage byte read as zero, and in builds with assertions get and set stop at an index beyond the storage.",
 ["histories"],"all operation sequences up to depth D for each bit width over short arrays",
 "Bit-offset and aliasing faults need write/copy/write histories; tests never instantiate writes.",
 ["include/math/packed-vector.hpp"],[("shift and mask addressing, copy/move","include/math/packed-vector.hpp")])
p("P08","Mip level counts and sizes follow repeated halving",
 "For every non-zero size of one, two or three dimensions, the mip count is the number of halvings of the largest dimension down to one (inclusive), and the size at each level below 32 is each dimension shifted right by the level, never below one; scalar and SIMD versions agree.",
 ["inputs"],"all sizes up to 2^16, all sizes around every power of two up to 2^32, all levels",
 "Rounding of float logarithms fails only next to large powers of two.",
 [VU,SU],[("float log2/exp2 arithmetic","include/math/vector/uint.hpp calcMipCount")])
p("P09","Cube-map directions and image-based sampling cover the sphere consistently",
 "Mapping a cube face and texel to a direction gives the unit direction that graphics APIs look that texel up with, distinct texels give distinct directions, and the per-texel solid angles of a cube sum to the full sphere. Hammersley point i of n is (i/n, bit-reversed i), and every power-of-two point count is stratified in both coordinates.",
 ["inputs"],"all texels of all faces for all small cube sizes; all sample indices of all small sample counts",
 "Face orientation tables and per-texel weights need all faces and texels.",
 ["include/math/ibl.hpp","include/math/brdf.hpp"],[("face basis table, hammersley, GGX sampling","include/math/ibl.hpp, brdf.hpp")])
p("P10","Spherical harmonics are orthonormal, rotate consistently and dering to >= 0",
 "The spherical-harmonic basis functions are orthonormal for all index pairs, coefficient indexing is a bijection, rotating coefficients by a rotation equals projecting the rotated function for every rotation, and the shader form evaluates to the same function divided by pi. Windowing scales each band by its window factor, and the reported minimum never exceeds any value the function takes. Deringing irradiance coefficients scales the bands of all channels by one common window so that no channel goes negative, and blurs no more than that needs.",
 ["inputs"],"all basis index pairs and all rotations of a finite rotation group over an exact quadrature grid",
 "A sign or constant error in one of the basis terms needs that term to be isolated.",
 ["include/math/sh.hpp"],[("basis polynomials and band rotations","include/math/sh.hpp")])
p("P11","Reflectance terms stay physical",
 "The GGX distribution equals its closed form, is finite and non-negative for every positive roughness, does not fall towards the normal and integrates to one over the hemisphere. Importance samples are unit vectors on the normal's side for every roughness and sample point, with azimuth proportional to the first coordinate and the fraction of the distribution given by the second. The reflectance of an index of refraction follows Fresnel at normal incidence and is the same from either side.",
 ["inputs"],"complete grids of roughness, angles and base reflectance",
 "Monotonicity and inversion are properties over all inputs.",
 ["include/math/brdf.hpp"],[("closed-form terms","include/math/brdf.hpp")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); pass
print(len(P))
