#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long texts stay readable)."""
import json, os
P = []
N, T, C, X = "crates/cglinalg_numeric/src/lib.rs", "crates/cglinalg_trigonometry/src/lib.rs", "crates/cglinalg_core/src/", "crates/cglinalg_transform/src/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Safe API is free of undefined behaviour for every element type",
  "No call sequence of the safe public API (views, named-component access, slices, array/tuple casts, indexing, mapping, casting, row/column access, in-place updates, in any interleaving of shared and mutable views that the borrow checker accepts) executes undefined behaviour: no out-of-bounds or misaligned access, no read outside the memory a pointer was derived for, no aliasing violation, no invalid or uninitialised value. This includes element types for which the all-zero bit pattern is not a valid value.",
  ["inputs", "programs", "histories"], "every type (vector, point, matrix, quaternion, complex, angle triple), every dimension, every element type the API accepts, every sequence of safe calls",
  "The tests run natively, where an aliasing violation, an oversized pointer read or an invalid zeroed value usually has no visible effect, and they use only primitive numeric elements.",
  [C+"vector.rs", C+"matrix.rs", C+"point.rs", C+"quaternion.rs", C+"complex.rs", C+"coordinates.rs", C+"euler.rs"],
  [("pointer casts between the component array and coordinate views", C+"coordinates.rs, Deref impls"), ("array/tuple reference reinterpretation", C+"vector.rs AsRef/From<&..> impls"), ("element-wise builders", C+"matrix.rs map/from_rows/row/try_cast")],
  ["Miri's borrow/provenance/validity machine while the real code runs"])

p("C02", "All views of a value denote the same components in the same places",
  "Every way of reading a vector, point, matrix, quaternion or complex number (named fields, single and pair indexing, ranges, slices, pointers, nested arrays, tuples, swizzles, rows/columns, owned and borrowed conversions in both directions) yields the same components in the documented order (matrices column-major, indexed column first; quaternions scalar first), `len`, `shape` and `is_empty` describe them, and a write through any mutable view is seen through every other. Indices and ranges outside the value panic rather than touch other data.",
  ["inputs", "histories"], "every type, every dimension and shape up to 4x4, every component, every pair of views, any sequence of writes",
  "The tests compare a few views of a few fixed values; they never cross-check all pairs of views after writes, nor all swizzles and shapes.",
  [C+"vector.rs", C+"matrix.rs", C+"point.rs", C+"quaternion.rs", C+"complex.rs", C+"coordinates.rs", C+"unit.rs"],
  [("contiguous component storage plus reinterpreting views", C+"*.rs"), ("swizzle macros", C+"vector.rs")], ["return values of every accessor after each write"])

p("C03", "Vector and point arithmetic is exact componentwise arithmetic",
  "For vectors and points of every dimension and every scalar type, addition, subtraction, negation, scaling by a scalar from either side, division and remainder act on each component independently with that scalar's own arithmetic; the by-value, by-reference and assigning forms of an operation all give the same result. A point plus/minus a vector is a point and the difference of two points is the vector between them.",
  ["inputs"], "all vectors and points of dimension 1 to 4 over all integer and floating scalar types, all operand forms",
  "The tests use one or two fixed operands per operator, dimension and type, mostly the by-value form over one scalar type.",
  [C+"vector.rs", C+"point.rs"], [("operator macros over every operand form", C+"vector.rs, point.rs")], ["operator results against an independent array model"])

p("C04", "Dot, cross, triple and componentwise products obey their algebra",
  "The dot product is the symmetric bilinear sum of component products; the cross product of 3-vectors is antisymmetric, bilinear, orthogonal to both arguments and right-handed; the scalar triple product is the determinant of its arguments; componentwise products, minima, maxima, projections onto a vector and reflections about a plane are the textbook functions of the components. In-place forms agree with their value forms.",
  ["inputs"], "all operands of every supported dimension and scalar type",
  "Fixed example pairs cannot distinguish a correct formula from one that is wrong for other sign or axis combinations.",
  [C+"vector.rs", C+"point.rs", C+"matrix.rs", C+"quaternion.rs"], [("dot/cross/triple/component_mul/project/reflect/component_min/max", C+"vector.rs")], ["return values"])

p("C05", "Norms, distances and normalisation are consistent and positive",
  "For every vector, point, matrix, quaternion and complex number each norm equals the defining function of its components (Euclidean/Frobenius, sum, maximum, p-norm), distances are the norm of the difference, squared forms are their squares, and norms are non-negative, absolutely homogeneous and obey the triangle inequality. Normalising or rescaling yields a parallel value of exactly the requested length, the checked forms refuse exactly when the length does not exceed the given threshold, and a unit wrapper always holds a unit-length value.",
  ["inputs"], "all values with components in the normal floating-point range, every dimension and shape, every norm, every threshold",
  "The tests evaluate norms at a handful of integral vectors where several different norm formulas coincide.",
  [C+"normed.rs", C+"unit.rs", C+"vector.rs", C+"point.rs", C+"matrix.rs", C+"quaternion.rs", C+"complex.rs"],
  [("norm traits and implementations", C+"normed.rs"), ("unit wrapper constructors", C+"unit.rs")], ["return values"])

p("C06", "Matrix arithmetic is linear algebra for every shape",
  "For every shape up to 4x4 and every scalar type, matrix sum, difference, negation, scaling, division, remainder, componentwise product and dot product act entrywise, and matrix-matrix, matrix-vector and transposed products equal the sums of row-by-column products; transposition is the exact index swap and reverses products. By-value, by-reference and assigning forms agree.",
  ["inputs"], "all operands of all 16 shapes and all conforming product shapes, all scalar types, all operand forms",
  "There are 64 conforming product shapes; the tests sample one or two numeric examples for each and mostly a single operand form.",
  [C+"matrix.rs", C+"constraint.rs"], [("matrix operator implementations and dot_array helpers", C+"matrix.rs")], ["operator results against an independent nested-array model"])

p("C07", "Row, column, swap, diagonal and embedding operations move the right entries",
  "Constructors from rows, columns, fill or diagonal, row and column extraction, row/column/element swaps, in-place transposition, trace, diagonal extraction, the identity/zero/diagonal/symmetric predicates, and the embedding of a smaller matrix into a larger one place, move or test exactly the entries they name and leave all others untouched. Embedding pads with the identity.",
  ["inputs", "histories"], "every shape, every index (including equal and out-of-range indices), every content, any sequence of swaps",
  "The tests apply each operation to one matrix with one index pair, so a wrong row/column mapping for other indices or non-square shapes passes.",
  [C+"matrix.rs"], [("row/column/swap/identity/diagonal methods and From<MatrixMxM>", C+"matrix.rs")], ["resulting entries against an index model"])

p("C08", "Determinant and inverse are exact inverses of each other's meaning",
  "The determinant of a square matrix is the signed permutation sum of its entries (multiplicative, antisymmetric in rows, invariant under transposition), and a matrix times its computed inverse is the identity within rounding. The inverse is refused exactly when the determinant is zero (up to the library's default tolerance), and the invertibility predicate agrees with that.",
  ["inputs"], "all square matrices of order 1 to 4 over floating-point scalars, including permutation, sparse, singular and badly scaled but well-conditioned ones",
  "A handful of fixed matrices cannot exercise all 24 permutation terms and 16 cofactors with independent signs.",
  [C+"matrix.rs"], [("determinant/try_inverse/inverse/is_invertible per order", C+"matrix.rs")], ["return values"])

p("C09", "Affine matrix constructors build the map they are named after",
  "Matrices constructed as translations, uniform and nonuniform scales, shears (axis-named and general), reflections about a plane or line through any point, and rotations about axes act on every vector and homogeneous point exactly as the geometric definition says, fix what the definition says is fixed, and preserve lengths, angles, orientation or area/volume as that kind of map does. Direction and handedness follow the right-hand rule.",
  ["inputs"], "all parameters (angles, factors, axes, normals, origins) and all points, in two and three dimensions, linear and homogeneous forms",
  "Tests use axis-aligned examples at one angle or factor, where sign, transposition and origin errors cancel.",
  [C+"matrix.rs"], [("from_translation/from_scale/from_nonuniform_scale/from_shear*/from_reflection/from_angle*/from_axis_angle", C+"matrix.rs")], ["action on points, vectors and the defining geometric relations"])

p("C10", "Look-at and look-to frames are rigid and oriented as named",
  "Every look-at/look-to constructor (matrix, quaternion, rotation, isometry, similarity; left- and right-handed; forward and inverse) yields a proper rotation that carries the viewing direction to the named z-direction (or back) and keeps the up vector in the upper half of the yz-plane; the affine forms carry the eye to the origin. The inverse form undoes the forward form.",
  ["inputs"], "all eye positions, targets, directions and up vectors that are not parallel to the viewing direction",
  "Tests fix a few directions and eyes, often with the eye on the viewing axis, where translation and handedness errors vanish.",
  [C+"matrix.rs", C+"quaternion.rs", X+"rotation.rs", X+"isometry.rs", X+"similarity.rs"], [("look_to_*/look_at_* constructors", C+"matrix.rs, quaternion.rs, "+X+"*.rs")], ["images of eye, direction and up vector"])

p("C11", "Projection matrices map the frustum or box onto the clip cube",
  "Orthographic and perspective matrices, in every parameterisation, map each point of the viewing volume to clip coordinates whose divided values are the affine (orthographic) or depth-hyperbolic (perspective) interpolation sending the eight corners of the volume to the corners of the [-1,1] cube; field-of-view parameterisations equal the equivalent box/frustum ones.",
  ["inputs"], "all valid frustum/box parameters including asymmetric ones, all field-of-view angles and aspect ratios, all points",
  "Tests compare against literal matrices for symmetric frusta, where off-centre terms are zero.",
  [C+"matrix.rs"], [("from_orthographic*/from_perspective*", C+"matrix.rs")], ["images of corners and interior points"])

p("C12", "Complex numbers form the field their operators claim",
  "Complex addition, subtraction, multiplication and division, mixed complex/real operators, negation, conjugation, squaring, reciprocal, modulus and inverse satisfy the field laws and equal the textbook formulas in the components, and all operand forms agree. Inversion is refused exactly when the modulus vanishes (up to the library's default tolerance).",
  ["inputs"], "all complex operands (integer-exact and general floating values, every quadrant, purely real/imaginary, zero divisors) and all operand forms",
  "Tests multiply and divide a few fixed pairs, so sign errors confined to another quadrant or operand form survive.",
  [C+"complex.rs"], [("operator implementations", C+"complex.rs")], ["operator results against an independent model"])

p("C13", "Complex elementary functions satisfy their defining identities",
  "Complex exponential, logarithm, roots, real/integer/complex powers and the circular and hyperbolic functions with their inverses equal the analytic functions on their principal branches: exp inverts ln, squared roots and cubed cube roots return the argument, n-th powers equal n-fold products for every integer n, inverse functions are right inverses, and polar and Cartesian forms round-trip. Arguments lie in (-pi, pi]; on a branch cut either one-sided value is acceptable.",
  ["inputs"], "all finite complex arguments in every quadrant with moderate modulus (away from overflow), all integer exponents of moderate size, all real exponents",
  "Tests tabulate a few points; a wrong branch, quadrant or exponent parity elsewhere is invisible.",
  [C+"complex.rs"], [("exp/ln/sqrt/cbrt/powi/powf/powc/sin.../atanh", C+"complex.rs")], ["return values against independent formulas and identities"])

p("C14", "Quaternions form a division ring with multiplicative norm",
  "Quaternion addition, scaling and the Hamilton product satisfy the division-ring laws with i*i=j*j=k*k=i*j*k=-1 and scalar-first component order; conjugation reverses products, the norm is multiplicative, the inverse is a two-sided inverse refused exactly when the norm is zero (up to the library's default tolerance), and left/right division, commutator-like and projection operations equal their definitions. All operand forms agree.",
  ["inputs"], "all quaternion operands (integer-exact and floating, pure, scalar, unit and non-unit) and all operand forms",
  "Tests check the basis products and a few values; non-commutative sign errors at other components survive.",
  [C+"quaternion.rs"], [("operator implementations and algebraic methods", C+"quaternion.rs")], ["operator results against an independent model"])

p("C15", "Quaternion elementary functions satisfy their defining identities",
  "Quaternion exponential, logarithm, powers, roots and the circular and hyperbolic functions extend the corresponding complex functions along the direction of the vector part: exp inverts ln, squared roots return the argument, integer powers equal repeated products, and on quaternions in any complex plane they agree with the complex functions (on negative reals and branch cuts the documented or either one-sided value).",
  ["inputs"], "all quaternions of moderate norm, including zero and tiny vector parts and negative scalar parts",
  "Tests tabulate values at basis quaternions, where direction and sign errors of the vector part cancel.",
  [C+"quaternion.rs"], [("exp/ln/powf/sqrt/sin/.../atanh", C+"quaternion.rs")], ["return values against complex reference functions"])

p("C16", "Rotation representations describe the same rotation",
  "Axis-angle, rotation matrix, unit quaternion, Euler-angle and unit-complex representations built from the same parameters rotate every vector identically, conversions between them round-trip to the same rotation (also at and near gimbal lock, at zero and at half turns; a rotation axis may be reported absent at those), and every produced matrix is orthogonal with determinant one. Composition of representations is composition of rotations.",
  ["inputs"], "all axes and angles (including 0, +-pi/2, pi, tiny angles and multiples of full turns), all Euler triples",
  "Tests convert a few angles around coordinate axes; they do not reach near-singular angles or general axes.",
  [C+"quaternion.rs", C+"matrix.rs", C+"euler.rs", C+"matrix_euler.rs", C+"complex.rs", X+"rotation.rs"], [("from_axis_angle/from_matrix/to_matrix/From<Euler>", C+"*.rs")], ["images of vectors; orthogonality of matrices; recovered parameters"])

p("C17", "Rotation-between maps one direction onto the other, by the shorter arc",
  "For any two non-zero vectors or unit directions in two or three dimensions, the rotation-between constructors of every representation yield a finite proper rotation carrying the first direction onto the second through the angle between them, including identical, nearly identical, perpendicular and (where a result is returned) opposite directions. Checked forms refuse only when the rotation is not determined by the directions, where vectors within the default tolerance of zero length count as zero.",
  ["inputs"], "all pairs of directions, including rounding-level close ones and clockwise as well as counter-clockwise pairs",
  "Tests use a few well-separated counter-clockwise pairs, so rounding-induced NaNs and orientation errors are not reached.",
  [C+"matrix.rs", C+"quaternion.rs", C+"complex.rs", X+"rotation.rs", X+"isometry.rs", X+"similarity.rs"], [("rotation_between/rotation_between_axis", C+"*.rs, "+X+"*.rs")], ["image of the first direction; orthogonality"])

p("C18", "Interpolation hits its endpoints and stays on its geodesic",
  "Linear interpolation of vectors, matrices and quaternions is the affine combination of its endpoints for every parameter value; normalised and spherical interpolation of rotations return unit values that equal the endpoints (as rotations) at 0 and 1, lie in the plane of the endpoints and, for the spherical form, advance along the shorter arc by an angle proportional to the parameter.",
  ["inputs"], "all endpoint pairs (near, far, nearly parallel, beyond a right angle) and all parameters in [0,1]",
  "Tests interpolate at the midpoint of one pair.",
  [C+"vector.rs", C+"matrix.rs", C+"quaternion.rs", X+"rotation.rs"], [("lerp/nlerp/slerp", C+"*.rs")], ["interpolated values"])

p("C19", "Angles: units, normalisation and trigonometry agree",
  "Degree and radian angles of the same size are interchangeable: conversions round-trip, arithmetic is that of the underlying number in every operand form, trigonometric functions of either unit equal the scalar functions, and inverse functions return angles on the principal branch. Normalised angles lie in one full turn ([0, turn] or [-turn/2, turn/2] up to rounding) and denote the same direction as the original; fractions of a turn, opposites and bisectors are the named angles.",
  ["inputs"], "all finite angles of moderate size, positive and negative, both units, both precisions",
  "Tests normalise a few angles and compare trigonometric values at one angle.",
  [T], [("Angle trait default methods and Radians/Degrees implementations", T)], ["return values"])

p("C20", "Scalar abstraction equals the primitive it wraps",
  "For each scalar type the numeric traits return exactly what the primitive type's own operation returns (sign predicates, absolute value, sign transfer, min/max/clamp, bounds, rounding, roots, exponentials, trigonometry, classification, constants), and casts between scalar types preserve the value when representable, truncate fractions toward zero, and refuse otherwise.",
  ["inputs"], "all values of every scalar type (boundaries, signed zeros, subnormals, infinities, NaN) and all ordered pairs of the 14 numeric types for casts",
  "There are no direct tests for most trait methods, and the cast matrix has 196 ordered pairs.",
  [N], [("trait implementations generated by macro per scalar type", N)], ["return values against the primitive's inherent functions"])

p("C21", "Approximate comparison is the conjunction of component comparisons",
  "Absolute, relative and ULP comparisons of composite values (vectors, points, matrices, quaternions, complex numbers, angles, units, Euler angles, rotations and all transformations) hold exactly when the corresponding scalar comparison holds for every component with that component's tolerance; they are reflexive for finite values, symmetric, monotone in the tolerance, sensitive to a change in any single component, and false when any component is NaN. The difference and tolerance reports that the assertion forms print show each component's own difference and tolerance.",
  ["inputs"], "every composite type, every component position, all tolerances, pairs differing in any subset of components",
  "The tests use these comparisons as their own oracle and hardly test them; a comparison that ignored one component would silently weaken every other test.",
  [C+"vector.rs", C+"point.rs", C+"matrix.rs", C+"quaternion.rs", C+"complex.rs", C+"euler.rs", C+"unit.rs", T, X+"*.rs"], [("approx_cmp trait implementations per type", C+"*.rs, "+X+"*.rs")], ["comparison results against the scalar comparison per component"])

p("C22", "Dimension arithmetic at the type level is exact",
  "Whenever the type-level sum, difference or product of two dimensions is defined, its value is the arithmetic sum, difference or product of those dimensions, and each is defined for all dimensions 1 to 4 for which the result is not negative. Differences that would be negative are never defined.",
  ["configurations", "programs"], "all ordered pairs of dimensions from 0 to 12",
  "The existing tests evaluate M+N==K with K supplied by the test for a list of positive instances; nothing asks about pairs that are not listed or must not exist.",
  [C+"constraint.rs"], [("DimAdd/DimSub/DimMul implementations", C+"constraint.rs")], ["the set of relations that hold, and the value of each resulting dimension"])

p("C23", "Dimension ordering and equality relations are exact",
  "The type-level 'less than' relation holds for two dimensions only if the first is strictly smaller, and for all such pairs within 0 to 4; the equality relation holds exactly between identical dimensions and its representative is that dimension. Both are therefore irreflexive/reflexive, antisymmetric and transitive as orders and equalities are.",
  ["configurations", "programs"], "all ordered pairs of dimensions from 0 to 12",
  "The existing tests only instantiate relations that hold; a relation that wrongly holds still compiles.",
  [C+"constraint.rs"], [("DimLt/DimEq implementations", C+"constraint.rs")], ["the set of relations that hold"])

p("C24", "Shape constraints admit exactly the conforming operations",
  "Matrix multiplication is admitted exactly when the inner dimensions agree, transposed multiplication exactly when the row counts agree, extension exactly from N to N+1 and contraction exactly from N to N-1; the same is true of the operators and methods of the public types that are guarded by these constraints. The result of an admitted product has the outer dimensions.",
  ["configurations", "programs"], "all 4-tuples of dimensions from 0 to 5 for products, all pairs from 0 to 9 for extension/contraction, all operand shapes up to 4x4 of the public types",
  "Tests can only contain programs that compile; whether a non-conforming program is wrongly accepted is never asked.",
  [C+"constraint.rs", C+"matrix.rs", C+"vector.rs", C+"point.rs"], [("CanMultiply/CanTransposeMultiply/CanExtend/CanContract", C+"constraint.rs"), ("where-clauses of operators and methods", C+"matrix.rs")], ["the set of admitted shape tuples; result shapes"])

p("C25", "Every transformation acts as its homogeneous matrix",
  "For every transformation type (translation, rotation, scale, shear, reflection, isometry, similarity, general transform) and every parameter choice, applying it to a point equals multiplying the point's homogeneous coordinates by its affine matrix and applying it to a vector equals using the linear part only; the operator forms agree with the methods, and a transformation's parameters can be read back as given. Each type performs the geometric map it is named after.",
  ["inputs"], "all parameters, points and vectors in two and three dimensions",
  "Tests apply each transformation to one or two points with simple parameters.",
  [X+"translation.rs", X+"rotation.rs", X+"scale.rs", X+"shear.rs", X+"reflection.rs", X+"isometry.rs", X+"similarity.rs", X+"transform.rs"], [("apply_point/apply_vector/to_affine_matrix per type", X+"*.rs")], ["images of points and vectors, and the affine matrices"])

p("C26", "Transformation inverses and compositions obey the group laws",
  "For every transformation type the identity fixes everything, composing then applying equals applying one after the other, inverses (value, in-place, checked and inverse-apply forms) undo the transformation on both sides, and mixed compositions between different transformation types equal the product of their matrices. Non-invertible transformations are refused by the checked inverse and by nothing else.",
  ["inputs", "histories"], "all transformations, all pairs/chains of compositions of like and mixed types, points and vectors in two and three dimensions",
  "Tests compose a few commuting or axis-aligned transformations, where a wrong order of composition is invisible.",
  [X+"translation.rs", X+"rotation.rs", X+"scale.rs", X+"shear.rs", X+"reflection.rs", X+"isometry.rs", X+"isometry_ops.rs", X+"similarity.rs", X+"transform.rs"], [("Mul implementations, inverse/try_inverse/inverse_apply", X+"*.rs")], ["images of points and vectors through composed transformations; product matrices"])

p("C27", "Perspective and orthographic projections project and unproject faithfully",
  "A perspective or orthographic projection maps points as its matrix does, unprojection inverts projection for every point inside or outside the viewing volume with non-zero depth, and every parameter accessor (near, far, left, right, bottom, top, field of view, aspect) returns what the projection was built with, for all parameterisations including asymmetric volumes and wide fields of view.",
  ["inputs"], "all valid projection parameters and all points with non-zero depth",
  "Tests use symmetric frusta and narrow fields of view.",
  [X+"projection.rs"], [("project_point/unproject_point/accessors", X+"projection.rs")], ["projected and unprojected points; accessor values"])

p("C28", "Whole-value operations visit every component exactly once",
  "Mapping, casting between scalar types, equality, hashing, default/zero/identity values and their predicates, finiteness tests, display text and filling constructors treat every component of vectors, points, matrices, quaternions, complex numbers, angles and transformations alike: each result component depends on the matching input component only, a cast refuses exactly when some component cannot be cast, equality and finiteness are the conjunction over components, and equal values hash equally.",
  ["inputs"], "every composite type, dimension and shape; every component position perturbed alone",
  "Tests check one aggregate value; a component that is skipped or visited twice goes unnoticed unless that component is the one that differs.",
  [C+"vector.rs", C+"point.rs", C+"matrix.rs", C+"quaternion.rs", C+"complex.rs", C+"euler.rs", T, X+"*.rs"], [("map/try_cast/PartialEq/Hash/is_finite/Default/Display", C+"*.rs")], ["return values with a single component perturbed"])

p("C29", "Homogeneous coordinates, extension and contraction round-trip",
  "Extending a vector or point appends the given component, contracting drops the last one, and homogeneous conversion appends one for points and zero for vectors; converting back divides by the last coordinate and returns nothing exactly when the conversion is undefined (zero weight for points, non-zero weight for vectors). Conversions between points and vectors and between all tuple/array forms preserve the components.",
  ["inputs"], "all dimensions for which the conversions exist and all components and weights",
  "Tests convert a few values with weight 0, 1 or 2.",
  [C+"vector.rs", C+"point.rs"], [("extend/contract/to_homogeneous/from_homogeneous/to_vector/from_vector", C+"vector.rs, point.rs")], ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
