#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["include/vecmath/" + f for f in files],
         "mechanism": [{"name": n, "where": "include/vecmath/" + w} for n, w in mech],
         "observe_at": observe or ["return values of the public functions"],
         "hook_needed": hook}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Memory safety and absence of undefined behaviour across the whole API",
  "No call of a public operation that meets its documented preconditions ever reads or writes outside the objects it was given, uses uninitialised or freed storage, or executes undefined behaviour such as signed overflow, an out-of-range conversion or a bad shift. This includes hostile but legal arguments: infinities, not-a-number, denormals, values beyond the integer range, degenerate geometry, empty and single-element ranges, and text whose view ends in the middle of a larger buffer.",
  "every call sequence of the public API with every legal argument, for every supported component type and dimension",
  "The tests sample a few finite, well scaled arguments and are not built with sanitizers; undefined behaviour that happens to give the expected answer on one compiler passes.",
  ["vec.h","mat.h","scalar.h","vec_io.h","mat_io.h","convex_hull.h","polygon.h","bbox.h","distance.h","intersection.h","quat.h","mat_ext.h","vec_ext.h","plane.h","segment.h","bezier_surface.h"],
  [("fixed-size component arrays with asserted indices","vec.h operator[]"),("range-limited truncation","scalar.h trunc"),("token copy before number conversion","vec_io.h, mat_io.h parse")],
  over=("inputs","programs"), observe=["AddressSanitizer and UndefinedBehaviorSanitizer reports and exact-size heap buffers while the workloads of every other property run"])

p("C02", "Results depend only on the arguments: thread safe and repeatable",
  "Every operation is a function of its arguments only: it leaves its inputs unchanged, and calling it again, in any order, after any other calls, or simultaneously from several threads on shared read-only values gives the bit-identical result. No operation races on hidden shared state.",
  "all interleavings of concurrent calls on shared values and all call histories",
  "The test suite is single threaded and calls each function a few times in one fixed order, so hidden mutable state (a cache, a static scratch buffer) would not be noticed.",
  ["vec.h","mat.h","mat_ext.h","scalar.h","convex_hull.h","intersection.h","distance.h","polygon.h","bbox.h","quat.h","plane.h"],
  [("value types and free functions without static mutable state","all headers"),("copies of inputs before in-place algorithms","mat_ext.h lup_find_decomposition; convex_hull.h")],
  over=("schedules","histories"), observe=["ThreadSanitizer reports; bitwise comparison of results across threads, repetitions and permuted call histories"])

p("C03", "Compile-time evaluation agrees with run-time evaluation",
  "Every operation that can be evaluated at compile time yields the same value there as at run time, and each compile-time substitute of a run-time operation (square root, length, distance, normalisation, unit-length, parallelism and betweenness tests, transformation of lines, rays and planes) agrees with it up to rounding for every argument the run-time operation accepts. Neither ever fails to terminate, and operations that can be evaluated at compile time can be so for every legal argument.",
  "every argument of every operation offered in both forms",
  "The tests evaluate a fixed handful of literals in both modes; the alternative implementations are separate code whose agreement on other inputs is not compared.",
  ["scalar.h","vec.h","plane.h","line.h","ray.h","segment.h","distance.h","intersection.h","constexpr_util.h","mat_ext.h","bbox.h","abstract_line.h"],
  [("Newton iteration square root","scalar.h sqrt_c"),("constexpr twins with suffix _c","vec.h, plane.h, ray.h, segment.h, distance.h, intersection.h"),("constexpr sort","constexpr_util.h")],
  over=("inputs","programs"), observe=["differences between twin results; a table computed by the compiler compared with the same table computed at run time"])

p("C04", "Comparison is a consistent total order and equality is exact or epsilon-bounded",
  "For vectors, segments and polygons, and for sequences of them, three-way comparison is antisymmetric, transitive and total, is lexicographic over components or vertices, ranks not-a-number consistently, and agrees with the relational and equality operators on every input. Comparison and equality with a tolerance treat component differences up to the tolerance, and no larger ones, as equal, for every geometric type that offers them.",
  "all pairs and triples of values including NaN, infinities and signed zeros, all tolerances",
  "Order axioms quantify over pairs and triples; tests compare a dozen hand-written finite pairs.",
  ["vec.h","segment.h","polygon.h","bbox.h","plane.h","line.h","ray.h","mat.h","quat.h","scalar.h"],
  [("lexicographic compare with NaN rule","vec.h compare"),("segment/polygon compare","segment.h, polygon.h"),("is_equal with epsilon","all geometric headers")])

p("C05", "Rounding, truncation and snapping of numbers",
  "Truncating, rounding, flooring, ceiling, fractional part, rounding towards or away from zero, remainder, snapping to a grid (nearest, up, down) and correcting to a number of decimals return the mathematically defined neighbour for every finite floating point number of any magnitude, are idempotent, and leave numbers that are already on the grid or integral unchanged. Applied to vectors they act on each component independently with that component's own grid.",
  "every floating point value and grid size, both precisions",
  "The interesting inputs (ties, neighbours of ties, huge and tiny magnitudes, negative values) are a vanishing fraction of the space; tests use about ten values each.",
  ["scalar.h","vec.h"],
  [("trunc/floor/ceil/round","scalar.h"),("snap, snapUp, snapDown, correct","scalar.h, vec.h")])

p("C06", "Selection, clamping, interpolation, index and angle arithmetic on numbers",
  "Minimum, maximum, their magnitude-based and not-a-number-tolerant variants, clamping, sign, step, smooth step, linear interpolation, range containment, cyclic successor and predecessor, degree/radian conversion, angle normalisation and square root return exactly the mathematically defined result for all arguments in any order and number. Normalised angles always lie in the half-open full-turn interval and differ from the input by whole turns; cyclic indices always stay in range and invert each other.",
  "every argument value, argument order, argument count and stride",
  "Tests fix a few values and argument positions; selection bugs hide in particular positions, ties, signs or NaN placements.",
  ["scalar.h","constants.h","vec.h"],
  [("variadic min/max families","scalar.h"),("normalize_radians/normalize_degrees","scalar.h"),("succ/pred","scalar.h")])

p("C07", "Polynomial solvers report exactly the real roots",
  "Solving a quadratic, cubic or quartic equation reports a count and that many finite numbers first, each of which is a root of the given polynomial up to rounding and the given tolerance, and, for a tolerance above the rounding noise of the coefficients, every distinct real root is among them; polynomials whose real roots are simple and well separated are reported with exactly as many results as real roots. Unused result slots are not-a-number.",
  "all coefficient vectors with non-zero leading coefficient and moderate conditioning, every combination of real and complex root patterns, multiplicities and signs",
  "Tests solve a few textbook equations; the branch taken depends on discriminants and on which factor carries the real roots.",
  ["scalar.h"],
  [("closed-form solvers","scalar.h solve_quadratic, solve_cubic, solve_quartic")])

p("C08", "Vectors: construction, conversion and componentwise arithmetic",
  "Constructing, converting, slicing, extending and swizzling vectors moves every component to exactly the documented position, and sums, differences, products, quotients, scaling, interpolation, minimum, maximum, absolute values, clamps and predicates act on each component independently of the others for every dimension and component type. Homogeneous conversion, axis and filled vectors, list-wise forms over collections and axis selectors have exactly the documented components, and collection forms preserve order and length.",
  "all component values, all dimensions 1 to 5, all component types, all list lengths",
  "An index slip in one component of one dimension is invisible to the few fixed vectors in the tests, which often have repeated or symmetric components.",
  ["vec.h","vec_ext.h"],
  [("component loops","vec.h operators"),("constructors, slice, overload constructors","vec.h class vec"),("collection operators","vec_ext.h")])

p("C09", "Vector products, lengths, directions, angles and component selection",
  "Dot and cross products, squared and plain length and distance, normalisation, averaging, measured angles, and colinearity, parallelism, betweenness, unit-length and zero tests satisfy their definitions: exact sums of products, right-handed orthogonal cross product, unit length and unchanged direction of normalised vectors, angles in a full turn measured counter-clockwise about the given axis. Selecting the component of a given rank by value or by magnitude, its index, its signed axis vector, or exchanging components into and out of an axis-aligned frame always returns a component with exactly that rank, and the exchange and its inverse cancel.",
  "all vectors and all ranks, including ties, zeros and sign patterns",
  "Rank selection and handedness errors show only for particular magnitude orderings and octants; tests use axis vectors and a few diagonals.",
  ["vec.h","vec_ext.h","constexpr_util.h"],
  [("dot, cross, normalize, measure_angle","vec.h"),("find_abs_max_component and friends","vec.h"),("swizzle/unswizzle","vec.h")])

p("C10", "Matrix algebra",
  "Matrices of every shape obey linear algebra: construction and element access agree on row and column order, addition, subtraction, scaling and product match their definitions, the product is associative and distributes over application to column and row vectors, and transposition reverses products. Minors, determinants, adjugates and sub-matrix extraction satisfy the Laplace expansion and the multiplicativity of the determinant, and the collection forms apply the same matrix to every element in order.",
  "all matrices of all sizes",
  "A sign or index error in one cofactor or one element of a product is invisible to sparse or symmetric test matrices; tests use one or two fixed matrices per size.",
  ["mat.h","mat_ext.h","vec_ext.h"],
  [("column major storage and product loops","mat.h"),("recursive determinant, adjugate, minor","mat_ext.h")])

p("C11", "Linear system solving and matrix inversion",
  "Inverting a matrix or solving a linear system either reports success together with a result whose residual is small, or reports failure; it reports failure for every exactly singular matrix with a zero row, a zero column or two identical rows, and succeeds for every well-conditioned matrix whose entries are not vanishingly small regardless of row order, zero diagonal entries or sign pattern.",
  "all square matrices of every size, all right-hand sides",
  "Pivoting bugs manifest only for matrices whose pivots need particular row exchanges; tests invert a few small matrices.",
  ["mat_ext.h"],
  [("LUP decomposition with partial pivoting","mat_ext.h lup_find_decomposition"),("forward and back substitution","mat_ext.h lup_solve"),("invert","mat_ext.h")])

p("C12", "Affine transformation matrices do what their name says",
  "Translation, scaling, mirroring, shearing, box-to-box scaling and shearing, strip-translation, coordinate-system and point-triple transformation matrices map every point to the geometrically defined image, keep the points they promise to keep fixed, and compose and invert accordingly. Operations that move one side or edge of a box keep the opposite side fixed and leave the other dimensions alone.",
  "all points, factors, axes, boxes, sides and deltas",
  "Tests check one matrix per function against literals; each axis/side/sign combination selects different code.",
  ["mat_ext.h","mat.h"],
  [("matrix builders","mat_ext.h"),("shear_bbox_matrix, scale_bbox_matrix_*","mat_ext.h")])

p("C13", "Projection and view matrices",
  "Perspective and orthographic matrices map the corners of the visible volume, as given by the near and far planes and the viewport, to the corners of the canonical cube, and a camera matrix maps the camera's right, up and backward directions to the x, y and z axes, for every volume and every orthonormal camera frame. Plane-projection matrices map any point to coordinates relative to the plane such that points on the plane have third coordinate zero, moving along the projection direction changes only the third coordinate by the distance moved, and in-plane distances are preserved.",
  "all field-of-view, near, far, viewport and camera-frame parameters, all planes",
  "Tests compare single matrices with literals; transposed or sign-swapped entries agree on symmetric parameters.",
  ["mat_ext.h"],
  [("perspective_matrix, ortho_matrix, view_matrix","mat_ext.h"),("plane_projection_matrix","mat_ext.h")])

p("C14", "Rotations by matrix, quaternion and Euler angles agree",
  "A rotation about an axis, built as a quaternion or as a matrix or from Euler angles, preserves lengths, angles and handedness, leaves the axis fixed and turns counter-clockwise by the requested angle; all constructions agree with each other, compose in the documented order and invert by conjugation. The rotation between two directions maps one onto the other, and extracting Euler angles from any rotation matrix and rebuilding it gives the same rotation, including at gimbal lock. Quaternions multiply with each other and with numbers as defined, and compare equal, exactly or within a tolerance, only if they denote the same rotation.",
  "all axes, angles, direction pairs (including opposite ones) and orientations",
  "Tests use axis aligned 90 degree turns; errors in one off-diagonal entry, at antiparallel directions or near gimbal lock need particular inputs.",
  ["quat.h","mat_ext.h"],
  [("quaternion constructors and product","quat.h"),("rotation_matrix builders and rotation_matrix_to_euler_angles","mat_ext.h")])

p("C15", "Bounding boxes as sets: containment, intersection, merge, constrain",
  "Boxes behave as the axis-aligned point sets they denote: containment, enclosure and overlap tests agree with the pointwise definition within their tolerance, the merge is the smallest box containing both operands, the intersection of overlapping boxes contains exactly the common points, and constraining a point gives the nearest point of the box. Every box built by public operations from valid input has its minimum not above its maximum, and incremental building from any sequence of points and boxes equals the merge of all of them in any order.",
  "all boxes and points in 1 to 3 dimensions, touching, nested, degenerate and disjoint, and all build histories",
  "Set laws quantify over pairs of boxes and points; tests take one example per relation, mostly in the first axis.",
  ["bbox.h"],
  [("min/max corners kept ordered","bbox.h class bbox"),("bbox::builder","bbox.h"),("merge, intersect, contains, encloses","bbox.h")],
  over=("inputs","histories"), state=[{"name":"min,max","meaning":"corners of the box","where":"include/vecmath/bbox.h"}])

p("C16", "Bounding box geometry: corners, faces, edges, expansion, transformation",
  "Size, centre, volume, corners, relative position, expansion, translation, and repair are exactly those of the denoted box. Enumerating vertices, edges and faces visits each exactly once with faces planar, outward oriented and lying on the box surface, and the transformed box is the smallest box containing the images of all corners.",
  "all boxes, corner selectors, deltas and transformations",
  "Enumeration order and orientation are checked once on one box; relative position and corner selectors have 27 and 8 combinations of which a few are tested.",
  ["bbox.h"],
  [("corner, for_each_face/edge/vertex","bbox.h"),("relative_position","bbox.h"),("transform_bbox","bbox.h")])

p("C17", "Planes: construction, classification, projection, transformation",
  "A plane built from an anchor and normal, from three points or from a run of points contains those points and has the documented orientation; point distance and above/below/inside status agree with the signed distance and tolerance; projecting a point or vector, perpendicularly or along a direction, lands on the plane and moves only along that direction. Evaluating a coordinate from the other coordinates yields a point of the plane, flipping twice is the identity, and transforming a plane keeps exactly the images of its points on it and the front side in front, under every invertible transformation.",
  "all planes, points, directions and invertible affine transformations",
  "Tests use axis-aligned planes and rigid transformations; sign and axis errors need oblique planes in particular octants.",
  ["plane.h"],
  [("from_points, point_distance, point_status","plane.h"),("at, at_line, xAt, yAt, zAt, project_*","plane.h"),("transform","plane.h")])

p("C18", "Lines, rays and segments: canonical form, projection, transformation",
  "Points at a distance along a line, ray or segment lie on it at that distance, the projection of a point is the closest point of the carrying line, canonical lines denote the same line and are equal for all representations of it, and ray classification relative to its origin plane matches the sign of the projected distance. A segment always stores its endpoints in order whatever order or precision they were given in, exposes the same length, direction, centre and endpoints, contains exactly the points within tolerance of it, and transforming or translating maps endpoints or direction and origin accordingly.",
  "all lines, rays, segments, points and transformations",
  "Invariants such as endpoint order under every constructor and transformation, and canonical form over every sign pattern of the direction, are sampled once or twice.",
  ["abstract_line.h","line.h","ray.h","segment.h"],
  [("endpoint ordering in constructor","segment.h"),("make_canonical","line.h"),("point_at_distance, distance_to_projected_point","abstract_line.h")])

p("C19", "Distances are the true minimum and come with matching positions",
  "The distance or squared distance between a ray or segment and a point, or between a ray and a ray, segment or line, is never larger than the distance between any two of their points and is attained at the reported positions, each of which lies within its object; parallelism is reported exactly when the directions are parallel within tolerance, and colinearity exactly when, in addition, the reported distance is at most the given maximum. Plain and squared forms agree, and degenerate segments behave as points.",
  "all pairs of rays, segments, lines and points: skew, crossing, parallel, overlapping, pointing apart, degenerate",
  "The clamping case analysis has many regions (closest point at either end or interior on each object); tests visit a few.",
  ["distance.h"],
  [("closest-approach case analysis","distance.h distance, squared_distance")])

p("C20", "Line and ray intersections with planes, triangles and polygons",
  "Intersecting a line or ray with a plane, triangle or convex or concave planar polygon returns the parameter of a point that lies on both, and returns not-a-number exactly when there is none in front of the origin (away from the tolerance zone at edges, grazing angles and the origin). The in-polygon test agrees with the even-odd definition for every simple polygon independently of winding, starting vertex, position and viewing axis; points on the boundary count as inside.",
  "all rays, planes, triangles, polygons and points away from documented tolerance zones",
  "Crossing-number code fails only when the tested point shares a coordinate with a vertex or the polygon faces particular directions; tests use squares and one or two probes.",
  ["intersection.h","plane.h"],
  [("intersect_ray_plane, intersect_ray_triangle, intersect_ray_polygon, intersect_line_plane","intersection.h"),("polygon_contains_point","intersection.h")])

p("C21", "Ray intersections with boxes, spheres and tori; intersecting planes",
  "Intersecting a ray with a box, sphere or torus returns the smallest non-negative parameter at which the ray touches the surface, and not-a-number exactly when the ray misses it, whether the origin is inside or outside (away from the tolerance zones at grazing rays, edges and origins on the surface, and for tori that are large compared with the solver's tolerance). Intersecting two planes returns a line contained in both, and parallel planes yield no line.",
  "all rays (including axis parallel ones and origins inside), boxes, spheres, tori, plane pairs",
  "Which face, root or sign is selected depends on direction octant and origin position; tests fire a few axis-aligned rays.",
  ["intersection.h","scalar.h"],
  [("intersect_ray_bbox, intersect_ray_sphere, intersect_ray_torus, intersect_plane_plane","intersection.h")])

p("C22", "Polygons keep a canonical vertex cycle",
  "A polygon always starts with its smallest vertex and keeps the cyclic order it was given, so any rotation of the same cycle, and conversion, copying, transforming, translating or inverting, yields equal canonical polygons; inverting twice is the identity. Unoriented comparison of polygons with distinct vertices is zero exactly for the same cycle in either direction, and vertices, centre, vertex queries and iteration in either direction agree with the stored cycle.",
  "all vertex cycles, rotations and transformations",
  "Rotations, reversals and transformations that move the smallest vertex are combinations; tests use one triangle and a square.",
  ["polygon.h"],
  [("rotate_min_to_front","polygon.h"),("compareUnoriented","polygon.h")],
  state=[{"name":"vertices","meaning":"canonical vertex cycle","where":"include/vecmath/polygon.h"}])

p("C23", "Convex hull of coplanar points",
  "The hull of any set of coplanar points consists of input points only, is convex and consistently wound, and contains every input point; corner points of the true hull are all reported and interior points are not. The result is independent of the order and multiplicity of the input, and fewer than three non-colinear points give an empty result.",
  "all finite coplanar point sets in every order, with duplicates and colinear runs, on any plane",
  "Order and duplicate dependence of the scan needs many permutations; the tests use a handful of small sets.",
  ["convex_hull.h"],
  [("Graham scan on a rotated copy","convex_hull.h")], over=("inputs","histories"))

p("C24", "Text input and output",
  "Parsing returns exactly the numbers written, in order, when the text has at least the needed number of components in the documented syntax, and nothing otherwise; it depends only on the given characters and never on what follows them in memory. Printing any vector, matrix, box, plane, line or ray emits its components in documented order and what is printed for vectors and matrices parses back to the same value at the stream's precision; parsing lists yields the elements in order.",
  "all texts (well-formed, truncated, with extra separators) and all values",
  "Tests parse a few literals that are terminated by a null character; truncated views and separators in unusual places are not explored.",
  ["vec_io.h","mat_io.h","bbox_io.h","plane_io.h","line_io.h","ray_io.h"],
  [("parse, parse_all","vec_io.h"),("matrix parse","mat_io.h"),("stream insertion","*_io.h")])

p("C25", "Bezier surface evaluation",
  "Evaluating a bi-quadratic Bezier surface interpolates its corner control points, stays inside the bounding box of the control points, is affine invariant and equals the tensor product of quadratic Bernstein polynomials at every parameter, with the first parameter running along the inner and the second along the outer control point index.",
  "all control grids, parameters, dimensions and component types",
  "Tests compare one flat or simple patch; swapped parameters or weights cancel on symmetric control grids.",
  ["bezier_surface.h"],
  [("evaluate_quadratic_bezier_surface","bezier_surface.h")])

p("C26", "Tolerance wrappers compare within, and only within, their tolerance",
  "Wrapping a number, vector, matrix, line or list of numbers for approximate comparison makes equality hold exactly when every component differs by at most the tolerance, symmetrically in both operand orders, with inequality its negation. For numbers, less and greater are the strict order outside the tolerance and the non-strict forms admit equality; vectors are ordered by their leading component in the same way, so a vector whose leading component is inside the tolerance is neither less nor greater.",
  "all value pairs and tolerances, both operand orders",
  "Tests compare values well inside or outside the tolerance in one operand order.",
  ["approx.h"],
  [("approx wrapper operators","approx.h")])

for x in P: print(json.dumps(x))
