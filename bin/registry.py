#!/usr/bin/env python3
"""The list of properties. Running this writes properties.jsonl and MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/lsst/sphgeom/"
H = lambda *n: [INC + x + ".h" for x in n]
S = lambda *n: ["src/" + x + ".cc" for x in n]

ENGINE = ("property-based testing (own engine: recorded choice tapes, shrinking on the tape, forked workers), plain -O2 build and "
          "ASan+UBSan build")

P = []


def prop(id, title, statement, over, text, why, files, mech, oracle, note, technique=ENGINE, cmd=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  oracle=oracle, note=note, technique=technique, cmd=cmd, na=na))


prop("C01", "Orientation tests return the sign of the exact determinant",
     "For any three vectors, the exact orientation test returns the sign of the exact real value of the scalar triple product of their "
     "components, with no rounding error whatever their magnitudes. The unit-vector test (general and axis-specialised) returns that same "
     "sign, and all of them are antisymmetric under exchange of two arguments and invariant under cyclic permutation.",
     ["inputs"], "every triple of finite vectors, in particular coplanar, nearly coplanar, coincident, antipodal, tiny (subnormal), "
     "huge and axis-aligned ones",
     "The tests try a few dozen hand-picked triples; the sign must be right on a measure-zero set of triples within rounding of coplanar.",
     H("orientation", "BigInteger") + S("orientation", "BigInteger"),
     [("exact evaluation with big integers", "src/orientation.cc:orientationExact"), ("error-bounded filter", "src/orientation.cc:orientation"),
      ("axis-specialised tests", "src/orientation.cc:orientationX/Y/Z")],
     "an independent exact determinant sign (128-bit mantissa products accumulated in wide integers / long-exponent rationals)",
     "Random search against an exact oracle; triples are built to be within a few ulps of coplanar.")

prop("C02", "Big integer arithmetic is exact within its capacity",
     "Starting from any values, additions, subtractions, negations, products, power-of-two products and assignments of big integers give the "
     "exact mathematical result whenever it fits in the caller's storage, also when an operand is the destination. An operation whose result does not "
     "fit is rejected with an exception rather than writing past the storage, and the sign always agrees with the value.",
     ["inputs", "histories"], "every sequence of operations on values of up to the declared number of digits",
     "The tests check a dozen literal values; carries, cancellation of leading digits and in-place operation depend on operand values and history.",
     H("BigInteger") + S("BigInteger"),
     [("digit arrays with explicit sign and size", "src/BigInteger.cc"), ("capacity checks", "include/lsst/sphgeom/BigInteger.h:_checkCapacity")],
     "a reference big integer in the harness, compared after every step of a generated history",
     "Model-based histories; storage bounded to a few hundred digits.")

prop("C03", "Range sets represent the set their history of operations defines",
     "After any sequence of insertions, erasures, fills, clears, set operations (intersection, union, difference, symmetric difference, complement), "
     "scaling and simplification, a range set of 64-bit unsigned integers contains exactly the integers the same operations on mathematical sets would give, "
     "including at 0 and 2^64-1 and across wrap-around ranges. Its ranges are always sorted, disjoint and non-adjacent. Simplification by n yields a superset "
     "made of 2^n-aligned blocks each of which meets the original set.",
     ["histories", "inputs"], "every sequence of operations on every start value, with boundaries at 0, 2^63, 2^64-1 and adjacent, nested, equal or overlapping ranges",
     "Tests run a few sequences with small integers; the boundaries are maintained incrementally, so their validity depends on the history.",
     H("RangeSet") + S("RangeSet"),
     [("sorted boundary vector with implicit 0 at both ends", "src/RangeSet.cc"), ("insert/erase", "src/RangeSet.cc:_insert,_erase"),
      ("set algebra", "src/RangeSet.cc:_intersect,_join")],
     "a reference set of intervals over 65-bit integers, stepped alongside",
     "Stateful model-based testing of histories of up to 40 operations on several sets at once.")

prop("C04", "Range set queries and iterators agree with the represented set",
     "For every range set and every range, membership (is within, contains, intersects, is disjoint from), size, maximum range count, equality, "
     "begin/end ranges, and forward, backward and random-access iteration in the set and in its complement all agree with the mathematical set represented. "
     "Iterator arithmetic, differences and comparisons satisfy the random-access iterator laws.",
     ["inputs", "histories"], "every range set, every query range (including empty, full and wrapping ones) and every pair of iterators",
     "The tests query small hand-made sets; wrap-around, full and boundary cases are a product of set shape and query.",
     H("RangeSet") + S("RangeSet"),
     [("queries", "src/RangeSet.cc:intersects,contains,isWithin,cardinality"), ("iterator", "include/lsst/sphgeom/RangeSet.h:Iterator")],
     "the reference interval set", "Random search over generated sets and queries.")

prop("C05", "Linear intervals and 3-d boxes obey set algebra",
     "For closed intervals of numbers or angles and for axis-aligned 3-d boxes, membership, relationship codes, clipping, expansion, dilation and erosion agree "
     "with the sets of points they denote: clipping gives the intersection, expansion the smallest enclosing interval or box, and relationship bits hold exactly when the set relation does. "
     "The empty set, single points, full (infinite) sets and NaN bounds are treated consistently by every operation.",
     ["inputs"], "every pair of intervals or boxes, including empty, degenerate, infinite and NaN-bounded ones, and every point",
     "Tests cover a fixed handful of intervals; the relations are case analyses over bound orderings and emptiness.",
     H("Interval", "Interval1d", "AngleInterval", "Box3d", "Angle") + S("Interval1d", "AngleInterval", "Box3d"),
     [("interval algebra", "include/lsst/sphgeom/Interval.h"), ("box algebra", "src/Box3d.cc")],
     "set semantics evaluated pointwise on all bounds, their neighbours and points between", "Random search over bound configurations.")

prop("C06", "Wrapped longitude intervals obey set algebra on the circle",
     "For closed arcs of the circle given by two normalized angles (wrapping through zero when the first exceeds the second), membership, relationship codes, "
     "centre, size, clipping, expansion, dilation and erosion agree with the sets of angles they denote, including empty, full, single-point and wrapping arcs. "
     "Clipping gives an arc that contains the intersection and lies in the smaller-or-equal operand, expansion gives the smallest arc containing both operands, and relations of swapped operands mirror each other.",
     ["inputs"], "every pair of arcs and every angle, including coincident, complementary, abutting and full arcs",
     "Tests use a few arcs; there are 16 wrap/empty/full orderings per binary operation.",
     H("NormalizedAngleInterval", "NormalizedAngle", "Interval") + S("NormalizedAngleInterval", "NormalizedAngle"),
     [("wrap-aware algebra", "src/NormalizedAngleInterval.cc")],
     "pointwise set semantics on the circle sampled at all bounds, neighbouring doubles and arc midpoints", "Random search over bound configurations.")

prop("C07", "Angles and spherical coordinates convert accurately",
     "Angle arithmetic, comparison and unit conversion behave as real arithmetic to rounding; normalization yields an equivalent angle in [0, 2 pi]. Longitude/latitude points accept "
     "exactly the latitudes in [-pi/2, pi/2] and NaN, and conversion between vectors of any length and coordinates, and angular separations between points, are accurate to rounding (and to the rounding an arc sine amplifies, MAX_ASIN_ERROR, between near-antipodal coordinates), also at the poles and for tiny separations.",
     ["inputs"], "every finite angle, every vector and every pair of points, including poles, coincident and antipodal pairs",
     "Tests sample few points; cancellation errors show only near special configurations.",
     H("Angle", "NormalizedAngle", "LonLat") + S("Angle", "NormalizedAngle", "LonLat"),
     [("normalization", "include/lsst/sphgeom/NormalizedAngle.h"), ("separation", "src/NormalizedAngle.cc:NormalizedAngle(LonLat,LonLat)"), ("conversion", "src/LonLat.cc")],
     "64-bit-mantissa (long double) reference evaluation with error bounds", "Random search with extended-precision references.")

prop("C08", "Vector operations are accurate and unit vectors stay unit",
     "Sums, dot and cross products, norms, normalization, rotation about an axis and matrix products/inverses agree with real arithmetic to rounding. Every operation that yields a unit vector (from coordinates, "
     "from longitude/latitude, normalized, orthogonal, north, rotation) yields norm 1 to within rounding for all non-zero inputs (those that multiply components: whose products are representable), and the stated geometric relation (orthogonality, handedness; twice the cross product for the robust one) holds to rounding; the zero vector is rejected.",
     ["inputs"], "every vector (tiny, huge, nearly parallel and antiparallel pairs), axis, angle and matrix",
     "Tests use exact axis-aligned data; overflow, underflow and cancellation need extreme or nearly parallel arguments.",
     H("Vector3d", "UnitVector3d", "Matrix3d") + S("Vector3d", "UnitVector3d", "Matrix3d"),
     [("scaled normalization", "src/Vector3d.cc:normalize"), ("robust cross product", "src/UnitVector3d.cc, Vector3d.cc"), ("rotation", "src/Vector3d.cc:rotatedAround")],
     "extended-precision references with error bounds", "Random search with extended-precision references.")

prop("C09", "Geometric utility functions match their definitions",
     "The squared chord length between a point and the nearest or furthest point of a great circle, when that lies inside an arc of it, the smallest and largest separation from a parallel of latitude, the area-weighted centroid of a "
     "spherical triangle and the centroid of a polygon, the half-width of a circle in longitude, and conversions between opening angle and squared chord length agree with their geometric definitions to rounding, for every arc length, point position and latitude.",
     ["inputs"], "all points, arcs (short, long, degenerate), widths and latitudes including the poles",
     "Tests do not call most of these directly; special positions (point above an end, over the pole) matter.",
     H("utils") + S("utils"),
     [("minimum/maximum squared chord length", "src/utils.cc:getMinSquaredChordLength,getMaxSquaredChordLength"), ("getMinAngleToCircle", "src/utils.cc"), ("getWeightedCentroid", "src/utils.cc")],
     "extended-precision closed forms, sampling of the arc, and numerical integration", "Random search with extended-precision references and quadrature.")

prop("C10", "Point membership is geometrically right for every region type",
     "A longitude-latitude box, circle, ellipse, convex polygon, union or intersection contains a point of the sphere exactly when the geometric definition says so, except for points within rounding error (a few 1e-15 rad, scaled by "
     "conditioning) of its boundary. All calling forms (unit vector, longitude/latitude, components) agree; the empty region contains nothing and the full region everything.",
     ["inputs"], "every region of every type and size (sub-arcsecond to nearly full) and every point, in particular near boundaries, poles, antipodes and the longitude seam",
     "Tests check a few interior and exterior points; errors appear for tiny, huge, pole- or seam-touching regions and near-boundary points.",
     H("Region", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion") + S("Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion", "Region"),
     [("Region::contains overloads", "include/lsst/sphgeom/Region.h"), ("Ellipse quadratic form", "src/Ellipse.cc:contains"), ("polygon edge orientation", "src/ConvexPolygonImpl.h:contains")],
     "an independent extended-precision definition of each region type with a tolerance band at its boundary", "Random search; the tolerance band near boundaries is not decided.")

prop("C11", "Spatial relationship answers are never wrong",
     "Whenever one region is reported disjoint from, within or containing another, every pair of points that would contradict it is absent: no point of the sphere belongs to both disjoint regions, or to the contained but not the containing one. "
     "The same holds for the region-overlap query: it returns false only for regions without a common point, and true only for regions with one, and unknown otherwise. This holds for all ordered pairs of region types, including compound ones.",
     ["inputs"], "every ordered pair of regions of all types, in particular touching, nested, concentric, complementary, empty and full ones",
     "Tests cover a few pairs per type; a wrong code needs a specific alignment of boundaries, poles or seams.",
     H("Region", "Relationship", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion") + S("Region", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion") + ["src/ConvexPolygonImpl.h"],
     [("double dispatch relate()", "src/*.cc:relate"), ("overlaps", "src/Region.cc, src/*.cc:overlaps")],
     "witness points (extremes along many directions, vertices, random, boundary-displaced) classified by the regions themselves and by the reference", "Random search for a contradicting witness point.")

prop("C12", "Relationships are mutually consistent and decisive",
     "Relating A to B and B to A gives mirrored answers (contains and within exchanged) for simple regions, a region is related to itself and to the empty and full regions as sets are, and a compound answer follows from its parts. "
     "When regions are clearly disjoint, clearly nested or clearly crossing, separated by much more than rounding error, the type pairs that are documented to decide such cases report it.",
     ["inputs"], "every pair of regions of all types with a clear gap or overlap, and every self or trivial pair",
     "Tests check few configurations; an always-\"unknown\" answer or an asymmetric one passes unless that pair is sampled.",
     H("Region", "Relationship", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion") + S("Region", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion"),
     [("invert()", "include/lsst/sphgeom/Relationship.h"), ("decisive relate()", "src/Circle.cc, src/Box.cc, src/ConvexPolygonImpl.h")],
     "metamorphic relations plus constructed pairs with a known relation and margin", "Random search; only separated configurations are decided.")

prop("C13", "Bounding shapes contain the region and fit it",
     "The bounding longitude-latitude box, the 3-d bounding box and the bounding circle of every region of every type contain every point of the region. For simple regions the bounds that have closed forms are also tight: "
     "each side is touched by the region to within rounding. Bounds of an empty region are empty and bounds of the full region are full.",
     ["inputs"], "every region, in particular those touching poles, the longitude seam, coordinate axes, hemispheres and nearly full ones",
     "Tests check few regions; an extremum in the middle of an edge, or at a pole, occurs only in particular placements.",
     H("Region", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion", "Box3d") + S("Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion") + ["src/ConvexPolygonImpl.h"],
     [("bounding computations", "src/*.cc:getBoundingBox,getBoundingBox3d,getBoundingCircle")],
     "extreme and random points of the region from the reference, plus closed-form extents", "Random search; tightness only where a closed form exists.")

prop("C15", "Circle and box set operations give the documented regions",
     "Clipping a circle or box with a point or another region of its type gives a region that contains the common points and lies in an operand; expanding gives a region containing both operands that is no larger than necessary; complementing a circle exchanges inside and outside. "
     "Dilating (eroding) by an angle gives the points within that angle of the region (of points whose neighbourhood lies in it), is undone by the opposite operation where no clamping occurs, and leaves empty and full regions unchanged; box width/height dilation acts per coordinate.",
     ["inputs", "histories"], "every sequence of such operations on circles and boxes, including tiny, hemispheric, nearly full, polar and seam-crossing ones",
     "Tests exercise one or two values per operation; clamping, poles and nearly-full circles need special values.",
     H("Circle", "Box") + S("Circle", "Box"),
     [("circle ops", "src/Circle.cc:clipTo,expandTo,dilateBy,complement"), ("box ops", "src/Box.cc:dilateBy,clipTo,expandTo")],
     "membership of witness points and quad-precision angular arithmetic", "Random search.")

prop("C16", "Ellipses honour their defining foci, axes and orientation",
     "An ellipse built from two foci and a semi-axis angle is the set of points whose angular distances to the foci sum to at most twice that angle; one built from centre, two semi-axes and an orientation has that centre, those semi-axes and that orientation. "
     "Accessors (foci, centre, axes, gap, transform) are mutually consistent, invalid parameters are rejected, degenerate and complementary (greater than a hemisphere) ellipses are included.",
     ["inputs"], "every pair of foci and every angle, every centre, axes and orientation from 1e-9 rad to pi",
     "Tests try a few ellipses of moderate size; precision is lost for tiny, nearly circular or nearly hemispheric ones.",
     H("Ellipse", "Matrix3d") + S("Ellipse"),
     [("constructors", "src/Ellipse.cc:Ellipse"), ("accessors", "include/lsst/sphgeom/Ellipse.h")],
     "quad-precision evaluation of the definition", "Random search with quad-precision references.")

prop("C17", "Convex hulls are valid, minimal and order independent",
     "Given points in a hemisphere, the polygon built from them contains every input point, uses only input points as vertices, lists them counter-clockwise in strictly convex position, and does not depend on the order or duplication of the inputs. "
     "Inputs without a proper hull (fewer than three distinct non-collinear points, or not in any open hemisphere) are rejected with an exception.",
     ["inputs"], "every list of points: clustered, duplicated, shuffled, nearly collinear, tiny, nearly hemispheric or antipodal",
     "Tests check a few triangles and one cloud; the incremental hull's result depends on order and degeneracy.",
     H("ConvexPolygon", "orientation") + S("ConvexPolygon", "orientation"),
     [("incremental hull", "src/ConvexPolygon.cc:computeHull,findPlane")],
     "an O(n^4)/O(n^2) exact-orientation hull in the harness and permutation metamorphics", "Random search; points that are exactly collinear on a hull edge are outside (documented limitation in the source).")

prop("C18", "Serialised regions decode to identical regions",
     "Encoding any region of any type, including arbitrarily nested unions and intersections, and decoding the bytes gives an equal region of the same type with bit-identical parameters (empty longitude intervals may come back in their canonical form), whose answers are identical, through both the type's own and the generic decoder. "
     "Encoding is deterministic, its size is the documented one, and the byte layout (type code, little-endian words) does not depend on the host build.",
     ["inputs"], "every region of every type, including empty, full, NaN-bounded and nested compound ones",
     "Tests round-trip a few regions each; bit-exactness must hold for every parameter value.",
     H("Region", "codec", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion") + S("Region", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion"),
     [("codec", "include/lsst/sphgeom/codec.h"), ("encode/decode", "src/*.cc:encode,decode")],
     "round trip, an independent byte-level parser, and a portable-codec variant build", "Random search.")

prop("C19", "Decoding arbitrary bytes is safe and rejects malformed data",
     "Given any sequence of bytes, every decoder either returns a valid region of the type asked for or throws an exception: it never reads outside the buffer, never returns null, loops or exhausts the stack on short input, and never accepts a buffer of the wrong size or type code. "
     "What it accepts re-encodes to the same number of bytes and, if all its numbers are finite, can be used without undefined behaviour.",
     ["inputs", "fault_sequences"], "every byte string: random, truncated, extended, bit-flipped and length-tampered encodings, and nested compounds",
     "Tests try two malformed buffers; the space is all byte strings.",
     H("codec", "Region") + S("Region", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion"),
     [("decode", "src/Region.cc:Region::decode"), ("compound decode", "src/CompoundRegion.cc:_decode"), ("polygon decode", "src/ConvexPolygon.cc:decode")],
     "AddressSanitizer/UBSan with exact-size heap buffers, acceptance predicate on size/type, re-encode", "Structured mutation fuzzing of valid encodings plus random bytes.")

prop("C20", "Copies and clones are equal, independent, and equality is an equivalence",
     "Cloning, copying, moving, assigning and re-reading operands of regions yields equal objects with identical answers that do not change when the original is modified or destroyed. "
     "Equality is reflexive (also for empty regions), symmetric and transitive, distinguishes regions that differ in a parameter, and agrees with inequality.",
     ["inputs", "histories"], "every region and every sequence of copy, assignment, mutation and destruction",
     "Tests compare a few pairs; aliasing of owned sub-regions shows only after particular histories.",
     H("Region", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion") + S("Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion", "Region"),
     [("clone and copy", "include/lsst/sphgeom/*.h:clone"), ("compound ownership", "src/CompoundRegion.cc"), ("getRegions", "src/Region.cc:getRegions")],
     "byte-exact encodings before and after, under ASan", "Stateful random search.")

prop("C21", "Every point has exactly one valid pixel, and that pixel contains it",
     "For the three built-in pixelizations at every supported level, the index of any unit vector lies in the universe, and the pixel of that index contains the vector (to rounding at edges); every index in the universe denotes a pixel whose centre maps back to it. "
     "Pixels of a level tile the sphere: their areas sum to 4 pi and interiors of different pixels share no point.",
     ["inputs", "configurations"], "every level and every unit vector, in particular on face and pixel edges, corners and poles",
     "Tests check some levels and a few dozen points.",
     H("HtmPixelization", "Q3cPixelization", "Mq3cPixelization", "Pixelization", "curve") + S("HtmPixelization", "Q3cPixelization", "Mq3cPixelization") + ["src/Q3cPixelizationImpl.h"],
     [("index()", "src/*Pixelization.cc:index"), ("pixel()", "src/*Pixelization.cc:pixel"), ("quad()", "src/*3cPixelization.cc:quad")],
     "round trips between index, pixel, quad and centre; extended-precision containment; area sums", "Random search; edges are decided to a tolerance.")

prop("C22", "Pixel indexes nest hierarchically and names identify pixels",
     "Dropping the low bits of a pixel index at a level gives the index, at a coarser level, of the pixel that contains it, and each pixel is the union of its children. The level recovered from an index is the one it was made at, "
     "and the textual name of a pixel is unique and encodes its root and path.",
     ["inputs", "configurations"], "all levels, all pixels and points",
     "Tests check few indexes.",
     H("HtmPixelization", "Q3cPixelization", "Mq3cPixelization") + S("HtmPixelization", "Q3cPixelization", "Mq3cPixelization"),
     [("level()", "src/*Pixelization.cc:level"), ("asString", "src/*Pixelization.cc:asString,toString")],
     "cross-level agreement, independent name construction, injectivity", "Random search, exhaustive at low levels.")

prop("C23", "Invalid pixel indexes and levels are rejected",
     "Constructing a pixelization with a level outside its documented range, or asking for the pixel, quadrilateral, name or neighbourhood of an index outside the universe of that level, throws an invalid-argument error; every index inside is accepted. "
     "Level recovery reports a negative value for integers that are not a valid index at any level.",
     ["inputs", "configurations"], "all levels and all 64-bit integers, in particular neighbours of universe bounds and indexes of other levels",
     "Tests try one or two bad values.",
     H("HtmPixelization", "Q3cPixelization", "Mq3cPixelization") + S("HtmPixelization", "Q3cPixelization", "Mq3cPixelization"),
     [("range checks", "src/*Pixelization.cc")], "the universe as an arithmetic predicate", "Random search near bounds under sanitizers.")

prop("C24", "Pixel neighbourhoods are exactly the touching pixels",
     "The neighbourhood of a pixel in the cube-based pixelizations consists of valid indexes, includes the pixel itself, has no duplicates, is symmetric, and holds exactly the pixels that share an edge or corner with it, across face edges and cube corners too.",
     ["inputs", "configurations"], "every pixel at every level, in particular at face edges and corners",
     "Tests check few pixels per level.",
     H("Q3cPixelization", "Mq3cPixelization") + S("Q3cPixelization", "Mq3cPixelization") + ["src/Q3cPixelizationImpl.h"],
     [("neighborhood()", "src/*3cPixelization.cc:neighborhood"), ("wrapIndex/findNeighborhood", "src/Q3cPixelizationImpl.h")],
     "brute force over shared corners at low levels, displaced-corner probes at high levels, symmetry", "Exhaustive to level 3-4, random beyond.")

prop("C25", "Pixel envelopes cover the region",
     "The envelope of any region, at any level of any built-in pixelization and any limit on the number of ranges, includes the index of every point of the region, contains only valid indexes of that level, and has no more ranges than the limit. "
     "Without a limit, every pixel in it is near the region: pixels clearly disjoint from a circle or convex polygon, or far from a box or ellipse, are left out.",
     ["inputs", "configurations"], "every region, level and maximum range count",
     "Tests cover a few circles and boxes; lost pixels appear only for special placements.",
     H("Pixelization", "HtmPixelization", "Q3cPixelization", "Mq3cPixelization") + S("HtmPixelization", "Q3cPixelization", "Mq3cPixelization", "CompoundRegion") + ["src/PixelFinder.h"],
     [("tree search", "src/PixelFinder.h"), ("compound envelopes", "src/CompoundRegion.cc:getEnvelope")],
     "witness points of the region mapped through index(); pixel disjointness from the reference", "Random search.")

prop("C26", "Pixel interiors lie within the region",
     "Every pixel in the interior of any region, at any level and range limit, lies entirely within the region, and the interior is a subset of the envelope. Every pixel clearly inside a circle, box or convex polygon is found when no limit applies.",
     ["inputs", "configurations"], "every region, level and maximum range count",
     "Tests check a few circles; a wrongly included pixel shows only when it sticks out somewhere along an edge.",
     H("Pixelization") + S("HtmPixelization", "Q3cPixelization", "Mq3cPixelization", "CompoundRegion") + ["src/PixelFinder.h"],
     [("tree search", "src/PixelFinder.h"), ("compound interiors", "src/CompoundRegion.cc:getInterior")],
     "corner, edge and random points of the reported pixels tested against the region", "Random search.")

prop("C27", "Space-filling curve index conversions are bijections",
     "Morton and Hilbert index computations and their inverses, and conversions between the two, are mutually inverse on all of their documented ranges; the Hilbert curve visits adjacent cells consecutively and refines hierarchically. Base-2 logarithms are exact, and the optimised and portable code paths agree.",
     ["inputs", "configurations"], "all 32-bit coordinate pairs, all orders and all 64-bit indexes",
     "Tests cover small orders; 2^64 inputs cannot be enumerated.",
     H("curve"), [("mortonIndex, hilbertIndex and inverses", "include/lsst/sphgeom/curve.h"), ("log2", "include/lsst/sphgeom/curve.h:log2")],
     "bit-by-bit reference curves and a portable variant build", "Random search, exhaustive at low orders.")

prop("C28", "Chunks and sub-chunks tile the sphere",
     "For every stripe and sub-stripe count the chunks tile the sphere and the sub-chunks of a chunk tile that chunk: every point lies in the bounding box of a chunk and sub-chunk, bounding boxes of different chunks do not overlap beyond edges, "
     "numbering is a bijection between valid identifiers and (stripe, chunk) pairs, and enumerations list each exactly once. Invalid configurations are rejected.",
     ["inputs", "configurations"], "all stripe and sub-stripe counts and all points",
     "Tests check one or two configurations.",
     H("Chunker") + S("Chunker"),
     [("stripe layout", "src/Chunker.cc:Chunker"), ("bounding boxes", "src/Chunker.cc:getChunkBoundingBox,getSubChunkBoundingBox")],
     "an independent layout model and point location", "Exhaustive over chunks for generated configurations.")

prop("C29", "Chunk searches find every chunk a region touches",
     "The chunks and sub-chunks reported as intersecting a region include every one with a point of the region, list each once in a valid form, and leave out those clearly disjoint from the region's bounding box.",
     ["inputs", "configurations"], "every configuration and region, including polar, seam-crossing, empty and full ones",
     "Tests use one box and configuration.",
     H("Chunker") + S("Chunker"), [("getChunksIntersecting, getSubChunksIntersecting", "src/Chunker.cc")],
     "witness points of the region located by the layout model", "Random search.")

prop("C30", "Build options do not change results",
     "The portable and the optimised (SIMD, little-endian, unaligned access) builds of the library give the same answers: identical encodings and decoded objects, and pixel indexes, pixels, names, neighbourhoods, pixel searches, relations, bounds and memberships that differ at most by the rounding of the last bit, for every input.",
     ["inputs", "configurations"], "every input to code with conditionally compiled alternatives",
     "The tests run one build configuration only.",
     H("codec", "curve") + S("UnitVector3d", "HtmPixelization", "Q3cPixelization", "Mq3cPixelization") + ["src/Q3cPixelizationImpl.h"],
     [("NO_SIMD / NO_OPTIMIZED_PATHS alternatives", "include/lsst/sphgeom/codec.h, curve.h, src/*3c*.cc/h")],
     "differential: the same sources compiled both ways and linked into one harness", "Random differential search.")

prop("C31", "Python objects survive pickle, copy and YAML round trips",
     "Every picklable Python-visible object (angles, intervals, points, vectors, boxes, regions of all types, range sets, pixelizations, chunkers) is equal (where its type has no ==: has the same encoding), after pickling with protocol 2 or later, copying, deep copying or (for regions) encoding and YAML dumping, to what it was, for every value including empty and full ones; representations evaluate back to an equal object where they are documented to.",
     ["inputs"], "every value of each bound type",
     "Tests pickle one or two values per type.",
     ["python/lsst/sphgeom/_yaml.py"] + H("python"), [("pickling", "python/lsst/sphgeom/_*.cc:py::pickle"), ("YAML", "python/lsst/sphgeom/_yaml.py")],
     "round trips through every protocol, compared by equality and encoded bytes", "Hypothesis search through the Python API.", technique="property-based testing with Hypothesis against a fresh build of the Python module", cmd="py")

prop("C32", "IVOA position strings round-trip and malformed ones are rejected",
     "Converting a circle, box or polygon to an IVOA POS string and back yields the same region to rounding, and parsing any valid CIRCLE, RANGE or POLYGON string (with any white space between its words, and infinite bounds of ranges) yields the region it denotes; malformed strings are rejected with a value error and unsupported regions with a not-implemented error.",
     ["inputs"], "every region and every string",
     "Tests check about ten strings.",
     ["python/lsst/sphgeom/_continue_class.py"], [("from_ivoa_pos/to_ivoa_pos", "python/lsst/sphgeom/_continue_class.py")],
     "an independent parser of the POS grammar and membership of sample points", "Hypothesis search, grammar-based strings and mutations.", technique="property-based testing with Hypothesis (grammar-based generation)", cmd="py")

prop("C33", "The HEALPix pixelization agrees with its definition",
     "For every level, the HEALPix pixelization maps each point to a pixel in its universe whose polygon contains it to within the polygon approximation, its envelope of a region includes the pixel of every point of the region, its interior lists only pixels inside the region, arguments it does not support are rejected with an ordinary exception, and impossible levels (negative, or over 29) are rejected.",
     ["inputs", "configurations"], "every level, point and region",
     "Tests use one level and a few regions.",
     ["python/lsst/sphgeom/_healpixPixelization.py", "python/lsst/sphgeom/pixelization_abc.py"], [("HealpixPixelization", "python/lsst/sphgeom/_healpixPixelization.py")],
     "hpgeom primitives used directly, and witness points", "Hypothesis search.", technique="property-based testing with Hypothesis", cmd="py")

prop("C34", "The Python API mirrors the C++ behaviour safely",
     "Python calls return the same results as the C++ library: vectorised membership tests agree element by element with scalar ones, sequence types obey Python's indexing (negative indexes, index errors), comparison operators and hashing are consistent, arguments given by their names mean the same as by position, and arguments of wrong type or value raise exceptions without crashing the interpreter.",
     ["inputs"], "every bound callable and argument",
     "Tests exercise a few calls each.",
     ["python/lsst/sphgeom/_rangeSet.cc", "python/lsst/sphgeom/_region.cc"] + H("python"), [("bindings", "python/lsst/sphgeom/_*.cc"), ("index conversion", "include/lsst/sphgeom/python.h:convertIndex")],
     "python models (lists, sets, scalar loops) of each API", "Hypothesis search.", technique="property-based testing with Hypothesis against python models", cmd="py")

prop("C35", "Areas and sizes are right and additive",
     "The area of a box equals the exact spherical area to the rounding of its angles and their sines, and areas of circles equal 2 pi (1 - cos r) to relative rounding; empty regions have no area, full ones 4 pi; areas are monotone under containment, a box and its parts or a circle and its complement add up, and dimensions (width, height, centre, opening angle, chord length) match the defining parameters to rounding.",
     ["inputs"], "every box and circle, tiny to full",
     "Tests check hemispheres; cancellation shows for tiny or nearly full shapes.",
     H("Box", "Circle") + S("Box", "Circle"), [("getArea", "src/Box.cc, include/lsst/sphgeom/Circle.h")], "extended-precision closed forms and additivity", "Random search.")

prop("C36", "Unions and intersections behave as their operands combined",
     "A union contains a point exactly when an operand does, an intersection exactly when all operands do; their pixel envelopes and interiors, bounds and relationships follow from those of the operands. Operands are returned in order as they were given, nesting to any depth is supported, and getRegions lists copies of a compound's operands, or of the region itself when it is not compound.",
     ["inputs", "histories"], "every tree of regions", "Tests use two trees of two circles and boxes.",
     H("CompoundRegion", "Region") + S("CompoundRegion", "Region"), [("UnionRegion, IntersectionRegion", "src/CompoundRegion.cc"), ("Region::getRegions", "src/Region.cc")],
     "evaluation over operands", "Random search over trees.")

prop("C37", "Answers depend on the arguments only, not on history or other threads",
     "Every query and every function returns the same result whenever it is called with equal arguments: whatever else was called before in the process, whatever history of operations produced the arguments, and while other threads use the library at the same time on the same constant objects or on their own. Queries never change their operands, and no call has a data race with calls that only read shared objects.",
     ["histories", "schedules", "inputs"], "every sequence of calls, and every interleaving of threads that only read the objects they share",
     "The tests call each function once in one thread; hidden state (a cache, a static buffer) shows only in particular sequences or interleavings.",
     H("Region", "Pixelization", "orientation", "RangeSet", "Chunker") + S("orientation", "RangeSet", "Chunker", "Box", "Q3cPixelization"),
     [("const queries without hidden state", "include/lsst/sphgeom/Region.h"), ("buffers on the stack", "src/orientation.cc:orientationExact"), ("immutable pixelizations", "include/lsst/sphgeom/HtmPixelization.h, Mq3cPixelization.h, Q3cPixelization.h")],
     "the same calls in another order, twice, on a decoded twin, and in 2-4 threads, compared bit for bit; ThreadSanitizer for races",
     "Random lists of calls; thread schedules are those the OS makes, and races are found by ThreadSanitizer's happens-before analysis of them.",
     technique="property-based testing (own engine: recorded choice tapes, shrinking, forked workers) of call histories and threads, plain build and ThreadSanitizer build")

prop("C38", "Printed forms denote exactly the values printed",
     "Streaming any value (angle, normalised angle, point, vector, unit vector, matrix, interval, box, 3-d box, circle, ellipse, polygon or range set) writes its JSON-like form, whose numbers read back as exactly the components of the value (every double to the last bit, with infinities, NaNs and signed zeros kept; every 64-bit integer exactly), whatever their magnitude, and leaves the stream usable.",
     ["inputs"], "every value of every printable type",
     "Tests print about one value per type; digits are lost, or a fixed buffer overflows, only for some magnitudes.",
     H("Angle", "Vector3d", "RangeSet") + S("Angle", "Interval1d", "Vector3d", "LonLat", "AngleInterval", "NormalizedAngleInterval", "Matrix3d", "Box", "Box3d", "Circle", "Ellipse", "ConvexPolygon", "RangeSet"),
     [("operator<< with 17 significant digits in fixed buffers", "src/Angle.cc, Interval1d.cc, Vector3d.cc, Circle.cc:operator<<")],
     "the text parsed by an independent reader: shape, and every number compared with the getters", "Random search over bit patterns.")

prop("C39", "Searches account for every pixel and chunk, at every level",
     "For any family of regions that together cover the sphere (a region and its complement, a box and its surroundings, a grid of boxes, a polygon and the hemispheres outside its edges, overlapping circles), every pixel at any level, with or without a range limit, is in the envelope of at least one, and every chunk and sub-chunk is found for at least one and none is found that does not exist. Regions that do not overlap share no interior pixel, interiors lie within envelopes, a box is found in exactly the chunks that one of two halves of it is found in (but for a margin of 1e-10), and searches refine: the envelope at a finer level lies within the children of the coarser envelope, the finer interior includes the children of the coarser one.",
     ["inputs"], "every covering family, every pixelization, level, range limit and chunking",
     "Tests search for a few regions and compare with a few expected pixels; a lost pixel or chunk needs a particular place and size.",
     H("HtmPixelization", "Q3cPixelization", "Mq3cPixelization", "Chunker") + S("HtmPixelization", "Q3cPixelization", "Mq3cPixelization", "Chunker") + ["src/PixelFinder.h"],
     [("tree search with disjoint/within tests", "src/PixelFinder.h:PixelFinder::visit"), ("root pixels", "src/Q3cPixelization.cc, src/HtmPixelization.cc"), ("stripe and chunk ranges", "src/Chunker.cc:getChunksIntersecting")],
     "the universe of pixels and chunks against the union of the results; one level against another", "Random search; budgets on the number of pixels along the edges keep large regions to coarse levels.")


prop("C40", "Running out of memory is reported, leaks nothing and spoils nothing",
     "When an allocation fails during a call, the call reports it (std::bad_alloc; it does not crash, end the program or return a different value), releases what it had allocated, and the same call made again with memory gives the result of an undisturbed run. Objects passed to it stay as they were: range set insert, erase, &=, |=, -=, ^= and copy assignment, and polygon assignment, leave their target unchanged, and queries, searches, copies, decoding, constructors and set operations leave their arguments unchanged. A range set whose simplification or scaling fails is still a valid range set.",
     ["inputs", "fault_sequences"], "every call of the C++ API that allocates, on any operands, with any of its allocations failing, alone or with all later ones",
     "Tests run with memory to spare; failure at each allocation of each call must be injected.",
     H("RangeSet", "Region", "CompoundRegion", "ConvexPolygon", "Pixelization", "Chunker") + S("RangeSet", "Region", "CompoundRegion", "ConvexPolygon", "Chunker"),
     [("space is reserved before ranges are changed", "src/RangeSet.cc:insert"), ("the complement is undone by a destructor", "src/RangeSet.cc:erase"), ("results are built aside and swapped in", "include/lsst/sphgeom/RangeSet.h:operator&="), ("owning pointers", "src/CompoundRegion.cc, src/ConvexPolygon.cc:decode")],
     "fault injection: a replaced global operator new counts live blocks and fails the n-th allocation of a call; the outcome, operands and a repeated call are compared with an undisturbed run", "Up to 16 failing allocations per call; stream output is left out (streams swallow exceptions by design).")


def main():
    rows, checks, na = [], [], []
    for p in sorted(P, key=lambda p: p["id"]):
        rows.append(dict(id=p["id"], title=p["title"], statement=p["statement"].strip(),
                         quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                         anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])))
        assert len(p["title"]) <= 80, p["title"]
        prog = "pycheck.py" if p["cmd"] == "py" else "check.py"
        have = os.path.exists(os.path.join(VERIF, "harness", "props", p["id"] + ".cc")) or os.path.exists(
            os.path.join(VERIF, "harness", "pyprops", p["id"] + ".py"))
        if p["na"] or not have:
            na.append(dict(property=p["id"], reason=p["na"] or "its check is not built yet"))
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 bin/%s %s" % (prog, p["id"]),
                           thorough_cmd="python3 bin/%s %s --tier thorough" % (prog, p["id"]),
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration",
                           level_note="%s Oracle: %s. It never establishes absence; it trusts the oracle, the compilers and the sanitizers." % (p["note"], p["oracle"])))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
                       notes="Generated by bin/registry.py. No hooks: the harness uses the public headers of /repo only."), f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", len(na), "not claimed:", " ".join(n["property"] for n in na))


if __name__ == "__main__":
    main()
