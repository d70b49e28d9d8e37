#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json
H="homog2d.hpp"
P=[]
def p(id,title,statement,over,text,why,mech,state=(),observe=(),hook=None,files=(H,)):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
SMOKE="The stable tests only build and run smoke programs (their numeric output is not compared with anything); even the upstream unit tests sample a handful of hand-picked integer inputs. "

p("C01","Join and meet: points and lines are dual and incident",
 "For every two distinct points, the line built from them (constructor, set or `*`, finite or at infinity, any accepted way of giving the coordinates) contains both, and for every two non-parallel lines the point built from them lies on both; joining identical points or meeting parallel lines throws instead of returning a value. Equality, ordering and parallelism of points and lines agree with the geometry and not with the homogeneous scale or the order in which the object was built, and any triplet proportional to another denotes the same point or line.",
 ["inputs"],"all pairs of points / pairs of lines with well-conditioned coordinates, incl. homogeneous triplets of any scale and sign, points at infinity, axis-parallel lines",
 SMOKE+"The guarantee quantifies over all coordinate pairs.",
 [("LPBase constructors/impl_init, operator*, p_normalizePL, impl_op_equal, impl_op_sort",H),("detail::product / crossProduct",H)],
 observe=["Line2d::distTo(Point2d)","Point2d::getX/getY","Line2d::get","operator==","operator<"])

p("C02","Derived lines, points on lines, distances and angles",
 "Every quantity derived from a line is what its definition says: coordinates and points read off the line lie on it, the two equidistant points are on the line at the requested distance in documented order, orthogonal, parallel and rotated lines go through the requested point with the requested angle or distance, and distances, angles (in [0,pi/2]), parallelism and orthogonal segments are the Euclidean ones. Requests with no answer (coordinate of an axis-parallel line, rotation about a point off the line, distance between non-parallel lines) throw.",
 ["inputs"],"all lines in any direction (incl. exactly and nearly axis-parallel), reference points, distances and angles",
 SMOKE+"Formulas have case splits on line direction and sign that a few samples do not cover.",
 [("LPBase::getCoord/getPoint/getPoints/getOrthogLine/getParallelLine(s)/getRotatedLine/getAngle/distTo/isParallelTo/getOrthogSegment",H),("free functions side, getParallelDistance, getAngle, areCollinear",H)],
 observe=["returned lines, points, angles and distances"])

p("C03","Segments: measures, derived points and segments",
 "For every segment, oriented or not: endpoints, length, center, supporting line, bisector, halves, parallel segments, extended segment and orthogonal points/segments are the Euclidean ones; an unoriented segment stores its endpoints in lexicographic order and is equal to its reversal while an oriented one keeps and honours its direction (reversal, point at a distance, split at a distance, side of a point, signed angle). The distance to a point is the true shortest distance, with the reported case (projection or which endpoint) matching it, and invalid requests (null segment, out-of-range split, negative distance) throw.",
 ["inputs"],"all segments, query points, distances and pairs of segments",
 SMOKE+"Case splits on orientation/quadrant make samples inconclusive.",
 [("base::SegVec and free functions on segments",H)],
 observe=["getPts, length, getCenter, getLine, getBisector, split, getParallelSegs, getExtended, getOrthogPts/Segs, distTo, getPointSide, getAngle, getPointAt"])

p("C04","Homographies form the group of planar projective maps",
 "Applying a homography to a point computes the projective image of that point; set/add of rotation, translation and scale, matrix product, inverse, transpose, init, element read/write and construction or assignment from values or containers have exactly the documented effect, after any sequence of such operations on the same object. Composition acts as successive application (rightmost factor / first added first), the inverse undoes the map, proportional matrices compare equal, and singular, mis-sized or non-normalisable matrices are refused with an exception.",
 ["inputs","histories"],"all sequences of mutating operations on a homography followed by applications to points, singly or in any supported container",
 SMOKE+"Laws quantify over sequences of operations (histories) and all matrices.",
 [("Hmatrix_, detail::Matrix_ (addXxx/setXxx/inverse/transpose/product/operator==/applyTo)",H)],
 state=[("_isNormalized / _hasChanged","cached state flags of the matrix","detail::Matrix_, Hmatrix_")],
 observe=["H*Point2d","get/value/getRaw","operator=="])

p("C05","A homography acts on every primitive as on its points",
 "For every well-conditioned homography and every primitive, transforming the primitive is the same as transforming its points: lines keep incidence, segments and polylines map vertex by vertex (oriented ones keep direction), rectangles become the closed polyline of the mapped corners, circles and ellipses become the conic through the mapped points; transforming a container, a variant or through applyTo gives the element-wise result. This holds whatever operations were applied to the homography object before, and applying it never changes the homography's observable value.",
 ["inputs","histories"],"all homographies (rigid, affine, projective), primitives, and histories of mutation interleaved with application to lines",
 SMOKE+"Line transforms depend on a cached inverse whose validity depends on the history of the object.",
 [("operator*(Hmatrix_, X) overloads, Hmatrix_::applyTo, cached inverse-transpose for lines",H)],
 state=[("_hmt/_hasChanged","cached inverse transpose used for lines","Hmatrix_")],
 observe=["h*line, h*segment, h*rect, h*circle, h*ellipse, h*polyline, h*container"])

p("C06","Four point pairs determine the homography",
 "For any two sets of four points in general position, the computed homography maps each source point onto its target, whichever linear-algebra backend is selected, and both backends agree; the result is then an ordinary homography (its inverse maps back, it composes, it acts on lines consistently). Sets of a wrong size are refused with an exception.",
 ["inputs","configurations"],"all pairs of 4-point sets with no three nearly collinear; Eigen and OpenCV backends",
 SMOKE+"It is a statement about every quadruple, and backend selection is a configuration.",
 [("Hmatrix_::buildFrom4Points, priv::buildFrom4Points_Opencv/_Eigen",H)],
 observe=["H*p_i vs q_i"])

p("C07","Intersections are sound, complete and symmetric",
 "For every pair of primitives (line, segment, oriented segment, rectangle, circle, polyline) `intersects()` answers true exactly when the two curves share a point and returns exactly the shared points: each lies on both curves, none is missing or repeated (collinear-overlapping pieces do not meet in a point, identical objects have no intersection, and a polyline may report a shared point once per side through it), and returned points are sorted. The answer does not depend on which of the two objects is asked, nor on the order or orientation in which they were built.",
 ["inputs"],"all pairs of primitives in general position plus exact contact configurations (shared endpoints, T-junctions, aligned/overlapping edges, tangency by construction)",
 SMOKE+"The pairwise case analysis is large (7x7 pairs, contact classes) and must hold for all positions.",
 [("intersects() member functions, detail::IntersectM, detail::Intersect, impl_intersects_*",H)],
 observe=["a.intersects(b)() / size() / get() vs an independent reference"])

p("C08","Enclosing tests are exact and strict",
 "`a.isInside(b)` is true exactly when every point of a lies strictly in the interior of the area b encloses (an object touching the boundary is not inside), for every pair of types the manual lists as supported, and false for the pairs listed as never inside. The answer is independent of vertex order, start vertex or construction of either object, and getPtsInside returns exactly the inside points, in order.",
 ["inputs"],"points, segments, rectangles, polylines, circles, ellipses against rectangles, closed polylines (convex or not, simple), circles, ellipses; boundary points included",
 SMOKE+"Point-in-polygon uses random/extended segments with retries; correctness is a claim over all polygons and points.",
 [("isInside() overloads, detail::impl_isInsidePoly, getPtsInside",H)],
 observe=["isInside vs exact integer predicates"])

p("C09","Flat rectangles: canonical form, measures, union, intersection",
 "Whatever two opposite corners (or center, width and height) define it, a rectangle exposes its canonical corners, its corner/segment/diagonal arrays in documented order, and its true width, height, area, perimeter, center, bounding, inscribed and extended forms; null-area rectangles are refused. For every two rectangles, the intersection area is the exact common rectangle (absent when the interiors do not meet), the union is the exact outline of the merged area (the larger one when nested, empty when they do not meet), IoU is the ratio of those areas, and all are symmetric and agree between member, free-function and operator forms.",
 ["inputs"],"all pairs of rectangles over all relative placements, incl. shared edges, corners and non-representable coordinates",
 SMOKE+"13 figures sample the placements of two rectangles and none compares the result.",
 [("FRect_ members, intersectArea, unionArea, IoU, runion::* table parsing",H)],
 observe=["get4Pts, getSegs, getDiagonals, intersectArea, unionArea, IoU"])

p("C10","Polyline attributes are right at any time",
 "For every polyline and at every moment of any history of modifications (set, translate, moveTo, rotate, assignment, minimize, transformation), size, number of segments, points, segments, length, simplicity, convexity, area and centroid are those of its current points: length is the sum of the sides, area and centroid are the exact polygon values for simple closed polygons, area is zero and centroid throws otherwise, and open polylines are never simple or convex. None depends on the starting vertex or on the orientation of the vertices.",
 ["inputs","histories"],"all polylines (convex, concave, self-crossing, with collinear vertices) and all sequences of queries and mutations",
 SMOKE+"The values are cached; stale caches appear only for particular query/mutation histories.",
 [("base::PolylineBase::length/area/centroid/isSimple/isConvex/nbSegs/getSegments",H)],
 state=[("_attribs","lazily computed attributes","PolylineAttribs in PolylineBase"),("_plIsNormalized","normalisation flag","PolylineBase")],
 observe=["attribute getters vs exact recomputation from getPts()"])

p("C11","Polyline identity: equality, normalisation, minimisation, conversion",
 "Two polylines compare equal exactly when they describe the same object (closed: same cyclic sequence up to rotation of the start and reversal; open: up to reversal), regardless of previous comparisons, and comparing never changes the described shape. Minimisation removes exactly the vertices lying on the straight path between their neighbours and keeps the shape; construction, copy and conversion from containers, rectangles, segments and other polylines preserve the points, and sets of one point or with identical consecutive points are refused.",
 ["inputs","histories"],"all vertex sequences, all rotations/reversals of them, all orders of comparison",
 SMOKE+"Equality depends on a lazy in-place normalisation.",
 [("PolylineBase::operator==, impl_normalizePoly, minimize/p_minimizePL, set, constructors, p_checkInputData",H)],
 state=[("_plIsNormalized","normalisation flag","PolylineBase")],
 observe=["operator==/!=, getPts, minimize"])

p("C12","Polyline constructions: regular, parallelogram, offset, closest",
 "Constructions on polylines deliver the announced shape for all parameters: regular polygons have all vertices at the given distance starting on the x axis with the returned side and inscribed radius, parallelograms complete the three given points, the offset polygon has its sides parallel to the source at the requested signed distance (outside if positive) for every simple polygon whatever its orientation, bisector and edge lines match the vertices, and the closest points of two polylines are really the closest pair. Illegal parameters (too few points, non-simple source, empty input) throw or return empty as documented.",
 ["inputs"],"all radii/counts, point triples, simple polygons in both orientations with offsets small with respect to their sides, pairs of polylines",
 SMOKE+"Orientation/convexity case splits.",
 [("PolylineBase::set(rad,n), setParallelogram, getOffsetPoly, getBisectorLines, getLines; getClosestPoints; getOSegs",H)],
 observe=["resulting vertices and distances"])

p("C13","Convex hull is the minimal convex enclosing polygon",
 "For every finite set of points with at least three of them not collinear, given as a vector, a set of points or a polyline, the convex hull is a convex closed polygon whose vertices are input points, that contains every input point, that has every extreme point as a vertex, and that lists them in cyclic order; it is independent of the order of the input and idempotent.",
 ["inputs"],"all point sets incl. duplicates, collinear runs, lattice points, several points sharing the pivot row",
 SMOKE+"Graham-scan bugs show up only on collinear/duplicate configurations.",
 [("convexHull, priv::chull::{getPivotPoint,sortPoints,orientation}",H)],
 observe=["vertices of the returned CPolyline vs exact integer hull"])

p("C14","Circles: construction, enclosing circle, tangents, measures",
 "A circle built from two points has them as a diameter, one built from three points passes through all of them (identical or collinear points are refused), and the minimum enclosing circle of any set of two or more points contains every point and is the smallest that does, whatever the order and number of the points. Radius, center, area, perimeter and the common tangent segments of two circles are the Euclidean ones, and null radii are refused in any state of the library.",
 ["inputs","histories"],"all point sets of 2..n points in any supported container, all pairs of circles; sequences that include failing constructions",
 SMOKE+"Minimality and exception behaviour are universally quantified; the radius check is a global switch toggled during the computation.",
 [("Circle_::set overloads, priv::p_welzl_helper / p_MEC, getTanSegs, getSegment/getLine of circles",H)],
 state=[("thr::doNotCheckRadius()","global switch disabling the null-radius check","thr namespace")],
 observe=["center, radius, point distances"])

p("C15","Bounding boxes are tight for every type and combination",
 "The bounding box of any primitive, pair of primitives of any types, or container of primitives (including variants) is the smallest axis-aligned rectangle holding all of them; if that rectangle has no area, or an element has no bounding box, the call throws. The result does not depend on the order of the arguments or elements nor on whether the member or free function is used.",
 ["inputs"],"all types and pairs of types, containers of 1..n elements",
 SMOKE+"Pair/contain combinations form a large dispatch matrix.",
 [("getBB members and free functions, priv::getBB_*, fct::GetBbFunct",H)],
 observe=["corners of the returned FRect vs reference extents"])

p("C16","Extremal, nearest and farthest points are really extremal",
 "For every set of points, the left-, right-, top- and bottom-most point functions (member, free, by direction) return the point of extreme coordinate with the documented tie-break and its index, and nearest/farthest/both searches return the index of a point whose distance to the query is minimal/maximal among the points different from the query. Sets that are too small, or that hold nothing but the query point, throw.",
 ["inputs"],"all point sets incl. ties, duplicates, query belonging to the set at any position",
 SMOKE+"Ties and query-in-set positions are rarely sampled.",
 [("getXmPoint, getExtremePoint, priv::findPoint, findNearestFarthestPoint",H)],
 observe=["returned point/index vs exhaustive scan"])

p("C17","Ellipses round-trip their parameters",
 "An ellipse built from center, semi-axes and angle (or from a circle) gives these back for every orientation and position, and after any translation, move or homography describes the transformed curve: center, axes, angle, area, perimeter, axis lines, bounding box, oriented box, circle test, equality and point membership all agree with the parametric curve. Nothing depends on the storage option (speed or memory), and querying or comparing never alters the ellipse.",
 ["inputs","histories","configurations"],"all centers, axes, angles (all quadrants, axis-aligned, circular), histories of moves, both storage configurations",
 SMOKE+"The matrix-to-parameters recovery has case splits per quadrant and a cached variant.",
 [("Ellipse_: p_init, p_computeParams, p_getParams, getBB, getOBB, getAxisLines, isCircle, operator==, translate/moveTo, pointIsInside",H)],
 state=[("_epHasChanged/_par","cached parameters under HOMOG2D_OPTIMIZE_SPEED","Ellipse_")],
 observe=["getters vs parametric reference"])

p("C18","Numeric types interoperate without losing the value",
 "Every primitive exists for float, double and long double storage; converting, assigning or computing between objects of different types gives the same geometric result up to the precision of the types involved, computations are done in the configured internal type (long double really yields long double accuracy), and dtype/dsize report the actual storage type. Conversions preserve all the state of the object (type-specific data, orientation, number of points).",
 ["inputs","configurations"],"all primitives x {float,double,long double} x {double,long double} internal type",
 SMOKE+"Templates are only instantiated by tests for a few type combinations.",
 [("converting constructors/assignments of each class, detail::Common::dtype/dsize, HOMOG2D_INUMTYPE",H)],
 observe=["values of converted objects, accuracy residuals, getString/dtype/dsize"])

p("C19","Runtime polymorphism gives the static answers",
 "For any object, calling an operation through a variant container (type, dtype, area, length, size, transform, draw, bounding box, unwrap) or through a base-class pointer (type, area, length, size, draw, stream) gives exactly what the statically typed call gives, or the same exception; type, area, length, size and isInside constants are the documented ones for each type.",
 ["inputs","configurations"],"all primitive types and values, both polymorphism build options",
 SMOKE+"Dispatch tables have one entry per type and per operation.",
 [("CommonType_, fct::*Funct, rtp::Root, Type/Dtype getString, virtual area/length/type/size/draw",H)],
 observe=["values returned through variant/pointer vs static"])

p("C20","Drawings are well-formed and show the object",
 "Drawing any sequence of primitives, containers and texts with any drawing parameters on an SVG image yields a well-formed document of the given size in which each object appears once, as the element of its type, with its coordinates, color, thickness and attributes; objects outside the drawn set or images leave no trace and drawing never modifies the object. Drawing parameters set as default apply until changed or reset and do not leak into explicit parameters, and a line or point is drawn exactly when it meets the image.",
 ["inputs","histories"],"all primitives, parameters, sequences of draw calls and of default changes",
 SMOKE+"The figure tests only check that a non-empty file is written.",
 [("draw() SVG implementations, img::DrawParams, img::Image<SvgImage>, drawText",H)],
 state=[("DrawParams default values","process-wide default style","img::DrawParams::p_getDefault")],
 observe=["XML parsed back and compared with the object"])

p("C21","SVG import recovers shapes and survives hostile files",
 "Importing any well-formed SVG returns, in document order, one object per supported element (circle, rect, line, polyline, polygon, ellipse, path with M/L/H/V/Z commands absolute or relative) with the geometry the file describes; files written by the library are read back as the same objects. Unsupported elements or commands are skipped or refused, and no input whatever, malformed attributes included, can crash the process, hang, or raise anything but a standard exception.",
 ["inputs"],"all documents: random valid shapes, all spellings of path data in the supported grammar, truncations and mutations of them",
 SMOKE+"Two map files are imported and only the exit code is looked at.",
 [("svg::Visitor, svgp::{parsePath,parsePoints,getNextElem,getCommand,getEllipseRotateAttr,importSvgPoints}, getImgSize",H)],
 observe=["visitor.get() vs an independent path interpreter; process survival under ASan/UBSan"])

p("C22","Bindings carry values faithfully in both directions",
 "Points, lines, polygons and matrices imported from or exported to other libraries' types (user types, standard containers, OpenCV points and matrices, Boost.Geometry points and polygons) carry the same values, for single objects and containers, through constructor, set, assignment or conversion function (points and polygons are exported to user types having a two-value constructor); imports of mis-sized or mis-typed data are refused. An assignment from a foreign type replaces the whole previous state of the object.",
 ["inputs","histories","configurations"],"all values and foreign types, objects with prior history",
 SMOKE+"bg_test only prints; OpenCV conversions are not checked.",
 [("getPt/getPts/getCvPt*, constructors/set from foreign points, Hmatrix_ <-> cv::Mat, boost polygon constructor",H)],
 observe=["coordinates after import/export"])

p("C23","Any use of the API on any values is memory-safe and well-defined",
 "No sequence of public API calls on finite values, however degenerate (coincident or collinear points, zero sizes, parallel or tangent shapes, empty or tiny containers, singular matrices, extreme magnitudes), causes undefined behaviour, out-of-bounds access, an assertion failure, an endless loop, or an exception that is not a std::exception; impossible requests raise a std::runtime_error. After an exception the objects involved remain usable and the library's global settings are as before.",
 ["inputs","histories"],"all finite inputs with emphasis on degenerate configurations; random sequences of API calls over a pool of objects",
 SMOKE+"They are run without sanitizers and only on nice inputs.",
 [("all public functions; HOMOG2D_THROW_ERROR_x checks; assert() sites",H)],
 state=[("thr:: statics","global thresholds and switches","thr namespace")],
 observe=["ASan, UBSan, libstdc++ assertions, exception type, watchdog"])

p("C24","Queries are pure and order-independent",
 "Calling any const operation (getters, comparisons, intersections, drawing, streaming, transformations producing new objects) never changes what any other call observes on the same or another object, so asking the same question twice or in another order gives the same answer; copies are independent of their source and equal to it (the one documented exception: comparing a polyline, or taking its offset, puts its stored points in their normal order). Changing a threshold at run time affects exactly the decisions documented for it, in every source file of the program, and restoring it restores the behaviour.",
 ["histories"],"all interleavings of const queries, copies and comparisons over a pool of objects of all types",
 SMOKE+"Lazy caches are mutable and updated inside const functions; tests query once, in one order.",
 [("mutable members: PolylineBase normalisation and attributes, Matrix_ normalisation, Ellipse_ cached params, Hmatrix_ cached inverse",H)],
 state=[("mutable caches","lazily updated state","PolylineBase, Matrix_, Hmatrix_, Ellipse_")],
 observe=["full observable snapshots before/after each query"])

p("C25","In-place moves are rigid and exact",
 "translate, moveTo and quarter-turn rotate/mirror, in member and free-function form, move every point of the object exactly as announced, for every type that offers them and any amount or reference point (including one taken from the object itself): shape, size, orientation-independent measures and membership are preserved, moving by the opposite amount restores the object, and every later query sees the new position.",
 ["inputs","histories"],"all primitives, displacement vectors, reference points, and query/move histories",
 SMOKE+"Moves interact with caches and normalised storage order.",
 [("translate/moveTo/rotate on Point2d, SegVec, FRect_, Circle_, Ellipse_, PolylineBase and free functions",H)],
 observe=["points/center/attributes after the move vs reference"])

p("C26","Independent objects may be used from several threads",
 "Threads working on disjoint sets of objects, each building, transforming, comparing, intersecting, enclosing, drawing and importing, obtain exactly the results of the same work done sequentially, and the library itself introduces no data race between them (process-wide thresholds and drawing defaults being left unchanged during the run).",
 ["schedules"],"all interleavings of threads with disjoint objects over the whole API",
 "The existing tests are single-threaded.",
 [("function-local and inline statics: thr::*, img defaults, svgp::numberValues, getCommand, random engines",H)],
 state=[("process-wide statics","thresholds, default drawing style, parser tables","thr, img, svg::svgp namespaces")],
 observe=["ThreadSanitizer reports; digest of results per thread vs sequential"])

p("C27","Answers do not depend on the unit or on the origin of the scene",
 "Expressing a whole scene in another unit (all coordinates multiplied by a same factor) changes no yes/no answer, count or refusal, and every length, area, position and coefficient of an answer by the matching power of that factor, as long as all sizes remain far from the documented thresholds. The same holds for moving the origin: away from degenerate configurations, measures and decisions are unchanged and positions move along.",
 ["inputs"],"all operations of the API over scenes of all types, scale factors (powers of two, for which arithmetic is exact) and translations",
 SMOKE+"Thresholds and comparisons written for coordinates of a given magnitude pass every test written at that magnitude.",
 [("all const operations on Point2d/Line2d/segments/FRect_/Circle_/Ellipse_/polylines/Homogr_; thr::doNotCheck/null* uses",H)],
 observe=["the answers of ~480 operations on a scene and on the same scene expressed in another frame"])

with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
print(len(P))
