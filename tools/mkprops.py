"""Regenerates properties.jsonl from the table below (kept as code so that edits stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))
T, U, B, BU = "PathLib/Transform.py", "PathLib/PathUtilities.py", "PathLib/Bezier.py", "PathLib/BezierUtilities.py"
MI, CF, SP, CO, CP = "PathLib/MatrixInversion.py", "PathLib/CurveFitting.py", "PathLib/SegmentPen.py", "PathLib/Color.py", "PathLib/ContourPlotter.py"

prop("C01", "Applying a transform maps every point homogeneously",
 "Applying a transform with 3x3 matrix M to a point (x, y) yields the row vector (x, y, 1)*M divided by its third component, for every matrix, including perspective ones. Applying it to a segment, a contour or a list of contours yields the same nesting with each point replaced by its image, in the same order and number, and leaves the argument unchanged.",
 ["inputs"], "all 3x3 matrices, all points, all segment/contour/outline shapes",
 "One test applies one rotation to one point; no test applies a perspective matrix or any container variant.",
 [T], [("applyToPoint / multiplyRowByMatrix", T), ("applyToSegment/Contour/Contours", T)], observe=["Transform.applyTo*"])
prop("C02", "Composed transforms act left to right",
 "A transform built from matrices m1, ..., mk has the matrix product m1*m2*...*mk (row-vector convention), so applying it equals applying m1 first, then m2, and so on to mk. Composition leaves the given matrices unchanged.",
 ["inputs"], "all sequences of one or more 3x3 matrices",
 "One test multiplies one fixed triple of matrices.",
 [T], [("concatenateMatrices / multiplyMatrixByMatrix", T)], observe=["Transform(...).transform"])
prop("C03", "Elementary transforms do what their names say",
 "For all arguments: translate(p, q) moves every point by q-p; scale(sx, sy) multiplies x by sx and y by sy; shear(sx, sy) maps (x, y) to (x+sx*y, y+sy*x); mirror negates y when mirroring in the x axis and x when mirroring in the y axis; perspective(p, q, s) divides the point by p*x+q*y+s. Omitted arguments mean the identity effect.",
 ["inputs"], "all factor, offset and flag values and all points",
 "Only translate and a 90 degree rotation are tested, at fixed values.",
 [T], [("_scaleMatrix, _translateMatrix, _shearMatrix, _mirrorMatrix, _perspectiveMatrix, _matrix", T)], observe=["Transform.translate/scale/shear/mirror/perspective"])
prop("C04", "Rotations turn by the angle and the direction asked for",
 "rotation(a, ccw) turns every point by a degrees about the origin, counter-clockwise (x toward y) when ccw is true and clockwise otherwise; the default is 90 degrees counter-clockwise. moveAndRotate(p, q, a) is the translation p to q followed by the counter-clockwise rotation, and rotateAndMove the rotation followed by the translation. The point, segment, contour and contours rotation helpers all equal applying the rotation about the given point by the given angle and direction.",
 ["inputs"], "all angles, directions, centres and path shapes",
 "One angle, one direction, one centre and one point are tested; the clockwise direction and the four helpers never are.",
 [T, U], [("_rotationMatrix, moveAndRotate, rotateAndMove", T), ("rotatePointAbout, rotateSegmentAbout, rotateContourAbout, rotateContoursAbout", U)])
prop("C05", "Transforms about a centre are conjugated by the centre",
 "rotationAbout(c), mirrorAround(c) and perspectiveFrom(c) act as the plain rotation, mirror or perspective applied in coordinates relative to c: the image of c+v is c plus the plain image of v. In particular the centre is a fixed point, for every centre, angle, direction, axis combination and perspective factor.",
 ["inputs"], "all centres, angles, directions, axis flags, perspective factors and points",
 "One rotation about one centre is tested; mirrorAround and perspectiveFrom are never executed.",
 [T], [("rotationAbout, mirrorAround, perspectiveFrom", T)])
prop("C06", "A bounds rectangle is the tightest box around its points",
 "The bounds rectangle of one or more points, of a contour, or of a list of contours has left/right/bottom/top equal to the minimum/maximum x and y over all of the points, whatever their magnitude or order. Segments or contours without points contribute nothing.",
 ["inputs"], "all point sets, coordinates of any magnitude, contours of any shape including empty parts",
 "No test constructs a bounds rectangle directly; the existing ones only reach it with two-point lines with small coordinates.",
 [U], [("BoundsRectangle.__init__, fromContour, fromCoutours, union", U)], [("left,right,bottom,top", "the extents", U)])
prop("C07", "Union and intersection of bounds rectangles are exact",
 "The union of two bounds rectangles is the smallest rectangle containing both, and a rectangle that bounds no points is neutral for it. The intersection is exactly the common region, is None exactly when the closed rectangles share no point, and neither operation alters its operands.",
 ["inputs"], "all pairs of rectangles: nested, overlapping, touching, separate, degenerate, empty",
 "Neither operation is exercised by any test.",
 [U], [("BoundsRectangle.union, intersection", U)])
prop("C08", "Containment and relation answers agree with the geometry",
 "Point containment, x/y crossing and rectangle enclosure answer exactly whether the coordinates lie within the closed extents. relationTo answers encloses when the other rectangle lies inside this one, otherwise enclosed when this one lies inside the other, otherwise intersects when they share a point, and separate otherwise.",
 ["inputs"], "all pairs of rectangles and all points, boundaries included",
 "Tests reach only point containment, through two helper functions, with six fixed lines.",
 [U], [("enclosesPoint, encloses, crossesX, crossesY, relationTo", U)])
prop("C09", "Rectangle measures derive from the extents",
 "For every bounds rectangle, width, height, area, diagonal, centre point, corner contour (a closed loop through the four corners starting bottom-left, going up first), points tuple, and the coordinate at a given fraction from the left or bottom edge are the stated functions of left, bottom, right and top. The string form is [(left, bottom), (right, top)].",
 ["inputs"], "all rectangles and fractions", "None of these is covered by a test.",
 [U], [("width, height, area, diagonal, contour, centerPoint, points, xFromLeft, yFromBottom, __str__", U)])
prop("C10", "Segment measures are exact functions of the end points",
 "For every segment, whether its points are (x, y) pairs or complex numbers, end points, deltas, length, midpoint, slope (rise over run, infinite exactly when the run is zero), angle from vertical and signed angle from the positive x axis depend only on its first and last point by the usual formulas. The vertical, horizontal and diagonal tests are true only for two-point segments, by zero run, zero rise, and neither respectively.",
 ["inputs"], "all segments with two or more points, tuple or complex",
 "Tests sample three fixed lines; complex points, curves and the angle functions are never exercised.",
 [U], [("pointXY, endPoints, getDeltas, is*Line, length, slope, slopeAngle, rawSlopeAngle, midpoint", U)])
prop("C11", "Line intersection is the common point of the two lines",
 "The infinite-line intersection of two lines is the unique point lying on both, and None exactly when they are parallel or degenerate. The segment intersection is that point when it lies within the bounding rectangles of both segments and None otherwise, without ever dividing by zero.",
 ["inputs"], "all pairs of lines and segments", "Five fixed pairs are tested; parallel lines and negative or large coordinates are not.",
 [BU, U], [("lli8, lli4, lli", BU), ("intersectionPoint", U)])
prop("C12", "Point-on-line answers whether the point lies on the segment",
 "pointOnLine is true exactly when the point is collinear with the segment's two end points and lies within their bounding rectangle. Both end points of the segment are therefore always on it.",
 ["inputs"], "all segments (any direction, vertical and horizontal included) and all points",
 "Two fixed points on one line are tested; end points are not.",
 [U], [("pointOnLine", U)])
prop("C13", "Evaluating a curve gives the Bernstein point",
 "For a curve of any order and any parameter t, the evaluated point is the Bernstein combination of all the control points, equal to the first control point at t=0 and the last at t=1. Start, end, their coordinates and the midpoint are the curve's points at 0, 1 and 1/2.",
 ["inputs"], "all control polygons of order 1 and up, all t (inside and outside [0,1])",
 "The curve module is not imported by any test.",
 [B], [("_compute, get, start, end, midpoint", B)])
prop("C14", "Look-up tables sample the curve evenly from end to end",
 "A curve's look-up table of n steps has exactly n points, the i-th being the curve's point at i/(n-1); a contour's table is the concatenation of its curves' tables with each shared joint listed once. The answer depends only on the requested step count, not on which tables were requested earlier.",
 ["inputs", "histories"], "all curves, contours, step counts >= 2 and sequences of requests",
 "Not executed by any test; depends on the history of requests.",
 [B], [("Bezier.getLUT, BContour.getLUT", B)], [("_lut", "cached table", B)])
prop("C15", "Splitting at t yields exactly the two halves",
 "For lines, quadratics and cubics and every t, split(t) returns a left curve tracing the parent over [0, t], a right curve tracing it over [t, 1], and the hull. The hull lists the control points followed by every de Casteljau interpolation level, ending in the point at t.",
 ["inputs"], "all control polygons of order 1 to 3, all t", "Not executed by any test.",
 [B, BU], [("hull, split", B), ("lerp", BU)])
prop("C16", "Splitting at two parameters yields exactly that piece",
 "For quadratics and cubics and 0 <= t1 < t2 <= 1, split(t1, t2) is a curve of the same order tracing the parent over [t1, t2]. The parameter interval that a piece reports is the sub-interval of the original curve that it covers, also for pieces of pieces.",
 ["inputs", "histories"], "all control polygons, all parameter pairs, chains of splits", "Not executed by any test.",
 [B, BU], [("split", B), ("map", BU)], [("_t1,_t2", "the interval of the original curve a piece covers", B)])
prop("C17", "Derivatives and normals match the curve",
 "The derivative control points at each level are those of the successive derivatives of the curve. The normal at t, for lines, quadratics and cubics, has unit length, is perpendicular to the derivative and points to its left.",
 ["inputs"], "all control polygons of order 1 to 3 with a non-zero derivative, all t", "Not executed by any test.",
 [B], [("dcPoints, _derivative, normal", B)])
prop("C18", "Raising the order does not change the curve",
 "Raising the order of a curve of order n gives a curve with exactly n+2 control points whose point at every t is the original curve's point at t. The original curve is unchanged.",
 ["inputs"], "all control polygons of order 1 and up, all t", "Not executed by any test.",
 [B], [("raiseOrder", B)])
prop("C19", "Extrema are exactly the critical parameters in [0, 1]",
 "For lines, quadratics and cubics the extrema in each dimension are exactly the real parameters in [0, 1] at which the first derivative of that coordinate is zero (for cubics also the second derivative), and the combined list holds all of them once each in increasing order. No parameter outside [0, 1] and no not-a-number is ever listed.",
 ["inputs"], "all control polygons of order 1 to 3", "Not executed by any test.",
 [B, BU], [("extrema", B), ("droots, removeDuplicates", BU)])
prop("C20", "A curve's bounding box is tight",
 "The bounding box of a line, quadratic or cubic is, per dimension, the exact minimum and maximum of the coordinate over t in [0, 1]: it contains the whole curve and touches it on every side. The bounds rectangle has the same extents, two curves overlap exactly when their rectangles share a point, and a contour's and an outline's bounds are the union of their curves' bounds.",
 ["inputs"], "all control polygons of order 1 to 3, contours and outlines of any number of curves", "Not executed by any test.",
 [B], [("bbox, _getminmax, boundsRectangle, overlaps", B), ("BContour.__init__, BOutline.__init__", B)])
prop("C21", "Aligning a curve is a rigid motion onto the x axis",
 "Aligning a curve to a segment applies to all control points the one rigid motion (translation and rotation, no scaling or reflection) that puts the segment's first point at the origin and its last point on the non-negative x axis; without a segment the curve's own ends are used. The tight bounding box is the bounding box of the aligned curve moved back by the inverse motion.",
 ["inputs"], "all control polygons and all alignment segments", "Not executed by any test.",
 [B, T], [("_align, align, tightbbox", B), ("moveAndRotate, rotateAndMove", T)])
prop("C22", "Line crossings of a curve are true roots",
 "For quadratics and cubics the roots are parameters in [0, 1] (up to the 1e-6 tolerance) at which the curve meets the given line, or the x axis when none is given, and every simple crossing is reported (a cubic whose leading coefficient is at most 1e-6 in size counts as being of lower degree); lineIntersects keeps exactly those whose point lies within the segment's extents; intersectWithLine gives the curve's point at the first of the roots, or None if there is none, and for a line the point where both lines cross. Root formulas for polynomials in Bernstein form are exact.",
 ["inputs"], "all control polygons of order 2 and 3, all lines", "Not executed by any test.",
 [B, BU], [("roots, lineIntersects, intersectWithLine", B), ("droots, sqrt, crt", BU)])
prop("C23", "Arc length is the 24-point Gauss-Legendre length",
 "The length of a line, quadratic or cubic is the 24-point Gauss-Legendre quadrature of the speed over [0, 1], with each abscissa paired with its own weight and both tables correct to their printed precision. Computing it leaves the caller's decimal context as it was on every exit, including when an exception is raised.",
 ["inputs", "fault_sequences"], "all control polygons of order 1 to 3; all normal and exceptional exits", "Not executed by any test.",
 [B, BU], [("length, _arcfun", B), ("tValues, cValues", BU)], [("decimal context precision", "ambient precision, temporarily raised", B)])
prop("C24", "Offsetting moves the curve along its normals",
 "offset(t, d) returns the point at t, the unit normal there, and the point displaced by d along that normal, for every d including zero. Scaling a quadratic or cubic by a constant distance d moves its two end points by d along their normals and keeps its end tangents parallel (a quadratic, which has one inner control point for both, that of its start), each inner control point staying on the line through it and the point where the end normals meet; a curve whose end normals are parallel is refused with ValueError. Scaling by a distance function moves the ends by its values there along the normals, and the inner points, of the raised curve for a quadratic, radially by its value at i/3 and to the same side. A curve is straight when none of its control points is more than 0.0001 away from the line through its end points; offsetting a straight curve moves every control point by d along its normal; offsetting any other scales or offsets each piece it reduces to.",
 ["inputs"], "all non-degenerate curves, all distances", "Not executed by any test.",
 [B], [("offset, scale", B)])
prop("C25", "Curve direction reflects the monotonicity of y",
 "A line is flat, up or down as its end y equals, exceeds or is below its start y. A quadratic or cubic is up when the control points' y values never decrease, otherwise down when they never increase, otherwise mixed; higher orders are mixed.",
 ["inputs"], "all control polygons of order 1 and up", "Not executed by any test.",
 [B], [("_computeDirection, direction", B)])
prop("C26", "ABC construction points are consistent",
 "For quadratics and cubics, getABC(t) returns the hull at t, the construction point A and the curve point B from that hull, the ratio |(t^n+(1-t)^n-1)/(t^n+(1-t)^n)| for order n, and C as the intersection of line AB with the line through the end points.",
 ["inputs"], "all control polygons of order 2 and 3, all t", "Not executed by any test.",
 [B, BU], [("getABC", B), ("quadraticRatio, cubicRatio, lli4", BU)])
prop("C27", "Simplicity tests and reduction stay well defined and contiguous",
 "Deciding whether a curve is simple never fails because rounding pushed the cosine between the end normals past one in magnitude; a curve is simple when its end normals are less than 60 degrees apart and, for a cubic, its inner control points are not on opposite sides of the chord. Every piece produced by reducing a curve is the part of the curve between the parameters it reports, consecutive pieces share their end parameter, pieces meet at every extremum, and together they cover the curve from 0 to 1; there are no pieces at all when from some point on not even the first step is simple.",
 ["inputs"], "all quadratics and cubics with non-degenerate ends", "Not executed by any test.",
 [B], [("simple, reduce", B)])
prop("C28", "Queries never change later answers or their arguments",
 "No query on a curve, contour, outline, bounds rectangle, transform or matrix changes the answer that any later query with the same arguments gives, whatever was asked before and in whatever order. No operation modifies a point list, segment, contour or matrix that the caller passed in.",
 ["histories", "inputs"], "all sequences of queries on one object, all arguments",
 "Quantifies over call histories; tests make at most one call per object.",
 [B, U, T, CF, MI], [("lazy caches _bbox,_extrema,_length,_lut,_dcPoints,_boundsRectangle", B), ("binomialCoefficients", CF)],
 [("cached extrema lists", "lists shared between the cache and callers", B)])
prop("C29", "Editing a contour keeps its derived data in step",
 "After replacing or deleting any curve of a contour, its curves, start, end, bounds rectangle, look-up table and path string are those of a contour freshly built from the remaining curves, whatever was queried before the edit.",
 ["histories"], "all contours, all edits and all interleavings of edits with queries", "Not executed by any test; needs edit histories.",
 [B], [("BContour.__setitem__, __delitem__", B)], [("_start,_end,_bounds,_lut", "derived data", B)])
prop("C30", "A contour's path string draws the contour",
 "The path string of a contour, read by the SVG path rules, starts at the contour's start point and draws exactly its curves in order with their exact coordinates, where zero-length lines may be left out and repeated commands abbreviated.",
 ["inputs"], "all contours of lines, quadratics and cubics, coincident coordinates included", "Not executed by any test.",
 [B], [("BContour.d, pointToString", B)])
prop("C31", "The segment pen records closed, connected contours",
 "For every sequence of move, line, curve and quadratic-curve calls ended by close, the pen records one contour whose first segment starts at the moved-to point, whose every segment starts where the previous one ended, and whose last segment ends where the contour started. Zero-length lines and empty contours are dropped, and earlier contours are unaffected.",
 ["histories"], "all pen-call sequences", "The pen is not imported by any test; quantifies over call sequences.",
 [SP], [("moveTo, lineTo, curveTo, qCurveTo, closePath", SP)], [("_lastOnCurve,_contour", "current point and open contour", SP)])
prop("C32", "Quadratic splines get their implied on-curve points",
 "A quadratic call with k off-curve points and a final on-curve point records k quadratic segments using the off-curve points in order, joined at the exact midpoints of consecutive off-curve points and ending at the final point; with no off-curve point it records the line to the final point. A cubic call records the current point followed by the given points.",
 ["inputs"], "all spline lengths and coordinates", "Not executed by any test.",
 [SP], [("qCurveTo, curveTo", SP)])
prop("C33", "Components are drawn through their own transformation",
 "Adding a component appends the component glyph's contours, in order, with every point (x, y) mapped to (xx*x+yx*y+dx, xy*x+yy*y+dy) for transformation (xx, xy, yx, yy, dx, dy), also for components nested within components. The contours already recorded and the open contour are unaffected.",
 ["inputs", "histories"], "all affine transformations, glyphs and nestings", "Not executed by any test.",
 [SP, T], [("addComponent", SP)])
prop("C34", "Matrix inversion returns the inverse or None",
 "For every square matrix, inversion returns a matrix whose product with the argument is the identity when the argument is non-singular (rows needing exchange included), and None when it is singular; a non-square matrix gives None. The argument is left unchanged.",
 ["inputs"], "all square matrices, all zero patterns of pivots", "One 3x3 matrix that needs no exchange is tested.",
 [MI], [("matrixInvert", MI)])
prop("C35", "General matrix product and transpose are exact",
 "For all conformable rectangular matrices the product's (r, c) entry is the sum over k of a(r, k)*b(k, c), transposing swaps rows and columns, and the row and column accessors return that row or column. Arguments are left unchanged.",
 ["inputs"], "all shapes and entries", "One product pair and one transpose at fixed values are tested.",
 [CF], [("multiply, transpose, row, col, getPointValuesColumn", CF)])
prop("C36", "Binomials and the Bezier basis matrix are exact",
 "binomial(n, k) is n choose k for every 0 <= k <= n, whatever n was asked for before. The n x n basis matrix has, in row r and column c, the coefficient of t^r in the c-th Bernstein polynomial of degree n-1.",
 ["inputs", "histories"], "all n and k, all request orders", "Not executed by any test.",
 [CF], [("binomial, binomialCoefficients, basisMatrix", CF)], [("binomialCoefficients", "growing Pascal triangle", CF)])
prop("C37", "Curve fitting samples parameters and solves least squares",
 "Time values start at 0 and end at 1, being the cumulative chord length over the total (polygonal) or evenly spaced (uniform). The best fit for points P, basis M and times S is M^-1 (T'T)^-1 T' P in x and in y, where row i of T holds the powers of the i-th time; fitting a point list uses its own basis matrix and time values and returns points, basis, times and coefficients.",
 ["inputs"], "all point lists, both spacing modes", "Not executed by any test.",
 [CF], [("computeTimeValues, formTMatrix, raiseRowPower, bestFit, fit, dist", CF)])
prop("C38", "Colour names resolve to the standard values",
 "Every X11/SVG/CSS3 colour keyword, in any letter case, resolves to its standard red, green and blue values. A name containing a non-letter resolves to None and any other unknown name raises ValueError.",
 ["inputs"], "all strings; all 147 standard keywords", "The colour module cannot be imported by the tests.",
 [CO], [("_keywords, _forKeyword, fromName", CO)])
prop("C39", "Generated colours stay in range and advance in hue",
 "A random RGB colour draws each component independently from 0 to 255. Each HSL colour advances the current hue by 73 degrees modulo 360 from wherever it was last set and is the half-saturated, half-light colour of that hue with components scaled to 0..255.",
 ["inputs", "histories"], "all hue settings and request sequences", "The colour module cannot be imported by the tests.",
 [CO], [("randomRGBColor, randomHSLColor, setCurrentHue", CO)], [("_current_hue", "current hue", CO)])
prop("C40", "Drawing leaves the plotter's paint attributes as they were",
 "Every drawing call that takes a colour, whether filling or stroking, completes for all of its documented argument combinations, draws with the colour it was given, and restores the plotter's fill and stroke attributes and both attribute stacks to what they were before the call. Popping attributes restores exactly what the matching push saved.",
 ["inputs", "histories"], "all argument combinations and call sequences", "The plotter cannot be imported by the tests.",
 [CP], [("push/popFillAttributes, push/popStrokeAttributes, draw*", CP)], [("_fillAttributeStack,_strokeAttributeStack", "saved attributes", CP)])
prop("C41", "Plotted path data draws the given geometry",
 "The path data emitted for contours, paths, point chains and curves, read by the SVG path rules, draws exactly the given segments in order with their exact coordinates, in both the plain and the abbreviated (poly) mode and for any number of contours; zero-length lines may be left out, and a close command ends each contour when drawing contours with closing asked for. The hull of a curve is drawn level by level.",
 ["inputs", "configurations"], "all contours, both modes, any number of contours", "The plotter cannot be imported by the tests.",
 [CP], [("drawContours, drawPaths, drawPointsAsSegments, getCommand", CP)], [("_lastCommand,_pen", "last command and current point", CP)])
prop("C42", "Closest-point search returns a true contour point",
 "The distance returned by the closest-point search is the distance from the query to the returned point, the returned point lies on the contour, and it is at least as close as every sampled point of the contour and every further point the search looks at. When the samples lie a hundredth of a curve apart or more, the search also looks for closer points between the closest sample and the sample before it, and the sample after it, along the contour - also when that one lies on the next curve.",
 ["inputs"], "all contours, query points and step counts", "Not executed by any test.",
 [B], [("findClosestPoint, _findClosest, _refineBinary", B)])
prop("C43", "Curve intersections lose no crossing",
 "Intersecting two curves, or a curve with itself, subdivides every pair of their pieces for as long as the pieces' bounding boxes overlap, down to pieces whose boxes' width plus height is below the threshold, and returns the middle parameters of exactly those final pairs, each once - so every parameter pair at which the curves meet lies in a final pair that is returned. A curve is compared with itself piece by piece, leaving out only each piece itself and its direct neighbours. The threshold asked for applies at every level, whichever way the search is started; it is half a unit unless another is asked for.",
 ["inputs"], "all pairs of curves, wherever the boxes of their pieces lie, and all thresholds", "Not executed by any test.",
 [B], [("intersects, curveIntersects, pairiteration, selfIntersects, overlaps", B)])
prop("C44", "Contours and outlines hold exactly the curves they are given",
 "A contour made from segments, or from curves, holds one curve per segment in the given order with exactly the given control points, whether read through its list of curves, by index, or by iterating; it starts where its first curve starts and ends where its last one ends. An outline holds one such contour per given contour, in order, through either of its lists and by iterating, and bounds them all. Editing a contour of one outline changes no other. Building a path from a contour's curves gives the same contour; converting between points, coordinate lists and curves loses and reorders nothing. A curve's skeleton bounds are the box of its control points, extended by 40 to the right.",
 ["inputs"], "all lists of contours of any lengths and orders", "Hardly executed by any test.",
 [B], [("BContour, BOutline, unzipPoints, pathFromSegments, segmentFromPoints, skeletonBounds", B)])
prop("C45", "Marks, labels and arrows are drawn where asked",
 "Drawing points as circles, from coordinate pairs or complex numbers alike, draws exactly one circle per point in order, centred on it, in content coordinates, with the given radius, filled or stroked as asked, cycling through the given colours. Text goes to the given place with the given alignment, in margin or content coordinates as asked; an arrow runs from the start point to the end point with the given style and position. A curve's skeleton is the line through its control points, with a mark of radius 2 on each and a label 4 right and 4 below it that reads its coordinates rounded to two decimals. A new plotter is empty, covers the bounds it was given, leaves a twentieth of their width and height (in whole units) as margins, and uses labels half the top margin high.",
 ["inputs"], "all points, curves and bounds, all colour lists and modes", "The plotter engine is not installed; not executed by any test.",
 ["PathLib/ContourPlotter.py"], [("drawPointsAsCircles, drawComplexPointsAsCircles, drawText, drawSkeleton, drawHull, drawArrowBetweenPoints, __init__", "PathLib/ContourPlotter.py")])
prop("C46", "Number and list helpers return exactly what they say",
 "approximately(a, b, precision) is true exactly when a and b differ by at most the precision, 1e-6 unless another is given; between(v, m, M) exactly when v lies from m to M or within 1e-6 of either. map carries the range [ds, de] linearly onto [ts, te], also outside it and for falling ranges; lerp goes linearly from its first point at 0 to its second at 1. crt is the real cube root, of negative numbers too; sqrt is the square root, and not a number - never an exception - for negative numbers. angle(o, v1, v2) is the signed angle at o from v1 to v2, counter-clockwise positive. minMax puts the smaller of its arguments first; toMicros gives thousandths of an em; removeDuplicates keeps exactly the first of all equal entries, in order; flatten lists every segment of every contour in order.",
 ["inputs"], "all numbers, points and lists", "Hardly executed by any test.",
 [BU, "PathLib/PathUtilities.py"], [("approximately, between, map, lerp, crt, sqrt, angle, removeDuplicates", BU), ("minMax, toMicros, flatten", "PathLib/PathUtilities.py")])
prop("C47", "Rounding never makes a calculation fail",
 "Whatever rounding errors floating-point arithmetic commits, no calculation asks for an arc cosine or arc sine of a number outside -1 to 1, for a logarithm or square root of a negative number, or for a fractional power of one: values that are in range in exact arithmetic only are brought into range first, tested, or the failure is caught on the spot and turned into not-a-number.",
 ["inputs"], "all finite inputs, whatever the arithmetic rounds to", "The inputs whose rounding errors point the wrong way are rare.",
 ["PathLib"], [("simple, roots, _arcfun", B), ("sqrt, crt, angle", BU), ("dist, computeTimeValues", "PathLib/CurveFitting.py")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
