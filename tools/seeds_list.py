"""The planted changes: each with the property it breaks, the edits (file, old, new) and a demonstration."""
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks, stub=False):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, stub=stub)


seed("c01-negative-weight", "C01", [("Transform.py", "        rx = rp[0]/rp[2]\n        ry = rp[1]/rp[2]\n",
     "        w = rp[2] if rp[2] > 0 else 1\n        rx = rp[0]/w\n        ry = rp[1]/w\n")], '''
from PathLib.Transform import Transform
t = Transform.perspective(p=0.5, q=0.25, s=-10)
x, y = t.applyToPoint((4, 8))
w = 0.5 * 4 + 0.25 * 8 - 10
assert abs(x - 4 / w) < 1e-12 and abs(y - 8 / w) < 1e-12, (x, y)
''', "a perspective matrix and a point whose homogeneous weight is negative", "points behind the vanishing line are not divided by their weight")

seed("c02-long-chain", "C02", [("Transform.py", "        concatenation = matrices[0]\n        for matrix in matrices[1:]:\n            concatenation = Transform.multiplyMatrixByMatrix(concatenation, matrix)\n",
     "        concatenation = matrices[0]\n        rest = matrices[1:]\n        if len(rest) > 2:\n            rest = (rest[0], Transform.concatenateMatrices(*rest[:0:-1]))\n        for matrix in rest:\n            concatenation = Transform.multiplyMatrixByMatrix(concatenation, matrix)\n")], '''
from PathLib.Transform import Transform
ms = [Transform._translateMatrix((0, 0), (3, 4)), Transform._scaleMatrix(2, 3), Transform._shearMatrix(1, 2), Transform._translateMatrix((0, 0), (-1, 7)), Transform._rotationMatrix(90)]
p = (5, 6)
for m in ms:
    p = Transform(m).applyToPoint(p)
q = Transform(*ms).applyToPoint((5, 6))
assert abs(p[0] - q[0]) < 1e-9 and abs(p[1] - q[1]) < 1e-9, (p, q)
''', "four or more matrices that do not commute", "the tail of a long chain is multiplied in the wrong order")

seed("c03-both-axes", "C03", [("Transform.py", "        d = -1 if xAxis else 1\n", "        d = -1 if xAxis and not yAxis else 1\n")], '''
from PathLib.Transform import Transform
assert Transform.mirror(xAxis=True).applyToPoint((3, 4)) == (3, -4)
assert Transform.mirror(xAxis=True, yAxis=True).applyToPoint((3, 4)) == (-3, -4)
''', "mirroring in both axes at once", "y is not negated when both axes are given")

seed("c04-large-clockwise", "C04", [("Transform.py", "        st = Transform.sin(degrees)  # sin(theta)\n        ct = Transform.cos(degrees)  # cos(theta)\n",
     "        if not ccw: degrees = 360 - degrees\n        st = Transform.sin(degrees % 180)  # sin(theta)\n        ct = Transform.cos(degrees)  # cos(theta)\n        if not ccw: st = -st\n")], '''
import math
from PathLib.Transform import Transform
for a in (30, 90, 135, 200, 270, -45):
    for ccw in (True, False):
        s = math.radians(a if ccw else -a)
        x, y = Transform.rotation(a, ccw).applyToPoint((2, 1))
        assert abs(x - (2 * math.cos(s) - math.sin(s))) < 1e-9 and abs(y - (2 * math.sin(s) + math.cos(s))) < 1e-9, (a, ccw)
''', "an angle outside 0..180 degrees", "the sine of a reduced angle is used, so larger rotations become reflections")

seed("c05-mirror-both", "C05", [("Transform.py", "        if yAxis:\n            tx = cx\n", "        elif yAxis:\n            tx = cx\n")], '''
from PathLib.Transform import Transform
t = Transform.mirrorAround((10, 20), xAxis=True, yAxis=True)
assert t.applyToPoint((10, 20)) == (10, 20), t.applyToPoint((10, 20))
assert t.applyToPoint((13, 24)) == (7, 16)
''', "mirroring around a centre off the y axis in both axes", "the centre is not a fixed point")

seed("c06-off-curve-points", "C06", [("PathUtilities.py", "            bounds = bounds.union(BoundsRectangle(*segment))\n", "            if segment: bounds = bounds.union(BoundsRectangle(segment[0], *segment[2:]))\n")], '''
from PathLib.PathUtilities import BoundsRectangle
b = BoundsRectangle.fromContour([[(0, 0), (5, 9), (10, 0)], [(10, 0), (0, 0)]])
assert b.points == (0, 0, 10, 9), b.points
''', "a contour with a curve whose first off-curve point sticks out", "the second point of each segment is left out")

seed("c07-touching", "C07", [("PathUtilities.py", "        if newRight < newLeft or newTop < newBottom: return None  # maybe want <=, >=?\n", "        if newRight < newLeft or newTop <= newBottom: return None\n")], '''
from PathLib.PathUtilities import BoundsRectangle
a = BoundsRectangle((0, 0), (10, 10))
b = BoundsRectangle((2, 10), (6, 20))
r = a.intersection(b)
assert r is not None and r.points == (2, 10, 6, 10)
''', "rectangles that share only a horizontal edge, or one without height", "their intersection is None")

seed("c08-top-edge", "C08", [("PathUtilities.py", "        return self.bottom <= y <= self.top\n", "        return self.bottom <= y < self.top\n")], '''
from PathLib.PathUtilities import BoundsRectangle
b = BoundsRectangle((0, 0), (10, 20))
assert b.crossesY(20) and b.crossesY(0) and not b.crossesY(20.5)
''', "a coordinate exactly at the top edge", "the extent is treated as half open")

seed("c09-fraction", "C09", [("PathUtilities.py", "        return self.left + self.width * percent\n", "        return self.left + self.height * percent\n")], '''
from PathLib.PathUtilities import BoundsRectangle
assert BoundsRectangle((0, 0), (10, 10)).xFromLeft(0.5) == 5
assert BoundsRectangle((0, 0), (20, 10)).xFromLeft(0.5) == 10
''', "a rectangle that is not a square", "the height is used for a horizontal position")

seed("c10-nearly-vertical", "C10", [("PathUtilities.py", "    if dx == 0: return math.inf\n    return dy / dx\n", "    if abs(dx) < 1e-9: return math.inf\n    return dy / dx\n")], '''
import math
from PathLib.PathUtilities import slope
assert slope([(0, 0), (0, 5)]) == math.inf
assert slope([(0, 0), (1e-10, 1e-10)]) == 1
''', "a segment with a tiny but non-zero run", "its slope is infinite")

seed("c11-nearly-parallel", "C11", [("BezierUtilities.py", "    if d == 0: return None\n\n    return (nx / d, ny / d)\n", "    if approximately(d, 0): return None\n\n    return (nx / d, ny / d)\n")], '''
from PathLib.BezierUtilities import lli
from PathLib.PathUtilities import intersectionPoint
l1, l2 = [(0, 0), (2 ** -12, 2 ** -12)], [(0, 2 ** -12), (2 ** -12, 0)]
assert lli(l1, l2) == (2 ** -13, 2 ** -13)
assert intersectionPoint(l1, l2) == (2 ** -13, 2 ** -13)
assert lli([(0, 0), (1, 1)], [(0, 1), (1, 2)]) is None
''', "short or nearly parallel lines", "lines that do meet are called parallel")

seed("c12-degenerate-bounds", "C12", [("PathUtilities.py", "    dx, dy = getDeltas(segment)\n    return len(segment) == 2 and dx !=0 and dy != 0\n", "    dx, dy = getDeltas(segment)\n    return len(segment) == 2 and dx !=0 and dy != 0\n\ndef _extents(line):\n    if isDiagonalLine(line): return BoundsRectangle(*line)\n    (x0, y0), (x1, y1) = line[0], line[-1]\n    return BoundsRectangle((min(x0, x1), min(y0, y1)), (x1, y1))\n"),
     ("PathUtilities.py", "    bounds = BoundsRectangle(*line)\n\n    # If the bounds rectangle of the line", "    bounds = _extents(line)\n\n    # If the bounds rectangle of the line")], '''
from PathLib.PathUtilities import pointOnLine
assert pointOnLine((5, 0), [(0, 0), (10, 0)])
assert pointOnLine((5, 0), [(10, 0), (0, 0)])
''', "a horizontal or vertical segment given from right to left or from top to bottom", "points on it, its start included, are not found")

seed("c13-shared-buffer", "C13", [("Bezier.py", "            dcPoints: list[Point] = [pt for pt in p]\n            while len(dcPoints) > 1:\n                newPoints: list[Point] = []\n                for i in range(len(dcPoints) - 1):\n                    x0, y0 = dcPoints[i]\n                    x1, y1 = dcPoints[i + 1]\n                    nx = x0 + (x1 - x0) * t\n                    ny = y0 + (y1 - y0) * t\n                    newPoints.append((nx, ny))\n                dcPoints = newPoints\n            return dcPoints[0]\n",
     "            dcPoints: list[Point] = [pt for pt in p]\n            for n in range(self.order, 1, -1):\n                for i in range(n):\n                    x0, y0 = dcPoints[i]\n                    x1, y1 = dcPoints[i + 1]\n                    dcPoints[i] = (x0 + (x1 - x0) * t, y0 + (y1 - y0) * t)\n            return dcPoints[0]\n")], '''
from math import comb
from PathLib.Bezier import Bezier
p = [(0, 0), (1, 5), (3, -2), (6, 7), (9, 1)]
b = Bezier(p)
for t in (0, 0.25, 0.5, 0.75, 1):
    x, y = b.get(t)
    wx, wy = (sum(comb(4, i) * t ** i * (1 - t) ** (4 - i) * q[k] for i, q in enumerate(p)) for k in (0, 1))
    assert abs(x - wx) < 1e-9 and abs(y - wy) < 1e-9, t
''', "a curve of order four or more away from its ends", "one de Casteljau level is left out")

seed("c14-longer-table", "C14", [("Bezier.py", "        if len(self._lut) == steps: return self._lut\n", "        if len(self._lut) >= steps: return self._lut[:steps]\n")], '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (5, 10), (10, 0)])
b.getLUT(9)
assert b.getLUT(5) == Bezier([(0, 0), (5, 10), (10, 0)]).getLUT(5)
assert b.getLUT(5)[-1] == (10, 0)
''', "asking for a shorter table after a longer one", "the first points of the longer table are returned")

seed("c15-coincident-hull", "C15", [("Bezier.py", "                q.append(pt)\n                _p.append(pt)\n", "                if pt != p[i] or i == 0: q.append(pt)\n                _p.append(pt)\n")], '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (4, 8), (4, 8), (10, 0)])
l, r, h = b.split(0.5)
assert len(h) == 10
for t in (0.25, 0.5, 0.75):
    x, y = l.get(t)
    wx, wy = b.get(t / 2)
    assert abs(x - wx) < 1e-9 and abs(y - wy) < 1e-9
''', "neighbouring control points that coincide", "the hull misses entries and the halves get the wrong points")

seed("c16-piece-of-piece", "C16", [("Bezier.py", "        left._t2 = butils.map(t1, 0, 1, self._t1, self._t2)\n        right._t1 = butils.map(t1, 0, 1, self._t1, self._t2)\n",
     "        left._t2 = right._t1 = self._t1 + t1 * self._t2\n")], '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (4, 8), (10, 0)])
left, right, _ = b.split(0.5)
a, c, _ = right.split(0.5)
assert (a._t1, a._t2, c._t1, c._t2) == (0.5, 0.75, 0.75, 1)
''', "splitting a piece that does not start at 0", "the parameter interval reported is not the part covered")

seed("c17-second-derivative", "C17", [("Bezier.py", "                c = d - 1\n", "                c = self.order\n")], '''
from PathLib.Bezier import Bezier
d = Bezier([(0, 0), (1, 2), (4, 3), (9, 0)]).dcPoints
assert [len(x) for x in d] == [3, 2, 1]
assert d[0] == [(3, 6), (9, 3), (15, -9)], d
assert d[1] == [(12, -6), (12, -24)], d
''', "derivatives of second or higher level", "they are scaled by the order of the curve rather than of the level")

seed("c18-weights", "C18", [("Bezier.py", "            x = ((k - i) / k) * pix + (i / k) * pimx\n", "            x = pix + round(i / k, 3) * (pimx - pix)\n")], '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (300, 600), (900, 0)])
r = b.raiseOrder()
for t in (0.25, 0.5, 0.75):
    assert abs(b.get(t)[0] - r.get(t)[0]) < 1e-6 and abs(b.get(t)[1] - r.get(t)[1]) < 1e-6
''', "an order whose weights are not exact in three decimals", "the raised curve deviates in x")

seed("c19-endpoint-extrema", "C19", [("Bezier.py", "                result[dim] = list(filter(lambda t: t >= 0 and t <= 1, result[dim]))\n", "                result[dim] = list(filter(lambda t: 0 < t <= 1, result[dim]))\n")], '''
from PathLib.Bezier import Bezier
e = Bezier([(0, 0), (0, 5), (10, 20)]).extrema
assert e[0] == [0] and 0 in e[2], e
''', "a derivative that is zero exactly at the start", "that extremum is missing")

seed("c19-linear-derivative", "C19", [("BezierUtilities.py", "            return [(2 * b - c) / (2 * (b - c))]\n", "            return [(2 * b - a) / (2 * (b - a))]\n")], '''
from PathLib.BezierUtilities import droots
from PathLib.Bezier import Bezier
# derivative 1 - 4t in x
r = droots([1, -1, -3])
assert len(r) == 1 and abs(r[0] - 0.25) < 1e-12, r
''', "a cubic whose second derivative in a coordinate is constant", "the root of the linear derivative is wrong")

seed("c20-descending", "C20", [("Bezier.py", "            if c[d] < min: min = c[d]\n            if c[d] > max: max = c[d]\n", "            if c[d] < min: min = c[d]\n            elif c[d] > max: max = c[d]\n")], '''
from PathLib.Bezier import Bezier
assert Bezier([(10, 10), (4, 5), (0, 0)]).bbox == {0: (0, 10), 1: (0, 10)}
assert Bezier([(0, 0), (4, 5), (10, 10)]).bbox == {0: (0, 10), 1: (0, 10)}
''', "a coordinate that is greatest at the start of the curve", "the maximum is not recorded")

seed("c21-own-start", "C21", [("Bezier.py", "        transform = Transform.moveAndRotate(segment[0], (0, 0), -angle)\n", "        transform = Transform.moveAndRotate(points[0], (0, 0), -angle)\n")], '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (4, 8), (10, 0)]).align([(3, 1), (3, 9)])
for (x, y), (wx, wy) in zip(b.controlPoints, [(-1, 3), (7, -1), (-1, -7)]):
    assert abs(x - wx) < 1e-9 and abs(y - wy) < 1e-9, b.controlPoints
''', "aligning to a segment that does not start at the curve's start", "the segment's start is not moved to the origin")

seed("c22-lost-root", "C22", [("Bezier.py", "            x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3\n", "            x3 = t1 * math.cos((phi - 2 * butils.tau) / 3) - a / 3\n")], '''
from PathLib.Bezier import Bezier
r = sorted(Bezier([(0, -3), (1, 5), (2, -5), (3, 3)]).roots())
assert len(r) == 3 and r[1] - r[0] > 0.1 and r[2] - r[1] > 0.1, r
''', "a cubic that crosses the line three times", "one crossing is reported twice and another is lost")

seed("c23-digit", "C23", [("BezierUtilities.py", '    Decimal("-0.8864155270044010342131543419821967550873"),\n    Decimal("0.8864155270044010342131543419821967550873"),\n', '    Decimal("-0.8864155270044010342131543419821967550873"),\n    Decimal("0.8864155270044010342131545319821967550873"),\n')], '''
from decimal import Decimal
from PathLib.BezierUtilities import tValues
from PathLib.Bezier import Bezier
assert len({t.copy_abs() for t in tValues}) == 12
''', "more than 25 significant digits", "one abscissa of the quadrature is off by two swapped digits")

seed("c24-distance-function", "C24", [("Bezier.py", "            rc = distanceFn((t + 1) / order) if distanceFn else typing.cast(float, d)\n", "            rc = distanceFn(t) if distanceFn else typing.cast(float, d)\n")], '''
import math
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (20, 60), (80, 60), (100, 0)])
f = lambda v: 1 + 9 * v
s = b.scale(f)
for i in (1, 2):
    (x, y), (px, py) = s.controlPoints[i], b.controlPoints[i]
    assert abs(math.hypot(x - px, y - py) - f(i / 3)) < 1e-9, i
''', "scaling by a distance function that is not constant", "inner control points move by the distances of the ends")

seed("c25-ties", "C25", [("Bezier.py", "            if p0y >= p1y >= p2y:\n                return Bezier.dir_down\n", "            if p0y > p1y > p2y:\n                return Bezier.dir_down\n")], '''
from PathLib.Bezier import Bezier
assert Bezier([(0, 10), (5, 10), (10, 0)]).direction == Bezier.dir_down
assert Bezier([(0, 10), (5, 5), (10, 0)]).direction == Bezier.dir_down
''', "a falling quadratic with two control points at the same height", "its direction is mixed")

seed("c26-ratio-sign", "C26", [("BezierUtilities.py", "    top = bottom - 1\n    return abs(top / bottom)\n", "    top = bottom - 1\n    return top / bottom\n")], '''
from PathLib.Bezier import Bezier
a, b, c, ratio, hull = Bezier([(0, 0), (2, 6), (8, 6), (10, 0)]).getABC(0.25)
assert ratio > 0, ratio
''', "a cubic and a parameter strictly inside (0, 1)", "the ratio is negative")

seed("c27-last-piece", "C27", [("Bezier.py", "                segment = p1.split(t1, 1)\n                segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)\n                segment._t2 = p1._t2\n", "                segment = p1.split(t1, 1)\n                segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)\n                segment._t2 = pass1[-1]._t2\n")], '''
from PathLib.Bezier import Bezier
ps = Bezier([(0, 0), (20, 160), (70, -90), (100, 40)]).reduce()
assert len(ps) > 2
for p, q in zip(ps, ps[1:]):
    assert abs(p._t2 - q._t1) < 1e-9, (p._t2, q._t1)
''', "a curve with extrema inside, so that it is first split there", "the last piece before an extremum reports that it extends to the end of the curve")

seed("c28-shared-rectangle", "C28", [("Bezier.py", "        sbounds = PathUtilities.BoundsRectangle.fromContour([self.controlPoints])\n        sbounds.right += 40\n", "        sbounds = self.boundsRectangle.union(PathUtilities.BoundsRectangle(*self.controlPoints)) if self.order > 1 else self.boundsRectangle\n        sbounds.right += 40\n")], '''
from PathLib.Bezier import Bezier
b = Bezier([(0, 0), (10, 5)])
before = b.boundsRectangle.points
b.skeletonBounds
assert b.boundsRectangle.points == before, b.boundsRectangle.points
''', "asking a line for its skeleton bounds and then for its bounds", "the cached bounds rectangle grows with every query")

seed("c28-binomials", "C28", [("CurveFitting.py", "        nextRow = [1]\n        prev = len(lut) - 1\n        for i in range(1, len(lut)):\n            nextRow.append(lut[prev][i-1] + lut[prev][i])\n        nextRow.append(1)\n        lut.append(nextRow)\n",
     "        nextRow = lut[-1]\n        for i in range(len(nextRow) - 1, 0, -1):\n            nextRow[i] += nextRow[i - 1]\n        nextRow.append(1)\n        lut.append(nextRow)\n")], '''
from math import comb
from PathLib.CurveFitting import binomial
assert [binomial(6, k) for k in range(7)] == [comb(6, k) for k in range(7)]
assert [binomial(8, k) for k in range(9)] == [comb(8, k) for k in range(9)]
assert [binomial(6, k) for k in range(7)] == [comb(6, k) for k in range(7)]
''', "asking for a row of the table after a row beyond its end", "extending the table overwrites its last row")

seed("c29-in-place", "C29", [("Bezier.py", "        self._beziers[index] = Bezier(value)\n", "        bezier = self._beziers[index]\n        if len(value) == len(bezier.controlPoints):\n            bezier._controlPoints = value\n            bezier._dcPoints = bezier._extrema = bezier._length = None\n            bezier._bbox = bezier._boundsRectangle = None\n        else:\n            self._beziers[index] = Bezier(value)\n")], '''
from PathLib.Bezier import BContour
c = BContour([[(0, 0), (5, 10), (10, 0)], [(10, 0), (0, 0)]])
c.getLUT(5)
new = [(0, 0), (5, 30), (10, 0)]
c[0] = new
assert c.getLUT(5) == BContour([new, [(10, 0), (0, 0)]]).getLUT(5)
''', "a table of the same length asked for before replacing a curve by one of the same order", "the replaced curve keeps its old look-up table")

seed("c30-pen-after-curve", "C30", [("Bezier.py", '                    commands.append(f"{command}{p1} {p2}")\n                    pen = segment[2]\n            elif len(segment) == 4:\n                p1 = self.pointToString(segment[1])\n', '                    commands.append(f"{command}{p1} {p2}")\n            elif len(segment) == 4:\n                p1 = self.pointToString(segment[1])\n')], '''
from PathLib.Bezier import BContour
d = BContour([[(0, 0), (5, 10), (10, 5)], [(10, 5), (0, 8)], [(0, 8), (0, 0)]]).d()
assert d == "M0,0Q5,10 10,5L0,8V0", d
''', "a line after a quadratic that ends where an axis-parallel line would come from the pen's stale position", "a diagonal line is drawn as a vertical one")

seed("c31-almost-closed", "C31", [("SegmentPen.py", "            if self._contour[0][0] != self._contour[-1][-1]:\n", "            if max(abs(a - b) for a, b in zip(self._contour[0][0], self._contour[-1][-1])) > 1:\n")], '''
import logging
from PathLib.SegmentPen import SegmentPen
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.lineTo((10, 0)); p.lineTo((10, 10)); p.lineTo((0, 1)); p.closePath()
assert p.contours[0][-1][-1] == (0, 0), p.contours
''', "a contour that ends within one unit of its start", "it is left open")

seed("c31-second-contour", "C31", [("SegmentPen.py", "        self._contour: list[list[Point]] = []\n        self._segment: list[Point] = []\n", "        if not hasattr(self, \"_contour\"): self._contour: list[list[Point]] = []\n        self._contour.clear()\n        self._segment: list[Point] = []\n"),
     ("SegmentPen.py", "                self._contour.append([self._contour[-1][-1], self._contour[0][0]])\n            self._contour = []\n", "                self._contour.append([self._contour[-1][-1], self._contour[0][0]])\n")], '''
import logging
from PathLib.SegmentPen import SegmentPen
p = SegmentPen({}, logging.getLogger("x"))
for o in (0, 100):
    p.moveTo((o, 0)); p.lineTo((o + 10, 0)); p.lineTo((o, 10)); p.closePath()
assert [len(c) for c in p.contours] == [3, 3], p.contours
assert p.contours[0][0][0] == (0, 0)
''', "two contours drawn one after the other", "the list of the first contour is reused for the second")

seed("c32-integer-midpoint", "C32", [("SegmentPen.py", "                impliedPoint = (0.5 * (p1x + p2x), 0.5 * (p1y + p2y))\n", "                impliedPoint = ((p1x + p2x) // 2, (p1y + p2y) // 2)\n")], '''
import logging
from PathLib.SegmentPen import SegmentPen
p = SegmentPen({}, logging.getLogger("x"))
p.moveTo((0, 0)); p.qCurveTo((10, 5), (15, 20), (30, 0)); p.closePath()
assert p.contours[0][0][-1] == (12.5, 12.5), p.contours
''', "off-curve points whose coordinates sum to an odd number", "implied points are rounded down")

seed("c33-swapped", "C33", [("SegmentPen.py", "            xScale, xyScale, yxScale, yScale, xOffset, yOffset = transformation\n", "            xScale, yxScale, xyScale, yScale, xOffset, yOffset = transformation\n")], '''
import logging
from PathLib.SegmentPen import SegmentPen
class G:
    def draw(self, pen):
        pen.moveTo((1, 2)); pen.lineTo((5, 2)); pen.lineTo((1, 7)); pen.closePath()
p = SegmentPen({"g": G()}, logging.getLogger("x"))
p.addComponent("g", (0, 1, -1, 0, 10, 20))
assert p.contours[0][0][0] == (-2 + 10, 1 + 20), p.contours
''', "a component transformation that is not symmetric, such as a rotation", "components turn the other way")

seed("c34-last-row", "C34", [("MatrixInversion.py", "            for ii in range(i+1, n):\n", "            for ii in range(i+1, n-1):\n")], '''
from PathLib.MatrixInversion import matrixInvert
assert matrixInvert([[0, 1], [1, 0]]) == [[0, 1], [1, 0]]
''', "a zero pivot that only an exchange with the last row repairs", "an invertible matrix is called singular")

seed("c34-row-exchange", "C34", [("MatrixInversion.py", "                        e = I[i][j]  # temp store i'th row\n                        I[i][j] = I[ii][j]  # replace i'th row by ii'th\n                        I[ii][j] = e  # replace ii'th by temp\n",
     "                    I[i], I[i + 1] = I[i + 1], I[i]\n")], '''
from PathLib.MatrixInversion import matrixInvert
from PathLib.CurveFitting import multiply
for m in ([[0, 2, 1], [1, 1, 0], [3, 0, 1]], [[0, 1, 2], [0, 3, 1], [2, 1, 1]]):
    p = multiply(m, matrixInvert(m))
    for r in range(3):
        for c in range(3):
            assert abs(p[r][c] - (r == c)) < 1e-9, p
''', "a zero pivot repaired by a row that is not the next one", "the wrong rows of the identity are exchanged")

seed("c35-tall-transpose", "C35", [("CurveFitting.py", "        for row in range(len(m)):\n            tc.append(m[row][column])\n", "        for row in range(min(len(m), len(m[0]))):\n            tc.append(m[row][column])\n")], '''
from PathLib.CurveFitting import transpose
assert transpose([[1, 2], [3, 4], [5, 6]]) == [[1, 3, 5], [2, 4, 6]]
''', "a matrix with more rows than columns", "the rows beyond the number of columns are lost")

seed("c36-table-growth", "C36", [("CurveFitting.py", "    lut = binomialCoefficients\n    while n >= len(lut):\n        nextRow = [1]\n        prev = len(lut) - 1\n        for i in range(1, len(lut)):\n", "    lut = binomialCoefficients\n    prev = len(lut) - 1\n    while n >= len(lut):\n        nextRow = [1]\n        for i in range(1, prev + 1):\n")], '''
from math import comb
from PathLib.CurveFitting import binomial
assert binomial(9, 4) == comb(9, 4), binomial(9, 4)
''', "asking for a row at least two beyond the table without asking for the one between", "rows computed in one go repeat the sums of the last row")

seed("c37-chord", "C37", [("CurveFitting.py", "            d.append(d[i-1] + dist(p[i-1], p[i]))\n", "            d.append(max(d[i-1], dist(p[0], p[i])))\n")], '''
from PathLib.CurveFitting import computeTimeValues
assert computeTimeValues([(0, 0), (3, 4), (6, 8)]) == [0, 0.5, 1]
s = computeTimeValues([(0, 0), (3, 4), (6, 0), (12, 8)])
assert all(abs(a - b) < 1e-12 for a, b in zip(s, [0, 0.25, 0.5, 1])), s
''', "points that are not on one line", "distances from the first point are used for the chord length")

seed("c38-colour", "C38", [("Color.py", "        'seashell': (255, 245, 238),\n", "        'seashell': (255, 245, 228),\n")], '''
from PathLib.Color import Color
c = Color.fromName("SeaShell")
assert (c.red, c.green, c.blue) == (255, 245, 238), vars(c)
''', "the colour seashell", "its blue component is wrong", stub=True)

seed("c39-hue", "C39", [("Color.py", "        cls._current_hue = (cls._current_hue + 73) % 360\n", "        cls._current_hue += 73\n        if cls._current_hue > 360: cls._current_hue -= 361\n")], '''
from PathLib.Color import Color
def after(hue):
    Color.setCurrentHue(hue)
    return vars(Color.randomHSLColor())
assert after(100) == after(100 + 360)
assert after(300) == after(300 - 360), (after(300), after(-60))
''', "a hue close enough to 360 for the step to wrap", "hues after the wrap are one degree off", stub=True)

seed("c40-dash", "C40", [("ContourPlotter.py", "        self.setStrokeOpacity(opacity)\n        self.setStrokeDash(dash)\n", "        self.setStrokeOpacity(opacity)\n        if dash: self.setStrokeDash(dash)\n")], '''
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100))
dash = p._strokeDash
p.drawArrowBetweenPoints((0, 0), (10, 10))
assert p._strokeDash == dash
''', "drawing an arrow while no dash pattern is set", "the arrow's dash pattern stays in force", stub=True)

seed("c41-returning-chain", "C41", [("ContourPlotter.py", '            commands.append(f"{command}{self.pointToString(point)}")\n            self._pen = (x, y)\n            command = " "\n', '            commands.append(f"{command}{self.pointToString(point)}")\n            command = " "\n')], '''
import re
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100))
p.drawPointsAsSegments([(0, 0), (10, 0), (10, 10), (0, 0), (5, 20)])
assert "M0,0L10,0 10,10 0,0 5,20" in p._content[-1], p._content[-1]
''', "a chain of points that returns to its first point", "the returning segment is left out", stub=True)

seed("c41-poly-pen", "C41", [("ContourPlotter.py", "                        self._pen = segment[3]\n", "                        self._pen = segment[3] if not self._poly else segment[2]\n")], '''
from PathLib.ContourPlotter import ContourPlotter
for poly in (False, True):
    p = ContourPlotter((0, 0, 100, 100), poly)
    p.drawContours([[[(0, 0), (0, 5), (5, 9), (10, 5)], [(10, 5), (5, 0)], [(5, 0), (0, 0)]]])
    assert "M0,0C0,5 5,9 10,5L5,0H0" in p._content[-1], p._content[-1]
''', "abbreviated mode and a line after a cubic that ends below or beside its last control point", "a diagonal line is drawn as an axis-parallel one", stub=True)

seed("c42-manhattan", "C42", [("Bezier.py", "                dist = math.hypot(nx - px, ny - py)\n", "                dist = abs(nx - px) + abs(ny - py)\n")], '''
import math
from PathLib.Bezier import BContour
c = BContour([[(0, 0), (30, 90), (100, 0)], [(100, 0), (0, 0)]])
for q in [(x, y) for x in range(0, 101, 5) for y in range(0, 61, 5)]:
    d, p = c.findClosestPoint(q, 5)
    assert abs(d - math.hypot(p[0] - q[0], p[1] - q[1])) < 1e-9, q
    assert d <= min(math.hypot(x - q[0], y - q[1]) for x, y in c.getLUT(5)) + 1e-9, q
''', "a refined point that is not straight above or beside the query", "the distance returned is not the Euclidean one")

seed("c43-first-only", "C43", [("Bezier.py", "            if len(result) > 0:\n                intersections.extend(result)\n", "            for pair in result:\n                if not any(abs(pair[0] - other[0]) < intersectionThreshold for other in intersections):\n                    intersections.append(pair)\n")], '''
from PathLib.Bezier import Bezier
a = Bezier([(0, 0), (50, 200), (100, 0)])
b = Bezier([(0, 80), (50, 81), (100, 80)])
r = a.intersects(b)
ts = sorted(t for t, _ in r)
assert ts and ts[0] < 0.4 and ts[-1] > 0.6, ts
''', "two crossings whose parameters on the first curve are closer than the threshold, which is a length", "all but one of them are lost")

seed("c24-straight-side", "C24", [("Bezier.py", "if abs(x[1]) > 0.0001]) == 0", "if x[1] > 0.0001]) == 0")], '''
from PathLib.Bezier import Bezier
for h in (30, -30):
    b = Bezier([(0, 0), (50, h), (100, 0)])
    for c in b.offset(2):
        for i in range(11):
            x, y = c.get(i / 10)
            d = min(((x - p[0]) ** 2 + (y - p[1]) ** 2) ** 0.5 for p in (b.get(j / 1000) for j in range(1001)))
            assert abs(d - 2) < 0.1, (h, d)
''', "a curve that bends to one particular side of its base line", "it counts as straight and its offset keeps its shape")

seed("c44-closed-segment", "C44", [("Bezier.py", "        for segment in contour:\n            bezier = Bezier(segment)\n", "        for segment in [s for i, s in enumerate(contour) if i == 0 or s[0] != s[-1]]:\n            bezier = Bezier(segment)\n")], '''
from PathLib.Bezier import BOutline
loop = [(10, 0), (40, 40), (-20, 40), (10, 0)]
o = BOutline([[[(0, 0), (10, 0)], loop, [(10, 0), (20, 0)]]])
assert [b.controlPoints for b in o.contours[0]] == [[(0, 0), (10, 0)], loop, [(10, 0), (20, 0)]]
''', "a segment in the middle of a contour that returns to its own start", "the loop is dropped along with zero-length segments")

seed("c44-shared-contours", "C44", [("Bezier.py", "        for contour in contours:\n            bc = BContour(contour)\n", "        made: dict[int, BContour] = {}\n        for contour in contours:\n            bc = made.setdefault(len(contour), BContour(contour)) if contour in contours[:len(bContours)] else BContour(contour)\n            made[len(contour)] = bc\n")], '''
from PathLib.Bezier import BOutline
c = [[(0, 0), (10, 0)], [(10, 0), (0, 0)]]
e = [[(0, 0), (7, 3)], [(7, 3), (0, 0)]]
o = BOutline([c, e, c])
assert [[b.controlPoints for b in x] for x in o] == [c, e, c]
''', "the same contour twice in an outline with another of the same length in between", "the repeated contour is replaced by the one in between")

seed("c45-repeated-point", "C45", [("ContourPlotter.py", "        i = 0\n        for point in points:\n            x, y = getXY(point)\n", "        i = 0\n        for point in [p for j, p in enumerate(points) if j == 0 or p != points[j - 1]]:\n            x, y = getXY(point)\n")], '''
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 100, 100))
p.drawPointsAsCircles([(1, 2), (1, 2), (3, 4)], 2, ["red", "green", "blue"])
assert [(x[2], x[1]) for x in p._content] == [((1, 2), "fill='red'"), ((1, 2), "fill='green'"), ((3, 4), "fill='blue'")], p._content
''', "a point that coincides with the one before it", "it gets no mark and the colours shift", stub=True)

seed("c45-label", "C45", [("ContourPlotter.py", 'f"({round(x, 2)}, {round(y, 2)})"', 'f"({round(x, 2):g}, {round(y, 2):g})"')], '''
from PathLib.Bezier import Bezier
from PathLib.ContourPlotter import ContourPlotter
p = ContourPlotter((0, 0, 20000, 20000))
p.drawSkeleton(Bezier([(1, 2), (12345.678, 20)]))
assert [x[3] for x in p._content if x[0] == "label"] == ["(1, 2)", "(12345.68, 20)"], p._content
''', "coordinates with more than six significant digits", "the label loses the decimals", stub=True)

seed("c47-angle-acos", "C47", [("BezierUtilities.py", "    return math.atan2(cross, dot)\n", "    size = math.hypot(dx1, dy1) * math.hypot(dx2, dy2)\n    if size == 0: return 0.0\n\n    return math.copysign(math.acos(dot / size), cross)\n")], '''
from PathLib.Bezier import Bezier
from PathLib import BezierUtilities as butils
for x in range(-9, 10):
    for y in range(1, 10):
        for k in range(1, 9):
            assert abs(butils.angle((0, 0), (x, y), (k * x, k * y))) < 1e-6
            Bezier([(0, 0), (x, y), (k * x, k * y), (10 * x, 10 * y)]).simple()
''', "collinear points whose normalised scalar product rounds to more than 1", "acos raises a ValueError")

seed("c47-dist-expanded", "C47", [("CurveFitting.py", "    dx = p1x - p2x\n    dy = p1y - p2y\n\n    return math.hypot(dx, dy)\n", "    inner = p1x * p2x + p1y * p2y\n\n    return math.sqrt(p1x * p1x + p1y * p1y + p2x * p2x + p2y * p2y - 2 * inner)\n")], '''
from PathLib.CurveFitting import dist
for i in range(1, 200):
    for j in range(1, 20):
        p = (i / 7, j / 3)
        assert abs(dist(p, (p[0] + 1e-9, p[1]))) < 1e-5
        assert abs(dist(p, p)) < 1e-5
''', "two points that (almost) coincide, far from the origin", "the sum of squares rounds below zero and sqrt raises a ValueError")

seed("c46-between-upper", "C46", [("BezierUtilities.py", "    return m <= v <= M or (approximately(v, m) or approximately(v, M))\n", "    return m <= v <= M or approximately(v, m if v < m else M, epsilon * max(1, abs(M)))\n")], '''
from PathLib.BezierUtilities import between
for m, M in ((0, 1), (0, 500), (-300, 300), (10, 20)):
    assert between(m, m, M) and between(M, m, M) and between((m + M) / 2, m, M)
    assert between(M + 5e-7, m, M) and between(m - 5e-7, m, M)
    assert not between(M + 2e-6, m, M) and not between(m - 2e-6, m, M), (m, M)
''', "an upper end far from zero and a value just outside the range", "the tolerance grows with the upper end")

seed("c46-duplicates-apart", "C46", [("BezierUtilities.py", "        if l.index(v) == i:\n", "        if not result or v not in result[-2:]:\n")], '''
from PathLib.BezierUtilities import removeDuplicates
assert removeDuplicates([1, 2, 1, 2]) == [1, 2]
assert removeDuplicates([1, 2, 3, 1]) == [1, 2, 3]
''', "equal entries more than two entries apart", "the later one stays")
