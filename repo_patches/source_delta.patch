From 6a9902d3bcdf5a5070266d83629b1157ddbeb94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 01/17] fix: bounds rectangles of far-away points and unions of
 empty rectangles

The empty rectangle used +-32768 as its initial extents, so points beyond
that range were not bounded correctly, and the union of two empty
rectangles was a huge non-empty one.
---
 PathLib/PathUtilities.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 898bbaf..d646971 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -32,8 +32,8 @@ class BoundsRectangle(object):
 
         Returns an empty rectangle if the list is empty.
         """
-        right = top = -32768
-        left = bottom = 32768
+        right = top = -math.inf
+        left = bottom = math.inf
 
         for point in points:
             px, py = point
@@ -170,7 +170,14 @@ class BoundsRectangle(object):
         newRight = max(self.right, other.right)
         newBottom = min(self.bottom, other.bottom)
 
-        return BoundsRectangle((newLeft, newBottom), (newRight, newTop))
+        # don't make this from points: that isn't
+        # the identity when both rectangles are empty
+        union = BoundsRectangle()
+        union.left = newLeft
+        union.right = newRight
+        union.top = newTop
+        union.bottom = newBottom
+        return union
 
     def intersection(self, other: BoundsRectangle) -> typing.Optional[BoundsRectangle]:
         """\
-- 
2.43.0


From df95afe7ea85eedc0a18ddedeb9b679b7272686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 02/17] fix: pointOnLine for the starting point of a line

The slope from the start of the line to itself is infinite, so the start
of any non-vertical line was reported as not being on the line. Compare
directions with a cross product instead.
---
 PathLib/PathUtilities.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index d646971..c39c9e1 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -317,9 +317,12 @@ def pointOnLine(point: Point, line: typing.Sequence[Point]):
     bounds = BoundsRectangle(*line)
 
     # If the bounds rectangle of the line encloses the point and
-    # a line from the start of the given line to the point has the
-    # same slope as the line, it is on the line.
-    return bounds.enclosesPoint(point) and slope(line) == slope([line[0], point])
+    # a line from the start of the given line to the point is
+    # parallel to the line, it is on the line.
+    ldx, ldy = getDeltas(line)
+    pdx, pdy = getDeltas([line[0], point])
+
+    return bounds.enclosesPoint(point) and ldx * pdy == ldy * pdx
 
 
 def rotatePointAbout(point: Point, about: Point, degrees: float = 90, ccw: bool = True):
-- 
2.43.0


From 6d28089e0737ea274512073570c2a5de1b1af7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 03/17] fix: don't modify the cached extrema

Asking for bbox, boundsRectangle or reduce() inserted 0 and 1 into the
extrema that the extrema property returns afterwards.
---
 PathLib/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 770e6d0..ac790eb 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -217,6 +217,8 @@ class Bezier(object):
         min = +9007199254740991  # Number.MAX_SAFE_INTEGER
         max = -9007199254740991  # Number.MIN_SAFE_INTEGER
 
+        # the list belongs to the cached extrema, so use a copy
+        list = list[:]
         if 0 not in list: list.insert(0, 0)
         if 1 not in list: list.append(1)
 
@@ -571,7 +573,8 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2]
+        # (a copy, because the list belongs to the cached extrema)
+        extrema = self.extrema[2][:]
         if not 0 in extrema: extrema.insert(0, 0)
         if not 1 in extrema: extrema.append(1)
 
-- 
2.43.0


From 02775c1090a75f3984f6f71ebfe947be7cf83fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 04/17] fix: bounding box of curves with very large coordinates

---
 PathLib/Bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index ac790eb..f9858f2 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -214,8 +214,8 @@ class Bezier(object):
 
     def _getminmax(self, d: int, list: list[float]) -> tuple[float, float]:
         # if (!list) return { min: 0, max: 0 };
-        min = +9007199254740991  # Number.MAX_SAFE_INTEGER
-        max = -9007199254740991  # Number.MIN_SAFE_INTEGER
+        min = +math.inf
+        max = -math.inf
 
         # the list belongs to the cached extrema, so use a copy
         list = list[:]
-- 
2.43.0


From 012b78e85930bbff6fd90296609009be1acfd9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 05/17] fix: derivative and split of linear curves

normal(), length, offset() and split() raised IndexError for a line.
---
 PathLib/Bezier.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index f9858f2..e31af71 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -175,7 +175,12 @@ class Bezier(object):
         p = self.dcPoints[0]
         mt = 1 - t
 
-        if self.order == 2:
+        if self.order == 1:
+            p = [p[0], (0, 0), (0, 0)]
+            a = 1
+            b = 0
+            c = 0
+        elif self.order == 2:
             p = [p[0], p[1], (0, 0)]
             a = mt
             b = t
@@ -436,7 +441,10 @@ class Bezier(object):
 
         # no shortcut: use "de Casteljau" iteration.
         q = self.hull(t1)
-        if self.order == 2:
+        if self.order == 1:
+            left = Bezier([q[0], q[2]])
+            right = Bezier([q[2], q[1]])
+        elif self.order == 2:
             left = Bezier([q[0], q[3], q[5]])
             right = Bezier([q[5], q[4], q[2]])
         else:
-- 
2.43.0


From e5409d36e4ad31635a511fa28b452cf0e7f92626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 06/17] fix: restore the decimal context when computing length
 fails

An exception while computing the length left the precision of the
caller's decimal context changed.
---
 PathLib/Bezier.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index e31af71..ad0cf91 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -14,7 +14,7 @@ import typing
 
 import math
 import types
-from decimal import Decimal, getcontext
+from decimal import Decimal, localcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
 
@@ -417,13 +417,14 @@ class Bezier(object):
             z = Decimal(0.5)
             sum = Decimal(0)
 
-            getcontext().prec += 2
-            for i in range(len(butils.tValues)):
-                t = butils.tValues[i].fma(z, z)
-                sum = butils.cValues[i].fma(self._arcfun(t), sum)
+            with localcontext() as context:
+                context.prec += 2
+                for i in range(len(butils.tValues)):
+                    t = butils.tValues[i].fma(z, z)
+                    sum = butils.cValues[i].fma(self._arcfun(t), sum)
+
+                length = z * sum
 
-            length = z * sum
-            getcontext().prec -= 2
             self._length = +length
 
         return self._length
-- 
2.43.0


From 49cb1fb1392a48ecabe355127698977fd59b561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 07/17] fix: raiseOrder raises the order by one

It duplicated the start point, so it raised the order by two and
produced a different curve.
---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index ad0cf91..6c69be0 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -739,7 +739,7 @@ class Bezier(object):
         p = self.controlPoints
         k = len(p)
         np = [p[0]]
-        for i in range(k):
+        for i in range(1, k):
             pix, piy = p[i]
             pimx, pimy = p[i - 1]
             x = ((k - i) / k) * pix + (i / k) * pimx
-- 
2.43.0


From d0b91638cb5a646b7aa0905a659a989aef0d699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 08/17] fix: offset of a point by a zero distance

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 6c69be0..d2572bb 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -755,7 +755,7 @@ class Bezier(object):
     def offset(self, t: float, d: float) -> list[Point]: ...
 
     def offset(self, t: float, d: typing.Optional[float] = None) -> typing.Union[list[Point], list[Bezier]]:
-        if d:
+        if d is not None:
             cx, cy = c = self.get(t)
             nx, ny = n = self.normal(t)
             px = cx + nx * d
-- 
2.43.0


From c3bd01f1988f8dc9a408449d0a6e6323b6dc376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 09/17] fix: scale() used the algorithm for distance functions
 for constant distances

and the other way around, so the offset curve for a constant distance
was not parallel to the original at its ends.
---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index d2572bb..20de143 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -800,7 +800,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if isinstance(d, types.FunctionType):
+        if not isinstance(d, types.FunctionType):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From e32851a8079298a4d4774853d5de66b43cd353e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 10/17] fix: simple() for curves whose end normals are parallel

The dot product of the normals can be slightly larger than one.
---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 20de143..6f55b37 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -574,7 +574,8 @@ class Bezier(object):
 
         n1x, n1y = self.normal(0)
         n2x, n2y = self.normal(1)
-        s = n1x * n2x + n1y * n2y
+        # rounding can take this just outside of acos' domain
+        s = max(-1, min(1, n1x * n2x + n1y * n2y))
         return abs(math.acos(s)) < math.pi / 3
 
     def reduce(self) -> list[Bezier]:
-- 
2.43.0


From e1f900a70cf74d2db14d6dedde96c6d3a20ad21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 11/17] fix: getLUT of a contour returned the look-up table for
 other steps

The length of a contour's look-up table isn't the number of steps if
there's more than one curve.
---
 PathLib/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 6f55b37..655b6f4 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -841,6 +841,7 @@ class BContour(object):
         self._beziers = beziers
         self._bounds = bounds
         self._lut: list[Point] = []
+        self._lutSteps = 0
         self._start = beziers[0].start
         self._end = beziers[-1].end
 
@@ -863,9 +864,10 @@ class BContour(object):
         return self._beziers.__iter__()
 
     def getLUT(self, steps: int = 100):
-        if len(self._lut) == steps: return self._lut
+        if self._lutSteps == steps: return self._lut
 
         self._lut = []
+        self._lutSteps = steps
         startPoint = 0
         for curve in self._beziers:
             self._lut.extend(curve.getLUT(steps)[startPoint:])
-- 
2.43.0


From 1d30d87766814b47904c58f5217cf64bece75bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 12/17] fix: bounds and look-up table of a contour after
 changing it

---
 PathLib/Bezier.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 655b6f4..f165eef 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -850,16 +850,25 @@ class BContour(object):
 
     def __setitem__(self, index: int, value: typing.Sequence[Point]):
         self._beziers[index] = Bezier(value)
-        # self._length = None
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        self._beziersChanged()
 
     def __delitem__(self, index: int):
         del self._beziers[index]
+        self._beziersChanged()
+
+    def _beziersChanged(self):
         # self._length = None
+        self._lut = []
+        self._lutSteps = 0
         self._start = self._beziers[0].start
         self._end = self._beziers[-1].end
 
+        bounds = PathUtilities.BoundsRectangle()
+        for bezier in self._beziers:
+            bounds = bounds.union(bezier.boundsRectangle)
+
+        self._bounds = bounds
+
     def __iter__(self):
         return self._beziers.__iter__()
 
-- 
2.43.0


From f461e7e117a9b1e1be46e56ee279d9c6d5a54bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 13/17] fix: findClosestPoint with fine look-up tables and on
 later curves

With a fine look-up table nothing was refined, and (0, 0) was returned.
For all curves but the first, the index of the closest point was off by
one.
---
 PathLib/Bezier.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index f165eef..d2968a5 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -889,7 +889,7 @@ class BContour(object):
     @classmethod
     def _findClosest(cls, point: Point, LUT: typing.Sequence[Point]) -> int:
         x, y = point
-        closest = MAX_SAFE_INTEGER
+        closest = math.inf
         i = -1
 
         for index in range(len(LUT)):
@@ -903,8 +903,9 @@ class BContour(object):
 
     @classmethod
     def _refineBinary(cls, point: Point, curve: Bezier, lut: typing.Sequence[Point], i: int):
-        closest = MAX_SAFE_INTEGER
+        closest = math.inf
         steps = len(lut)
+        start = lut[i]
         tt = [t / (steps - 1) for t in range(steps)]
         px, py = point
         q: Point = (0, 0)
@@ -939,6 +940,13 @@ class BContour(object):
             lut = new_lut
             tt = new_tt
 
+        # refining may not have found anything closer,
+        # or lut may be too fine to need refining
+        sx, sy = start
+        dist = math.hypot(sx - px, sy - py)
+        if dist <= closest:
+            return (start, dist)
+
         return (q, closest)
 
     def findClosestPoint(self, point: Point, steps: int):
@@ -955,7 +963,8 @@ class BContour(object):
             ix = i // s1 + 1
             curve = self.beziers[ix]
             if ix < nCurves - 1: curve2 = self.beziers[ix + 1]
-            i %= s1
+            # the first point of the curve isn't in the contour's look-up table
+            i = i % s1 + 1
 
         lut = curve.getLUT(steps)
         cip, closest = self._refineBinary(point, curve, lut, i)
-- 
2.43.0


From 48a179029ed7c472ed306006c217b276e1a9096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 14/17] fix: filled contours and paths in ContourPlotter

pushFillAttributes() doesn't have a fill parameter, so drawing filled
contours or paths always failed.
---
 PathLib/ContourPlotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index ae6a3b1..446e606 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -74,7 +74,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawContours(self, contours, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
         elif color:
             self.pushStrokeAttributes(color=color)
             # self._strokeWidth = 2
@@ -136,7 +136,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawPaths(self, paths, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
             attributes = self._fillAttributes()
         else:
             if color:
-- 
2.43.0


From 6b37d6fb44ec0ab5532d64461f5e94a0fe5d8d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 15/17] fix: restore colors and dash after drawing circles and
 arrows

Drawing filled circles left the fill color changed, and drawing an arrow
left the stroke color and dash changed.
---
 PathLib/ContourPlotter.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 446e606..fa965ad 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -234,7 +234,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -251,12 +251,16 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, x, y, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawComplexPointsAsCircles(self, points, radius, colors=None, fill=True):
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -272,7 +276,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, point.real, point.imag, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawCurve(self, segment, color=None):
         self.drawContours([[segment]], color=color, fill=False, close=False)
@@ -313,14 +321,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
         if lineColor: self.popStrokeAtributes()
 
     def drawArrowBetweenPoints(self, startPoint, endPoint, color=None, style="open60", position="end"):
-        if color:
-            self._strokeColor = color
-
-        self.setStrokeDash("2, 1")
+        self.pushStrokeAttributes(color=color, dash="2, 1")
         startX, startY = startPoint
         endX, endY = endPoint
         self.drawArrow(GlyphPlotterEngine.CoordinateSystem.content, startX, startY, endX, endY, style, position)
-        self.setStrokeDash(None)
+        self.popStrokeAtributes()
 
 # def test():
 #     import PathUtilities
-- 
2.43.0


From 6e88b048aa6d4f7da8484ff9819c213598e8a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 16/17] fix: don't abbreviate the first command of a path

A command can only be left out if the command before it is the same,
but the first one in a path comes after a M.
---
 PathLib/ContourPlotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index fa965ad..4510cae 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -85,6 +85,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 firstPoint = contour[0][0]
                 self.moveToXY(*firstPoint)
                 commands.append(f"M{self.pointToString(firstPoint)}")
+                self._lastCommand = ""
 
                 for segment in contour:
                     if len(segment) == 2:
@@ -151,6 +152,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
             firstPoint = path.start
             self.moveToXY(*path.pointXY(firstPoint))
             commands.append(f"M{pointToString(firstPoint)}")
+            self._lastCommand = ""
 
             for curve in path:
                 segment = curve.controlPoints
-- 
2.43.0


From 706a0e4bfeaae87430e69a971705c775aefdd7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 17/17] fix: crossings of cubics with a small discriminant

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index d2968a5..b116c13 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -543,7 +543,7 @@ class Bezier(object):
             x2 = t1 * math.cos((phi + butils.tau) / 3) - a / 3
             x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3
             return list(filter(reduce, [x1, x2, x3]))
-        elif butils.approximately(discriminant, 0):  # discriminant == 0:
+        elif discriminant == 0:
             u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
             x1 = 2 * u1 - a / 3
             x2 = -u1 - a / 3
-- 
2.43.0

