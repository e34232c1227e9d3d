"""C28: queries do not influence one another and leave their arguments alone."""
from ..h import *
from .transform import minimum
from .curves import BZ, BC, BO, bezier, cps
from .curves2 import cubic1, quad1, from_roots, points2, pos, Q, TRUE, HALF

BR = "PathLib.PathUtilities.BoundsRectangle"
TR = "PathLib.Transform.Transform"


def picture(c, v, depth=0):
    """what a caller can see of a value, detached from the objects behind it"""
    if isinstance(v, Choice):
        return Choice(tuple((g, picture(c, x, depth)) for g, x in v.alts))
    if depth > 8:
        return v
    if isinstance(v, Tup):
        return Tup([picture(c, x, depth + 1) for x in v.items])
    if isinstance(v, Ref):
        o = v.o
        if isinstance(o, (ListObj, IterObj)):
            return Ref(ListObj([[g, picture(c, x, depth + 1)] for g, x in o.ents]))
        if isinstance(o, DictObj):
            return Ref(DictObj({k: [g, kv, picture(c, x, depth + 1)] for k, (g, kv, x) in o.ents.items()}))
        if isinstance(o, Inst):
            n = o.cls.name
            names = {"Bezier": ("controlPoints", "_t1", "_t2"), "BContour": ("beziers",), "BOutline": ("bContours",),
                     "BoundsRectangle": ("left", "bottom", "right", "top"), "Transform": ("transform",)}.get(n)
            if names:
                return Tup([string(n)] + [picture(c, c.it.getattr(v, x), depth + 1) for x in names])
    return v


STANDIN = {2: [(0, 0), (5, 0)], 3: [(0, 0), (1, 2), (5, -1)], 4: [(0, 0), (1, 2), (3, -1), (5, 1)]}


class Steady:
    """summaries that depend on their arguments only"""

    def __init__(self, c, index=None):
        self.index = {} if index is None else index
        self.c = c

    def name(self, what, v):
        def key(x):
            if isinstance(x, Num):
                return x.r
            if isinstance(x, Tup):
                return tuple(key(y) for y in x.items)
            if isinstance(x, list):
                return tuple(key(y) for y in x)
            if isinstance(x, Choice):
                return tuple((g, key(y)) for g, y in x.alts)
            return repr(x)
        k = (what, key(v))
        return sym("%s%d" % (what, self.index.setdefault(k, len(self.index))))

    def install(self):
        c = self.c

        def in_init(it):
            return it.frames and it.frames[-1].func is not None and it.frames[-1].func.qual == BZ + ".__init__"

        def aligned(it, f, args, kw):
            if not in_init(it):
                # some fixed curve stands for the aligned one: what matters is that the answer does not depend on what was asked before
                n = len(it.entries(args[0]))
                return lst([Tup([num(x), num(y)]) for x, y in STANDIN[n]]) if n in STANDIN else NotImplemented
            ps = [snapshot(x) for _, x in it.entries(args[0])]
            y = self.name("aligned", ps)
            return lst([Tup([y, y]) for _ in ps])

        def angle(it, f, args, kw):
            return self.name("angle", [snapshot(x) for x in args])

        def direct(it, f, args, kw):
            return self.name("direction", [snapshot(x) for _, x in it.entries(it.getattr(args[0], "_controlPoints"))])
        c.it.overrides[BZ + "._align"] = aligned
        c.it.overrides["PathLib.BezierUtilities.angle"] = angle
        c.it.overrides[BZ + "._computeDirection"] = direct


def answer(c, o, q):
    """(guard under which it returns, picture of the answer) of a query; exceptions are part of the answer"""
    c.it.live = c.assume
    c.it.exc = [[]]
    try:
        v = q(c, o)
        out = (c.it.live, picture(c, v))
    except Dead:
        out = (F, NONE)
    c.it.live = c.assume
    c.it.exc = [[]]
    return out


def compare(c, key, got, want):
    c.true(key + ": returns", NOT(bdd.XOR(got[0], want[0])))
    c.eq(key, got[1], want[1], g=AND(got[0], want[0]))


def independent(c, make, queries, label="", triples=True, longs=True):
    """queries: name -> f(c, object).  Each query's answer on a fresh object, then after every query that writes to the object"""
    fresh, slots = {}, {}
    for qn, q in queries.items():
        o = make()
        protect(o, "the object")
        c.it.writes = []
        fresh[qn] = answer(c, o, q)
        slots[qn] = frozenset((id(w[1]) == id(getattr(o, "o", None)) and w[2] or "inside: %s" % (w[2],)) for w in c.it.writes if bdd.feasible(w[0]))
        c.it.writes = []
    c.ck.notes["queries writing to their object" + label] = sorted(qn for qn in queries if slots[qn])

    def replay(seq):
        o = make()
        for i, qn in enumerate(seq):
            got = answer(c, o, queries[qn])
            if i or len(seq) == 1:
                compare(c, "%s after %s" % (qn, ", ".join(seq[:i])), got, fresh[qn])
            if c.vio:
                return
    writers = [qn for qn in queries if slots[qn]]
    for a in writers:
        for b in queries:
            replay([a, b])
            if c.vio:
                return
    # one representative for every set of slots written, in threes
    reps, seen = [], set()
    for a in writers:
        if slots[a] not in seen or "table" in a:
            seen.add(slots[a])
            reps.append(a)
    if triples:
        for a in reps:
            for b in reps:
                if a != b:
                    replay([a, b, a])
                    if c.vio:
                        return
    if longs:
        names = list(queries)
        replay(names + names[::-1] + names)


def state(c, modules):
    """mutable objects that outlive a call: module and class attributes, default arguments"""
    out, seen = [], set()

    def visit(name, v, depth=0):
        if isinstance(v, Choice):
            for _, x in v.alts:
                visit(name, x, depth)
        elif isinstance(v, Ref) and isinstance(v.o, (ListObj, DictObj)):
            if id(v.o) not in seen:
                seen.add(id(v.o))
                out.append((name, v))
        elif isinstance(v, Func):
            if id(v) in seen:
                return
            seen.add(id(v))
            for d in list(v.defaults or ()) + list((v.kwdefaults or {}).values()):
                if d is not None:
                    visit(name + " default", d, depth)
        elif isinstance(v, (interp.Cls,)) and depth < 3:
            if id(v) in seen:
                return
            seen.add(id(v))
            for n, x in v.attrs.items():
                visit(name + "." + n, x, depth + 1)
        elif isinstance(v, interp.Prop):
            for n in ("fget", "get", "f"):
                if hasattr(v, n) and getattr(v, n) is not None:
                    visit(name, getattr(v, n), depth)
    for m in modules:
        for n, v in c.mod(m).ns.items():
            visit(m + "." + n, v)
    return out


def save(v):
    o = v.o
    if isinstance(o, ListObj):
        return [[g, save(x) if isinstance(x, Ref) and isinstance(x.o, (ListObj, DictObj)) else x] + ([x] if isinstance(x, Ref) else []) for g, x in o.ents]
    return {k: list(e) for k, e in o.ents.items()}


def restore(v, s):
    o = v.o
    if isinstance(o, ListObj):
        o.ents[:] = [[e[0], e[2] if len(e) > 2 else e[1]] for e in s]
        for e in s:
            if len(e) > 2 and isinstance(e[1], list):
                restore(e[2], e[1])
    else:
        o.ents.clear()
        o.ents.update({k: list(e) for k, e in s.items()})


def curve(c, k, inner):
    """control points with all extrema inside (0, 1), in known order, or with none there"""
    x0, y0 = r(sym("x0")), r(sym("y0"))
    if k == 1:
        return pts(2)
    m, n = pos("m"), pos("n")
    a, w, b = (Q(1, 5), Q(2, 5), Q(1, 2)) if inner else (Q(3, 2), RONE, Q(-2))
    if k == 2:
        return points2(quad1(x0, -m * a, m * (RONE - a)), quad1(y0, -n * b, n * (RONE - b)))
    return points2(cubic1(x0, *from_roots(m, a, a + w)), cubic1(y0, -n * b, n * (HALF - b), n * (RONE - b)))


def curve_queries(k):
    A = lambda n: (lambda c, o: c.attr(o, n))
    M = lambda n, *a: (lambda c, o: c.meth(o, n, *[x(c) if callable(x) else x for x in a]))
    line = lambda c: Tup([P("la"), P("lb")])
    other = lambda c: bezier(c, pts(2, "o"))
    q = {n: A(n) for n in ("start", "end", "startX", "startY", "endX", "endY", "midpoint", "order", "direction", "controlPoints", "dcPoints", "extrema", "bbox",
                           "boundsRectangle", "skeletonBounds", "tightbbox", "length")}
    q.update({"get(t)": M("get", sym("t")), "get(1/2)": M("get", num(Fraction(1, 2))), "normal(t)": M("normal", sym("t")), "hull": M("hull", num(Fraction(1, 4))),
              "table of 3": M("getLUT", num(3)), "table of 4": M("getLUT", num(4)), "split(t)": M("split", num(Fraction(1, 3))),
              "split(t1, t2)": M("split", num(Fraction(1, 4)), num(Fraction(3, 4))), "align()": M("align"), "align(segment)": M("align", line),
              "simple()": M("simple"), "overlaps": M("overlaps", other), "offset(t, d)": M("offset", num(Fraction(1, 4)), sym("d")),
              "raiseOrder()": M("raiseOrder"), "tangent": M("_derivative", sym("t"))})
    if k > 1:
        q.update({"reduce()": M("reduce"), "roots(line)": M("roots", line), "lineIntersects": M("lineIntersects", line), "getABC": M("getABC", num(Fraction(1, 3))),
                  "offset(d)": M("offset", sym("d")), "intersectWithLine": M("intersectWithLine", other)})
    return q


@minimum(150)
def c28(ck):
    """every pair (and, per object, one long sequence) of queries on one abstract object: the second answer is compared as a value graph with the
    answer of a fresh object, so that any write to a cache, a shared list or a caller's argument that a later query can see is a difference;
    curves, contours, outlines, rectangles, transforms, matrices and the binomial table, also two objects side by side"""
    for k, inner in ((1, True), (2, True), (2, False), (3, True), (3, False)):
        def curves(c, k=k, inner=inner):
            Steady(c).install()
            c.it.overrides[BZ + ".simple"] = lambda it, f, args, kw: BoolV(F)
            ps = curve(c, k, inner)
            independent(c, lambda: bezier(c, ps), curve_queries(k), " (order %d)" % k)
        ck.run("curve of order %d, extrema %s" % (k, "inside" if inner else "outside"), curves)

    for k in (1, 2, 3):
        apart, index = {}, {}

        def pair(c, k):
            """two curves with the same start"""
            a = curve(c, k, True)
            d = pt(r(sym("ex")), r(sym("ey")))
            x0, y0 = xy(a[0])
            b = [a[0]] + [pt(xy(p)[0] * 2 - x0, xy(p)[1] * 3 - y0 * 2) for p in a[1:]] if k > 1 else [a[0], d]
            return a, b

        def alone(c, k=k, apart=apart, index=index):
            Steady(c, index).install()
            c.it.overrides[BZ + ".simple"] = lambda it, f, args, kw: BoolV(F)
            _, b = pair(c, k)
            qs = curve_queries(k)
            for qn in qs:
                apart[qn] = answer(c, bezier(c, b), qs[qn])
            c.ob("normal form")

        def together(c, k=k, apart=apart, index=index):
            Steady(c, index).install()
            c.it.overrides[BZ + ".simple"] = lambda it, f, args, kw: BoolV(F)
            a, b = pair(c, k)
            qs = curve_queries(k)
            x, y = bezier(c, a), bezier(c, b)
            for qn in qs:
                answer(c, x, qs[qn])
                compare(c, "%s of another curve" % qn, answer(c, y, qs[qn]), apart[qn])
                if c.vio:
                    return
            for qn in qs:
                compare(c, "%s of another curve after all queries" % qn, answer(c, bezier(c, b), qs[qn]), apart[qn])
                if c.vio:
                    return
        ck.run("second curve of order %d alone" % k, alone)
        ck.run("second curve of order %d after queries on the first" % k, together)

    def pieces(c):
        """reduction that goes all the way"""
        Steady(c).install()
        c.it.overrides[BZ + ".simple"] = lambda it, f, args, kw: BoolV(T)
        ps = curve(c, 2, True)
        qs = curve_queries(2)
        independent(c, lambda: bezier(c, ps), {n: qs[n] for n in ("extrema", "reduce()", "offset(d)", "bbox")}, " (reduced)", triples=False, longs=ck.thorough)
    ck.run("reduction", pieces)

    A = lambda n: (lambda c, o: c.attr(o, n))
    M = lambda n, *a, **k: (lambda c, o: c.meth(o, n, *[x(c) if callable(x) else x for x in a], **k))

    def item(i, f):
        return lambda c, o: f(c, c.meth(o, "__getitem__", num(i)))

    def contours(c):
        Steady(c).install()
        ps = curve(c, 2, True)
        line = [ps[-1], P("e")]
        qs = {n: A(n) for n in ("boundsRectangle", "start", "end", "beziers")}
        qs.update({"table of 3": M("getLUT", num(3)), "table of 4": M("getLUT", num(4)), "table of 5": M("getLUT", num(5)), "d()": M("d"), "d(rel)": M("d", rel=TRUE),
                   "d(S and T)": M("d", useSandT=TRUE), "d(closed)": M("d", use_closed_attrib=TRUE), "iteration": M("__iter__"), "first curve": M("__getitem__", num(0)),
                   "bounds of the first curve": item(0, A("boundsRectangle")), "extrema of the first curve": item(0, A("extrema")),
                   "table of 3 of the first curve": item(0, M("getLUT", num(3))), "table of 5 of the last curve": item(-1, M("getLUT", num(5))),
                   "length of the first curve": item(0, A("length"))})
        independent(c, lambda: c.call(BC, lst([lst(ps), lst(line)])), qs, " (contour)")
    ck.run("contour", contours)

    def outlines(c):
        Steady(c).install()
        ps = curve(c, 2, True)
        first = lambda f: (lambda c, o: f(c, c.it.entries(c.attr(o, "contours"))[0][1]))
        qs = {n: A(n) for n in ("boundsRectangle", "contours", "bContours")}
        qs.update({"iteration": M("__iter__"), "path of the first contour": first(M("d")), "table of the first contour": first(M("getLUT", num(3))),
                   "bounds of the first contour": first(A("boundsRectangle")),
                   "bounds of the first curve": first(item(0, A("boundsRectangle"))), "extrema of the first curve": first(item(0, A("extrema")))})
        independent(c, lambda: c.call(BO, lst([lst([lst(ps)]), lst([lst(pts(2, "o"))])])), qs, " (outline)")
    ck.run("outline", outlines)

    def rectangles(c):
        other = lambda c: c.call(BR, *pts(2, "o"))
        qs = {n: A(n) for n in ("left", "bottom", "right", "top", "width", "height", "area", "diagonal", "contour", "centerPoint", "points")}
        qs.update({"yFromBottom": M("yFromBottom", sym("p")), "xFromLeft": M("xFromLeft", sym("p")), "enclosesPoint": M("enclosesPoint", P("q")),
                   "encloses": M("encloses", other), "crossesX": M("crossesX", sym("p")), "crossesY": M("crossesY", sym("p")), "union": M("union", other),
                   "intersection": M("intersection", other), "relationTo": M("relationTo", other), "__str__": M("__str__")})
        mk = lambda: c.call(BR, *pts(2))
        independent(c, mk, qs, " (rectangle)")
        a, b = mk(), c.call(BR, *pts(2, "o"))
        protect(a, "the rectangle")
        protect(b, "the other rectangle")
        c.it.writes = []
        for m in ("union", "intersection", "encloses", "relationTo"):
            c.meth(a, m, b)
            unmutated(c, m + " leaves both rectangles alone")
    ck.run("bounds rectangle", rectangles)

    def transforms(c):
        e = [[sym("m%d%d" % (i, j)) for j in range(3)] for i in range(3)]
        seg = lambda: lst(pts(2, "s"))
        one = lambda f: (lambda c: f())
        qs = {"transform": A("transform"), "point": M("applyToPoint", P("p")), "segment": M("applyToSegment", one(seg)), "contour": M("applyToContour", one(lambda: lst([seg()]))),
              "contours": M("applyToContours", one(lambda: lst([lst([seg()])])))}
        independent(c, lambda: c.call(TR, lst([lst(row) for row in e])), qs, " (transform)")
        # a transform made from another's matrix does not share it in a way that queries show
        independent(c, lambda: c.call(TR, lst([lst(row) for row in e]), lst([lst(row) for row in e])), qs, " (product)")
    ck.run("transform", transforms)

    MODS = ["PathLib.CurveFitting", "PathLib.BezierUtilities", "PathLib.PathUtilities", "PathLib.Transform", "PathLib.MatrixInversion", "PathLib.Bezier"]
    CF, BU, PU = "PathLib.CurveFitting.", "PathLib.BezierUtilities.", "PathLib.PathUtilities."

    def library(c):
        """functions: what one call leaves behind in modules, classes and default arguments does not change another's answer"""
        st = state(c, MODS)
        saved = [(v, save(v)) for _, v in st]
        c.ck.notes["state outliving a call"] = [n for n, _ in st]

        def make():
            for v, s in saved:
                restore(v, s)
            return Tup([v for _, v in st])
        C = lambda f, *a: (lambda c, o: c.call(f, *[x() if callable(x) else x for x in a]))
        n = lambda *xs: (lambda: lst([num(x) for x in xs]))
        mat = lambda k, t: (lambda: lst([lst([sym("%s%d%d" % (t, i, j)) for j in range(k)]) for i in range(k)]))
        seg = lambda t="s": (lambda: lst(pts(2, t)))
        qs = {}
        for a, b in ((0, 0), (1, 0), (4, 2), (6, 3), (7, 2), (8, 4), (9, 1)):
            qs["binomial(%d, %d)" % (a, b)] = C(CF + "binomial", num(a), num(b))
        for a in (2, 3, 9):
            qs["basisMatrix(%d)" % a] = C(CF + "basisMatrix", num(a))
        qs.update({"transpose": C(CF + "transpose", mat(2, "a")), "multiply": C(CF + "multiply", mat(2, "a"), mat(2, "b")), "formTMatrix": C(CF + "formTMatrix", n(0, 1, 2)),
                   "computeTimeValues": C(CF + "computeTimeValues", seg()), "inverse": C("PathLib.MatrixInversion.matrixInvert", mat(2, "a")),
                   "inverse of another": C("PathLib.MatrixInversion.matrixInvert", lambda: lst([lst([num(1), num(2)]), lst([num(3), num(5)])])),
                   "droots": C(BU + "droots", n(1, -1, 2)), "removeDuplicates": C(BU + "removeDuplicates", n(1, 1, 2)), "angle": C(BU + "angle", P("a"), P("b"), P("c")),
                   "lli": C(BU + "lli", seg("s"), seg("u")), "intersectionPoint": C(PU + "intersectionPoint", seg("s"), seg("u")), "midpoint": C(PU + "midpoint", seg()),
                   "pointOnLine": C(PU + "pointOnLine", P("p"), seg()), "slope": C(PU + "slopeAngle", seg()), "rotate": C(PU + "rotateSegmentAbout", seg(), P("p")),
                   "bounds": C(PU + "BoundsRectangle.fromContour", lambda: lst([seg()()])), "no points": C(BR),
                   "identity": lambda c, o: c.attr(c.call(TR), "transform"), "scale": lambda c, o: c.attr(c.call(TR + ".scale", num(2), num(3)), "transform"),
                   "rotation": lambda c, o: c.attr(c.call(TR + ".rotation", num(90)), "transform")})
        independent(c, make, qs, " (functions)")
    ck.run("functions", library)

    def arguments(c):
        """nothing a caller passes in is modified"""
        Steady(c).install()
        seg = lambda t="s", n=2: lst(pts(n, t))
        cont = lambda t="s": lst([seg(t), lst([pts(2, t)[1], P(t + "9")])])
        mat = lambda k, t="a": lst([lst([sym("%s%d%d" % (t, i, j)) for j in range(k)]) for i in range(k)])
        rows = lst([lst([num(x) for x in row]) for row in ((0, 2, 1), (1, 1, 0), (3, 0, 1))])
        t = c.call(TR, mat(3))
        calls = {"curve": (BZ, lst(curve(c, 3, True))), "contour": (BC, cont()), "outline": (BO, lst([cont()])), "fromContour": (BR + ".fromContour", cont()),
                 "fromCoutours": (BR + ".fromCoutours", lst([cont()])), "transform": (TR, mat(3), mat(3, "b")), "concatenateMatrices": (TR + ".concatenateMatrices", mat(3), mat(3, "b")),
                 "multiplyMatrixByMatrix": (TR + ".multiplyMatrixByMatrix", mat(3), mat(3, "b")), "multiplyRowByMatrix": (TR + ".multiplyRowByMatrix", lst([sym("u"), sym("v"), sym("w")]), mat(3)),
                 "applyToPoint": (c.it.getattr(t, "applyToPoint"), P("p")), "applyToSegment": (c.it.getattr(t, "applyToSegment"), seg()),
                 "applyToContour": (c.it.getattr(t, "applyToContour"), cont()), "applyToContours": (c.it.getattr(t, "applyToContours"), lst([cont()])),
                 "flatten": (PU + "flatten", lst([cont()])), "transpose": (CF + "transpose", mat(3)), "multiply": (CF + "multiply", mat(2), mat(2, "b")),
                 "inverse": ("PathLib.MatrixInversion.matrixInvert", rows), "inverse of 2 x 2": ("PathLib.MatrixInversion.matrixInvert", mat(2)),
                 "formTMatrix": (CF + "formTMatrix", lst([sym("u"), sym("v"), sym("w")])), "computeTimeValues": (CF + "computeTimeValues", seg("s", 3)),
                 "bestFit": (CF + "bestFit", seg("s", 2), lst([lst([num(1), num(0)]), lst([num(-1), num(1)])]), lst([num(0), num(1)])),
                 "fit": (CF + "fit", seg("s", 2)), "getPointValuesColumn": (CF + "getPointValuesColumn", seg(), num(0)), "raiseRowPower": (CF + "raiseRowPower", lst([sym("u"), sym("v")]), num(2)),
                 "droots": (BU + "droots", lst([sym("u"), sym("v"), sym("w")])), "removeDuplicates": (BU + "removeDuplicates", lst([sym("u"), sym("v"), sym("w")])),
                 "lli": (BU + "lli", seg("s"), seg("t")), "lerp": (BU + "lerp", sym("r"), lst([sym("u"), sym("v")]), lst([sym("w"), sym("z")])),
                 "segmentFromPoints": (BO + ".segmentFromPoints", seg()), "unzipPoints": (BO + ".unzipPoints", seg()),
                 "skeleton": (BZ + "._align", seg("s", 3), seg("t"))}
        for n in ("midpoint", "slope", "slopeAngle", "rawSlopeAngle", "length", "isVerticalLine", "isHorizontalLine", "isDiagonalLine", "getDeltas", "endPoints"):
            calls[n] = (PU + n, seg())
        calls["pointOnLine"] = (PU + "pointOnLine", lst([sym("u"), sym("v")]), seg())
        calls["intersectionPoint"] = (PU + "intersectionPoint", seg("s"), seg("t"))
        for n, a in (("rotatePointAbout", lst([sym("u"), sym("v")])), ("rotateSegmentAbout", seg()), ("rotateContourAbout", cont()), ("rotateContoursAbout", lst([cont()]))):
            calls[n] = (PU + n, a, lst([sym("cx"), sym("cy")]), num(30))
        for n, (f, *args) in calls.items():
            c.it.live = c.assume
            c.it.exc = [[]]
            c.it.writes = []
            for a in args:
                protect(a, "an argument of " + n)
            try:
                c.call(f, *args)
            except Dead:
                pass
            c.it.live = c.assume
            unmutated(c, n)
            c.it.writes = []
        line, other = lst(pts(2, "l")), None
        for k in (2, 3):
            o = bezier(c, curve(c, k, True))
            other = bezier(c, pts(2, "o"))
            for n in ("roots", "lineIntersects", "align"):
                a = protect(lst(pts(2, "l")), "the segment")
                answer(c, o, lambda c, o: c.meth(o, n, a))
                unmutated(c, "%s, order %d" % (n, k))
            protect(other, "the other curve")
            c.it.writes = []
            answer(c, o, lambda c, o: c.meth(o, "intersectWithLine", other))
            # caches of the other curve may be filled; its control points may not change
            c.it.writes = []
            c.eq("the other curve's points", c.attr(other, "controlPoints"), lst(pts(2, "o")))
    ck.run("arguments", arguments)
