"""C44: what contours and outlines hold."""
from ..h import *
from .transform import minimum
from .curves import BZ, BC, BO, cps, _light, _havoc
from .contours import chain, same_contour
from .bounds import extents, fields


def ring(segs, kind=lst):
    return kind([kind(list(s)) for s in segs])


def outline_of(c, shapes, kind=lst, closed=True):
    segs = [chain(k, "c%d" % i, closed and len(k) > 1) for i, k in enumerate(shapes)]
    return segs, kind([ring(s, kind) for s in segs])


@minimum(300)
def c44(ck):
    """contours and outlines of symbolic curves: what attributes, indices and iteration give back is compared, curve by curve, with the control
    points that went in; bounds with the union of the boxes the parts report; the conversions between points, curves and paths are inverse"""
    ck.prepare = lambda c: _havoc(c, direction=True)

    def holds(c, key, b, segs):
        """contour b holds exactly segs"""
        same_contour(c, key, b, segs, lut=(), d=False)
        n = len(segs)
        for i in range(-n, n):
            c.eq("%s: item %d" % (key, i), c.attr(c.meth(b, "__getitem__", num(i)), "controlPoints"), lst(segs[i]))

    def whole(c, key, o, segs):
        """outline o holds exactly the contours segs"""
        for how, seq in (("bContours", c.attr(o, "bContours")), ("contours", c.attr(o, "contours")), ("iteration", c.meth(o, "__iter__"))):
            got = [x for _, x in c.it.entries(seq)]
            if len(got) != len(segs):
                c.fail("%s: %s" % (key, how), "%d contours instead of %d" % (len(got), len(segs)), got=seq)
                continue
            for i, (x, s) in enumerate(zip(got, segs)):
                c.eq("%s: %s: curves of contour %d" % (key, how, i), lst([c.attr(y, "controlPoints") for _, y in c.it.entries(c.attr(x, "beziers"))]),
                     lst([lst(p) for p in s]))
                if how == "iteration":
                    holds(c, "%s: contour %d" % (key, i), x, s)

    shapes = [[(1,)], [(1, 1, 1)], [(1, 1), (1, 1, 1)], [(1, 1, 1), (1, 1), (1,)], [(1,), (1, 1), (1,), (1, 1)]]
    for shape in shapes:
        def outline(c, shape=shape):
            for kind, kn in ((lst, "lists"), (lambda x: Tup(list(x)), "tuples")):
                c.reset()
                segs, arg = outline_of(c, shape, kind)
                o = c.call(BO, protect(arg, "the contours"))
                if kind is lst:
                    whole(c, kn, o, segs)
                else:
                    got = [x for _, x in c.it.entries(c.attr(o, "contours"))]
                    c.eq(kn + ": count", num(len(got)), num(len(segs)))
                    for i, (x, s) in enumerate(zip(got, segs)):
                        bz = [y for _, y in c.it.entries(c.attr(x, "beziers"))]
                        c.eq("%s: curves of contour %d" % (kn, i), num(len(bz)), num(len(s)))
                        for y, q in zip(bz, s):
                            for nm, j in (("start", 0), ("end", -1)):
                                c.eq("%s: contour %d %s" % (kn, i, nm), c.attr(y, nm), q[j])
                ps = [xy(p) for s in segs for q in s for p in q]
                box = c.attr(o, "boundsRectangle")
                c.eq(kn + ": bounds", fields(c, box), extents(ps))
                c.hazards(kn)
                unmutated(c)
        ck.run("outline of lines %s" % (shape,), outline)

    def curved(c):
        """curves of every order: the bounds are the union of what the parts report"""
        _light(c)
        for shape in ([(2,)], [(3, 1)], [(1, 2), (3,)]):
            c.reset()
            segs, arg = outline_of(c, shape, closed=False)
            o = c.call(BO, protect(arg, "the contours"))
            whole(c, str(shape), o, segs)
            c.hazards(str(shape))
            unmutated(c)
    ck.run("outlines of curves", curved)

    def big(c):
        lits = literals_in(["Bezier.py"], ["bContours", "contours", "beziers", "boundsRectangle", "__iter__", "__getitem__", "pathFromSegments", "unzipPoints"])
        for n in sorted({12} | {x for x in large(lits, 4) if x < 90}):
            for shape in ([n], [1] * n, [2, n, 3]):
                c.reset()
                segs = [number_chain(k, (1,), i + 1, k > 2) for i, k in enumerate(shape)]
                o = c.call(BO, protect(lst([ring(s) for s in segs]), "the contours"))
                whole(c, "contours of %s lines" % (shape if len(shape) < 4 else n), o, segs)
                c.eq("bounds of %s" % (shape,), fields(c, c.attr(o, "boundsRectangle")), extents([xy(p) for s in segs for q in s for p in q]))
            segs = number_chain(n, (1, 1, 1))
            holds(c, "path of %d curves" % n, c.call(BO + ".pathFromSegments", *[c.call(BZ, lst(s)) for s in segs]), segs)
            ps = number_pts(n)
            c.eq("unzip %d" % n, c.call(BO + ".unzipPoints", lst(ps)), Tup([lst([p.items[0] for p in ps]), lst([p.items[1] for p in ps])]))
            c.hazards()
            unmutated(c)
    ck.run("outlines of many contours and curves", big)

    def empty(c):
        o = c.call(BO, lst([]))
        whole(c, "no contours", o, [])
        c.eq("no contours: bounds", fields(c, c.attr(o, "boundsRectangle")), fields(c, c.call("PathLib.PathUtilities.BoundsRectangle")))
        c.hazards()
    ck.run("no contours", empty)

    def independent(c):
        """two outlines of the same contours, and the contours of one, are edited apart from each other"""
        segs, arg = outline_of(c, [(1, 1), (1, 1)])
        a, b = c.call(BO, arg), c.call(BO, arg)
        first = c.it.entries(c.attr(a, "contours"))[0][1]
        new = pts(2, "n")
        c.meth(first, "__setitem__", num(0), lst(new))
        whole(c, "the edited outline", a, [[new, segs[0][1]], segs[1]])
        whole(c, "the other outline", b, segs)
        c.hazards()
    ck.run("outlines are independent", independent)

    def paths(c):
        """curves to contour and back"""
        for n in (1, 2, 3):
            c.reset()
            segs = chain((1,) * n)
            bs = [c.call(BZ, protect(lst(s), "the points of a curve")) for s in segs]
            b = c.call(BO + ".pathFromSegments", *bs)
            holds(c, "%d curves" % n, b, segs)
            again = c.call(BO + ".pathFromSegments", *[x for _, x in c.it.entries(c.attr(b, "beziers"))])
            holds(c, "%d curves, again" % n, again, segs)
            for x, s in zip(bs, segs):
                c.eq("the curves stay as they are", c.attr(x, "controlPoints"), lst(s))
        c.reset()
        segs = [pts(2, "a"), pts(2, "b")]
        holds(c, "curves that do not meet", c.call(BO + ".pathFromSegments", *[c.call(BZ, lst(s)) for s in segs]), segs)
        c.hazards()
        unmutated(c)
    ck.run("paths from curves", paths)

    def curvedpaths(c):
        _light(c)
        segs = chain((2, 3, 1))
        b = c.call(BO + ".pathFromSegments", *[c.call(BZ, lst(s)) for s in segs])
        holds(c, "orders 2, 3, 1", b, segs)
        c.hazards()
    ck.run("paths from curves of every order", curvedpaths)

    def contours(c):
        _light(c)
        for k in ((1,), (2,), (3,), (1, 1), (1, 2, 3), (2, 2), (3, 3, 1, 1)):
            c.reset()
            segs = chain(k)
            holds(c, str(k), c.call(BC, protect(ring(segs), "the contour")), segs)
        same = [P("0"), P("1")]
        c.reset()
        holds(c, "the same line twice", c.call(BC, ring([same, same])), [same, same])
        c.hazards()
        unmutated(c)
    ck.run("contours", contours)

    def points(c):
        x, y = sym("x"), sym("y")
        for cl in (BZ, BC, BO):
            c.eq("%s.xyPoint" % cl, c.call(cl + ".xyPoint", x, y), Tup([x, y]))
            c.eq("%s.pointXY" % cl, c.call(cl + ".pointXY", Tup([x, y])), Tup([x, y]))
        for n in range(5):
            for kind in (lst, lambda v: Tup(list(v))):
                ps = pts(n)
                got = c.call(BO + ".unzipPoints", protect(kind(ps), "the points"))
                c.eq("unzip %d" % n, got, Tup([lst([p.items[0] for p in ps]), lst([p.items[1] for p in ps])]))
        a = P("0")
        c.eq("unzip repeated points", c.call(BO + ".unzipPoints", lst([a, a, P("1"), a])),
             Tup([lst([p.items[0] for p in (a, a, P("1"), a)]), lst([p.items[1] for p in (a, a, P("1"), a)])]))
        for k in (1, 2, 3, 4):
            ps = pts(k + 1)
            b = c.call(BO + ".segmentFromPoints", protect(lst(ps), "the points"))
            c.eq("segmentFromPoints %d" % k, c.attr(b, "controlPoints"), lst(ps))
            c.eq("order %d" % k, c.attr(b, "order"), num(k))
        c.hazards()
        unmutated(c)
    ck.run("points", points)

    for k in (1, 2, 3, 4):
        def skeleton(c, k=k):
            ps = pts(k + 1)
            b = c.call(BZ, protect(lst(ps), "the points"))
            w = extents(cps(ps)).items
            for again in ("", " again"):
                c.eq("skeleton bounds%s" % again, fields(c, c.attr(b, "skeletonBounds")), Tup([w[0], w[1], N(r(w[2]) + 40), w[3]]))
            c.hazards()
            unmutated(c)
        ck.run("skeleton bounds of order %d" % k, skeleton)

