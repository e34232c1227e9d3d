"""C10-C12: segment measures, line intersection, point on line."""
from ..h import *
from .transform import minimum
from .bounds import inside

U_ = "PathLib.PathUtilities."
PU = ["PathUtilities.py"]


def cpx(p):
    return Cplx(p.items[0], p.items[1])


def mk_deg(y, x):
    """degrees of atan2(y, x)"""
    return mk_atan2(y, x) * Rat.c(180) / PI()


@minimum(200)
def c10(ck):
    """each measure of a symbolic segment (tuple points, complex points and mixed end points; 2..n points) equals the stated formula of
    its first and last point only; slope is infinite exactly on the guard run == 0; the three line tests have the stated guards."""
    lits = literals_in(PU, ["endPoints", "getDeltas", "isVerticalLine", "isHorizontalLine", "isDiagonalLine", "length", "slope", "slopeAngle",
                            "rawSlopeAngle", "midpoint", "pointXY"])
    for n in sizes([2, 3, 4], lits, 9):
        if n < 2:
            continue
        for kind in ("tuple", "complex", "mixed"):
            def go(c, n=n, kind=kind):
                ps = pts(n)
                args = [cpx(p) if kind == "complex" or (kind == "mixed" and i == 0) else p for i, p in enumerate(ps)]
                seg = lst(args)
                protect(seg, "the segment")
                x0, y0 = xy(ps[0])
                x1, y1 = xy(ps[-1])
                dx, dy = x1 - x0, y1 - y0
                f = lambda nm: c.call(U_ + nm, seg)
                c.eq("endPoints", f("endPoints"), Tup([N(v) for v in (x0, y0, x1, y1)]))
                c.eq("getDeltas", f("getDeltas"), Tup([N(dx), N(dy)]))
                c.eq("length", f("length"), N(hyp(dx, dy)))
                m = f("midpoint")
                c.eq("midpoint", m, pt(AVG(x0, x1), AVG(y0, y1)))
                z = eq0(dx)
                if n == 1:
                    c.eq("slope", f("slope"), INF)
                else:
                    s = f("slope")
                    c.eq("slope of vertical", s, INF, z)
                    c.eq("slope", s, N(dy / dx), NOT(z))
                c.eq("slopeAngle", f("slopeAngle"), N(mk_deg(mk_abs(dx), mk_abs(dy))))
                c.eq("rawSlopeAngle", f("rawSlopeAngle"), N(mk_deg(dy, dx)))
                two = T if n == 2 else F
                c.eq("isVerticalLine", f("isVerticalLine"), boolv(AND(two, eq0(dx))))
                c.eq("isHorizontalLine", f("isHorizontalLine"), boolv(AND(two, eq0(dy))))
                c.eq("isDiagonalLine", f("isDiagonalLine"), boolv(AND(two, NOT(eq0(dx)), NOT(eq0(dy)))))
                c.hazards()
                unmutated(c)
            ck.run("%d %s points" % (n, kind), go)

    def big(c):
        for n in large(lits, 9) or [20]:
            for x, y in ((3, 4), (-5, 12), (0, 7), (9, 0)):
                c.reset()
                ps = number_pts(n)
                x0, y0 = xy(ps[0])
                ps[-1] = pt(x0 + Rat.c(x), y0 + Rat.c(y))
                seg = lst(ps)
                f = lambda nm: c.call(U_ + nm, seg)
                tag = " of %d points" % n
                c.eq("endPoints" + tag, f("endPoints"), Tup([N(x0), N(y0), N(x0 + Rat.c(x)), N(y0 + Rat.c(y))]))
                c.eq("getDeltas" + tag, f("getDeltas"), Tup([num(x), num(y)]))
                c.eq("length" + tag, f("length"), N(hyp(Rat.c(x), Rat.c(y))))
                c.eq("midpoint" + tag, f("midpoint"), pt(x0 + Rat.c(Fraction(x, 2)), y0 + Rat.c(Fraction(y, 2))))
                c.eq("slope" + tag, f("slope"), num(Fraction(y, x)) if x else INF)
                for nm in ("isVerticalLine", "isHorizontalLine", "isDiagonalLine"):
                    c.eq(nm + tag, f(nm), FALSE)
                c.hazards()
    ck.run("many points", big)

    def special(c):
        # axis-parallel and degenerate segments as constants
        for (x0, y0, x1, y1) in [(0, 0, 3, 4), (2, 1, 2, 9), (5, 5, -5, 5), (1, 1, 1, 1), (0, 0, -3, -3), (0, 0, 0, -2)]:
            seg = lst([Tup([num(x0), num(y0)]), Tup([num(x1), num(y1)])])
            dx, dy = Rat.c(x1 - x0), Rat.c(y1 - y0)
            tag = " %s" % ((x0, y0, x1, y1),)
            c.eq("slope" + tag, c.call(U_ + "slope", seg), INF if x0 == x1 else N(dy / dx))
            c.eq("length" + tag, c.call(U_ + "length", seg), N(hyp(dx, dy)))
            c.eq("raw" + tag, c.call(U_ + "rawSlopeAngle", seg), N(mk_deg(dy, dx)))
            c.eq("angle" + tag, c.call(U_ + "slopeAngle", seg), N(mk_deg(mk_abs(dx), mk_abs(dy))))
        c.hazards()
    ck.run("constants", special)

    def misc(c):
        a, b = sym("a"), sym("b")
        c.eq("minMax", c.call(U_ + "minMax", a, b), Tup([N(mn(r(a), r(b))), N(mx(r(a), r(b)))]))
        p = P("")
        c.eq("pointXY", c.call(U_ + "pointXY", p), p)
        c.eq("pointXY complex", c.call(U_ + "pointXY", cpx(p)), p)
        k = [lst([lst(pts(2, "a")), lst(pts(3, "b"))]), lst([]), lst([lst(pts(2, "c"))])]
        c.eq("flatten", c.call(U_ + "flatten", lst(k)), lst([lst(pts(2, "a")), lst(pts(3, "b")), lst(pts(2, "c"))]))
        c.hazards()
    ck.run("pairs and nesting", misc)


def cross(ax, ay, bx, by):
    return ax * by - ay * bx


def lines(ps):
    (x1, y1), (x2, y2), (x3, y3), (x4, y4) = [xy(p) for p in ps]
    d = cross(x1 - x2, y1 - y2, x3 - x4, y3 - y4)
    n = x1 * y2 - y1 * x2
    m = x3 * y4 - y3 * x4
    return d, (n * (x3 - x4) - (x1 - x2) * m) / d, (n * (y3 - y4) - (y1 - y2) * m) / d


@minimum(20)
def c11(ck):
    """lli/lli4/lli8 of symbolic lines: None exactly on the guard where the direction cross product is zero, otherwise the rational
    normal form of the common point (also checked by substituting it in both line equations); intersectionPoint: that point exactly on
    the guard where it lies in both bounding boxes; no division hazard has a point in its guard."""
    BU = "PathLib.BezierUtilities."

    def go(c):
        ps = pts(4)
        d, ix, iy = lines(ps)
        par = eq0(d)
        l1, l2 = lst(ps[:2]), lst(ps[2:])
        protect(l1, "line")
        protect(l2, "line")
        flat = [v for p in ps for v in p.items]
        for nm, args in [("lli", [l1, l2]), ("lli4", ps), ("lli8", flat)]:
            res = c.call(BU + nm, *args)
            isn = OR(*[g for g, v in alts(res) if isinstance(v, NoneT)])
            c.true(nm + " None iff parallel", NOT(bdd.XOR(isn, par)))
            live = c.it.live
            c.it.live = AND(live, NOT(par), NOT(isn))
            v = prune(res, c.it.live)
            c.eq(nm, v, pt(ix, iy))
            if isinstance(v, Tup):
                for k, (a, b) in (("first", ps[:2]), ("second", ps[2:])):
                    X, Y = r(v.items[0]), r(v.items[1])
                    ax, ay = xy(a)
                    bx, by = xy(b)
                    c.true(nm + " on the %s line" % k, eq0(cross(bx - ax, by - ay, X - ax, Y - ay)))
            c.it.live = live
        c.hazards()
        unmutated(c)
    ck.run("infinite lines", go)

    def seg(c):
        for shape in ("general", "horizontal/vertical", "shared end", "first horizontal", "degenerate"):
            c.reset()
            ps = pts(4)
            if shape == "horizontal/vertical":
                ps[1] = Tup([ps[1].items[0], ps[0].items[1]])
                ps[3] = Tup([ps[2].items[0], ps[3].items[1]])
            elif shape == "shared end":
                ps[2] = ps[1]
            elif shape == "first horizontal":
                ps[1] = Tup([ps[1].items[0], ps[0].items[1]])
            elif shape == "degenerate":
                ps[1] = ps[0]
            l1, l2 = lst(ps[:2]), lst(ps[2:])
            protect(l1, "line")
            protect(l2, "line")
            q = [xy(p) for p in ps]
            d = cross(q[0][0] - q[1][0], q[0][1] - q[1][1], q[2][0] - q[3][0], q[2][1] - q[3][1])
            par = eq0(d)
            res = c.call(U_ + "intersectionPoint", l1, l2)
            c.hazards(shape)
            isn = OR(*[g for g, v in alts(res) if isinstance(v, NoneT)])
            if par == T:
                c.eq(shape, res, NONE)
                continue
            _, ix, iy = lines(ps)
            box = lambda a, b: (mn(a[0], b[0]), mn(a[1], b[1]), mx(a[0], b[0]), mx(a[1], b[1]))
            both = AND(NOT(par), inside((ix, iy), box(q[0], q[1])), inside((ix, iy), box(q[2], q[3])))
            c.true(shape + ": None iff no common point", NOT(bdd.XOR(isn, NOT(both))))
            c.it.live = AND(c.it.live, both, NOT(isn))
            if c.it.live != F:
                c.eq(shape + ": point", prune(res, c.it.live), pt(ix, iy))
            unmutated(c)
    ck.run("segments", seg)


@minimum(10)
def c12(ck):
    """pointOnLine(p, segment) as a guard equals [cross product zero and p inside the closed box of the two ends]; evaluated for a
    symbolic point, for each end point and the midpoint (must be true unconditionally) and for axis-parallel segments."""
    def go(c):
        ps = pts(2)
        p = P("p")
        seg = lst(ps)
        protect(seg, "the segment")
        (x0, y0), (x1, y1) = xy(ps[0]), xy(ps[1])
        px, py = xy(p)
        f = lambda q, s=seg: c.call(U_ + "pointOnLine", q, s)

        def want(x, y, s):
            (x0, y0), (x1, y1) = s
            box = (mn(x0, x1), mn(y0, y1), mx(x0, x1), mx(y0, y1))
            return boolv(AND(eq0(cross(x1 - x0, y1 - y0, x - x0, y - y0)), inside((x, y), box)))
        S = ((x0, y0), (x1, y1))
        c.eq("general", f(p), want(px, py, S))
        c.eq("start", f(ps[0]), TRUE)
        c.eq("end", f(ps[1]), TRUE)
        c.eq("midpoint", f(pt(AVG(x0, x1), AVG(y0, y1))), TRUE)
        c.eq("beyond", f(pt(x1 * 2 - x0, y1 * 2 - y0)), boolv(AND(eq0(x1 - x0), eq0(y1 - y0))))
        lam = r(sym("u"))
        c.eq("on the line", f(pt(x0 + (x1 - x0) * lam, y0 + (y1 - y0) * lam)),
             boolv(OR(AND(eq0(x1 - x0), eq0(y1 - y0)), AND(le(ZERO, lam), le(lam, RONE)))))
        c.hazards()
        for nm, s in [("vertical", [P("0"), pt(r(sym("x0")), r(sym("y1")))]), ("horizontal", [P("0"), pt(r(sym("x1")), r(sym("y0")))]), ("a point", [P("0"), P("0")])]:
            sg = lst(s)
            c.eq(nm, f(p, sg), want(px, py, (xy(s[0]), xy(s[1]))))
            c.eq(nm + " start", f(s[0], sg), TRUE)
            c.eq(nm + " end", f(s[1], sg), TRUE)
        c.hazards("axis parallel")
        unmutated(c)
    ck.run("segments", go)
