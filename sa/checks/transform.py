"""C01-C05: Transform."""
from ..h import *

T_ = "PathLib.Transform.Transform"


def mat(n):
    return [[sym("%s%d%d" % (n, i, j)) for j in range(3)] for i in range(3)]


def mval(m):
    return lst([lst(row) for row in m])


def mmul(a, b):
    return [[Num(sum((r(a[i][k]) * r(b[k][j]) for k in range(3)), ZERO)) for j in range(3)] for i in range(3)]


def image(m, p):
    x, y = xy(p)
    w = x * r(m[0][2]) + y * r(m[1][2]) + r(m[2][2])
    return (x * r(m[0][0]) + y * r(m[1][0]) + r(m[2][0])) / w, (x * r(m[0][1]) + y * r(m[1][1]) + r(m[2][1])) / w, w


def affine(a=1, b=0, c=0, d=1, m=0, n=0, p=0, q=0, s=1):
    return [[N(a), N(b), N(p)], [N(c), N(d), N(q)], [N(m), N(n), N(s)]]


def minimum(n):
    def deco(f):
        f.minimum = n
        return f
    return deco


@minimum(30)
def c01(ck):
    """applyToPoint == row-vector product divided by its third component, for a fully symbolic 3x3 matrix, under the guard
    that this component is not zero; applyToSegment/Contour/Contours keep the nesting and are pointwise, for every
    nesting shape up to the size bounds; no write reaches the argument."""
    lits = literals_in(["Transform.py"], ["applyToPoint", "applyToSegment", "applyToContour", "applyToContours", "multiplyRowByMatrix"])
    ns = sizes(range(0, 5), lits, 9)

    def one(kind, shape):
        def go(c):
            M = mat("m")
            t = c.call(T_, mval(M))
            cnt = [0]

            def mk():
                cnt[0] += 1
                return P(str(cnt[0]))

            def build(s):
                if s == ():
                    return mk()
                return lst([build(x) for x in s])
            arg = build(shape)

            def want(v):
                if isinstance(v, Tup):
                    x, y, w = image(M, v)
                    c.require(NOT(eq0(w)))
                    return pt(x, y)
                return lst([want(e[1]) for e in v.o.ents])
            w = want(arg)
            protect(arg, "the argument of %s" % kind)
            res = c.meth(t, kind, arg)
            c.hazards()
            c.eq("image", res, w)
            unmutated(c)
        return go
    ck.run("point", one("applyToPoint", ()))
    for n in ns:
        ck.run("segment of %d" % n, one("applyToSegment", tuple(() for _ in range(n)) if n else tuple()) if n else empty("applyToSegment"))
    seg = lambda n: tuple(() for _ in range(n))
    for sh in [(seg(2),), (seg(2), seg(3)), (seg(4), seg(1), seg(2))] + [tuple(seg(2) for _ in range(n)) for n in ns if n > 3]:
        ck.run("contour %s" % ([len(s) for s in sh],), one("applyToContour", sh))
    ck.run("contour of 0", empty("applyToContour"))
    for sh in [((seg(2),),), ((seg(2), seg(2)), (seg(3),)), ((seg(2),), (seg(2),), (seg(4),))] + [tuple((seg(1),) for _ in range(n)) for n in ns if n > 3]:
        ck.run("contours %s" % ([[len(s) for s in k] for k in sh],), one("applyToContours", sh))
    ck.run("contours of 0", empty("applyToContours"))

    def big(c):
        K = [[2, 1, Fraction(1, 4096)], [-3, 5, Fraction(1, 8192)], [7, -11, 400]]
        for n in large(lits, 9) or [20]:
            for kind, wrap in (("applyToSegment", lambda ps: lst(ps)), ("applyToContour", lambda ps: lst([lst([p]) for p in ps])),
                               ("applyToContours", lambda ps: lst([lst([lst([p])]) for p in ps])),
                               ("applyToContour", lambda ps: lst([lst(ps)])), ("applyToContours", lambda ps: lst([lst([lst(ps)])]))):
                c.reset()
                ps = number_pts(n)
                want = []
                for x, y in (xy(p) for p in ps):
                    u, v, w = (x * K[0][j] + y * K[1][j] + Rat.c(K[2][j]) for j in range(3))
                    want.append(pt(u / w, v / w))
                t = c.call(T_, lst([lst([num(e) for e in row]) for row in K]))
                arg = protect(wrap(ps), "the argument of %s" % kind)
                c.eq("%s of %d points" % (kind, n), c.meth(t, kind, arg), wrap(want))
                c.hazards()
                unmutated(c)
    ck.run("many points", big)


def empty(kind):
    def go(c):
        t = c.call(T_, mval(mat("m")))
        res = c.meth(t, kind, lst([]))
        c.hazards()
        c.eq("image", res, lst([]))
    return go


@minimum(20)
def c02(ck):
    """Transform(m1..mk).transform and the static product helpers equal the ordered matrix product entry by entry, for fully
    symbolic matrices and every k up to the bound; applying equals applying the factors in turn; the factors are not written."""
    lits = literals_in(["Transform.py"], ["concatenateMatrices", "multiplyMatrixByMatrix", "multiplyRowByMatrix", "__init__"])
    for k in sizes([1, 2, 3, 4], lits, 5):
        if k == 0:
            continue

        def go(c, k=k):
            # one dense matrix among sparse ones keeps the products small without losing generality per position
            for dense in range(k):
                c.reset()
                ms = []
                for i in range(k):
                    if i == dense or k <= 2 or (k == 3 and i == (dense + 1) % 3):
                        ms.append(mat("m%d_" % i))
                    else:
                        z = [[N(1) if a == b else N(0) for b in range(3)] for a in range(3)]
                        z[0][1] = sym("u%d" % i)
                        z[2][0] = sym("v%d" % i)
                        z[1][2] = sym("w%d" % i)
                        z[1][1] = sym("s%d" % i)
                        ms.append(z)
                want = ms[0]
                for m in ms[1:]:
                    want = mmul(want, m)
                args = [protect(mval(m), "a given matrix") for m in ms]
                t = c.call(T_, *args)
                c.hazards()
                c.eq("product", c.attr(t, "transform"), mval(want))
                unmutated(c)
                if k <= 2:
                    break
        ck.run("%d matrices" % k, go)

    def staged(c):
        a, b = mat("a"), mat("b")
        p = P("")
        x, y, w1 = image(a, p)
        _, _, w2 = image(mmul(a, b), p)
        c.require(AND(NOT(eq0(w1)), NOT(eq0(w2))))
        t1, t2, t12 = c.call(T_, mval(a)), c.call(T_, mval(b)), c.call(T_, mval(a), mval(b))
        q = c.meth(t2, "applyToPoint", c.meth(t1, "applyToPoint", p))
        c.eq("applying in turn", c.meth(t12, "applyToPoint", p), q)
        c.hazards()
    ck.run("staged application", staged)


def _apply(c, t, key, want_of, extra=T):
    p = P("")
    x, y = xy(p)
    wx, wy, w = want_of(x, y)
    c.require(AND(NOT(eq0(w)), extra))
    c.it.live = c.assume
    res = c.meth(t, "applyToPoint", p)
    c.eq(key, res, pt(wx, wy))
    c.hazards(key + " completes")


@minimum(40)
def c03(ck):
    """the image of a symbolic point under translate/scale/shear/mirror/perspective (positional, keyword and defaulted
    arguments; flags as free booleans and as constants) equals the stated formula; where the point maps to infinity is excluded."""
    def case(name, ctor, args, kw, f):
        def go(c):
            t = c.call(T_ + "." + ctor, *args, **kw)
            c.hazards("construction")
            _apply(c, t, name, f)
        ck.run(name, go)
    p, q = P("p"), P("q")
    case("translate", "translate", [p, q], {}, lambda x, y: (x + xy(q)[0] - xy(p)[0], y + xy(q)[1] - xy(p)[1], RONE))
    sx, sy = sym("sx"), sym("sy")
    case("scale", "scale", [sx, sy], {}, lambda x, y: (x * r(sx), y * r(sy), RONE))
    case("scale(sx)", "scale", [sx], {}, lambda x, y: (x * r(sx), y, RONE))
    case("scale(sy=)", "scale", [], {"sy": sy}, lambda x, y: (x, y * r(sy), RONE))
    case("scale()", "scale", [], {}, lambda x, y: (x, y, RONE))
    case("shear", "shear", [sx, sy], {}, lambda x, y: (x + r(sx) * y, y + r(sy) * x, RONE))
    case("shear(sx)", "shear", [sx], {}, lambda x, y: (x + r(sx) * y, y, RONE))
    case("shear(sy=)", "shear", [], {"sy": sy}, lambda x, y: (x, y + r(sy) * x, RONE))
    case("shear()", "shear", [], {}, lambda x, y: (x, y, RONE))
    fx, fy = flag("xAxis"), flag("yAxis")
    sgn = lambda b, v: ite(b, Num(-v), Num(v))

    def mir(c):
        for nm, a, kw, bx, by in [("flags", [fx, fy], {}, fx.b, fy.b), ("x", [fx], {}, fx.b, F), ("y=", [], {"yAxis": fy}, F, fy.b),
                                  ("x=", [], {"xAxis": TRUE}, T, F), ("none", [], {}, F, F), ("both", [TRUE, TRUE], {}, T, T)]:
            c.reset()
            t = c.call(T_ + ".mirror", *a, **kw)
            x, y = xy(P(""))
            res = c.meth(t, "applyToPoint", P(""))
            c.eq("mirror " + nm, res, Tup([sgn(by, x), sgn(bx, y)]))
            c.hazards("mirror " + nm)
    ck.run("mirror", mir)
    a, b, s = sym("p"), sym("q"), sym("s")
    w = lambda x, y: r(a) * x + r(b) * y + r(s)
    case("perspective", "perspective", [a, b, s], {}, lambda x, y: (x / w(x, y), y / w(x, y), w(x, y)))
    w2 = lambda x, y: r(a) * x + r(b) * y + 1
    case("perspective(p, q)", "perspective", [a, b], {}, lambda x, y: (x / w2(x, y), y / w2(x, y), w2(x, y)))
    case("perspective(p)", "perspective", [a], {}, lambda x, y: (x / (r(a) * x + 1), y / (r(a) * x + 1), r(a) * x + 1))
    case("perspective(q=)", "perspective", [], {"q": b}, lambda x, y: (x / (r(b) * y + 1), y / (r(b) * y + 1), r(b) * y + 1))
    case("perspective(s=)", "perspective", [], {"s": s}, lambda x, y: (x / r(s), y / r(s), r(s)))
    case("perspective()", "perspective", [], {}, lambda x, y: (x, y, RONE))


def rot(x, y, deg, ccw=1):
    """rotate (x, y) by deg (Rat) degrees; ccw = 1 or -1"""
    th = deg * PI() / Rat.c(180)
    s, c = mk_sin(th), mk_cos(th)
    return x * c - y * s * ccw, x * s * ccw + y * c


def rot_b(x, y, deg, b):
    """rotation whose direction is the boolean b"""
    x1, y1 = rot(x, y, deg, 1)
    x2, y2 = rot(x, y, deg, -1)
    return ite(b, Num(x1), Num(x2)), ite(b, Num(y1), Num(y2))


ANGLES = [0, 30, 45, 60, 90, 120, 135, 180, 225, 270, 300, 360, -90, -45, 450]


@minimum(60)
def c04(ck):
    """the image of a symbolic point under rotation(a, ccw) equals the rotation formula for a symbolic angle (sin and cos of it
    as uninterpreted functions with their exact values at multiples of 30 and 45 degrees) and a free direction flag;
    moveAndRotate/rotateAndMove and the four rotate*About helpers equal the composed formula."""
    a, ccw = sym("a"), flag("ccw")

    def go(c):
        x, y = xy(P(""))

        def ob(key, args, kw, want):
            c.reset()
            t = c.call(T_ + ".rotation", *args, **kw)
            c.eq(key, c.meth(t, "applyToPoint", P("")), Tup(list(want)))
            c.hazards(key)
        ob("symbolic", [a, ccw], {}, rot_b(x, y, r(a), ccw.b))
        ob("default direction", [a], {}, rot_b(x, y, r(a), T))
        ob("keyword direction", [], {"degrees": a, "ccw": FALSE}, rot_b(x, y, r(a), F))
        ob("default angle", [], {}, rot_b(x, y, Rat.c(90), T))
        ob("default angle, clockwise", [], {"ccw": FALSE}, rot_b(x, y, Rat.c(90), F))
        for d in ANGLES:
            ob("%d degrees" % d, [num(d), ccw], {}, rot_b(x, y, Rat.c(d), ccw.b))
    ck.run("rotation", go)

    def mr(c):
        p, q = P("p"), P("q")
        dx, dy = xy(q)[0] - xy(p)[0], xy(q)[1] - xy(p)[1]
        x, y = xy(P(""))
        t = c.call(T_ + ".moveAndRotate", p, q, a)
        c.eq("moveAndRotate", c.meth(t, "applyToPoint", P("")), pt(*rot(x + dx, y + dy, r(a))))
        t = c.call(T_ + ".rotateAndMove", p, q, a)
        u, v = rot(x, y, r(a))
        c.eq("rotateAndMove", c.meth(t, "applyToPoint", P("")), pt(u + dx, v + dy))
        c.hazards()
    ck.run("move and rotate", mr)
    lits = literals_in(["PathUtilities.py"], ["rotatePointAbout", "rotateSegmentAbout", "rotateContourAbout", "rotateContoursAbout"])
    lits -= {90}

    def helper(c):
        o = P("c")
        cx, cy = xy(o)

        def want(v, deg, b):
            if isinstance(v, Tup):
                x, y = xy(v)
                u1, v1 = rot(x - cx, y - cy, deg, 1)
                u2, v2 = rot(x - cx, y - cy, deg, -1)
                return Tup([ite(b, Num(u1 + cx), Num(u2 + cx)), ite(b, Num(v1 + cy), Num(v2 + cy))])
            return lst([want(e[1], deg, b) for e in v.o.ents])
        seg = lambda k, n: lst(pts(n, k))
        shapes = {"rotatePointAbout": [P("")],
                  "rotateSegmentAbout": [seg("s", n) for n in sizes([0, 1, 2, 3, 4], lits, 8)],
                  "rotateContourAbout": [lst([]), lst([seg("s", 2), seg("t", 3)])] + [lst([seg("s%d" % i, 1) for i in range(n)]) for n in sizes([3, 5], lits, 8)],
                  "rotateContoursAbout": [lst([]), lst([lst([seg("s", 2), seg("t", 3)]), lst([seg("u", 2)])])] + [lst([lst([seg("s%d" % i, 1)]) for i in range(n)]) for n in sizes([3], lits, 8)]}
        for fn, args in shapes.items():
            for i, arg in enumerate(args):
                for key, extra, kw, deg, b in [("all", [a, ccw], {}, r(a), ccw.b), ("angle", [a], {}, r(a), T), ("default", [], {}, Rat.c(90), T),
                                               ("ccw=", [], {"ccw": FALSE}, Rat.c(90), F), ("180", [num(180)], {}, Rat.c(180), T)]:
                    c.reset()
                    protect(arg, "the argument")
                    res = c.call("PathLib.PathUtilities." + fn, arg, o, *extra, **kw)
                    c.eq("%s %s %d" % (fn, key, i), res, want(arg, deg, b))
                    c.hazards()
                    unmutated(c)
    ck.run("rotation helpers", helper)

    def big(c):
        cx, cy = Rat.c(17), Rat.c(-9)
        for n in large(lits, 8) or [20]:
            for fn, wrap in (("rotateSegmentAbout", lambda ps: lst(ps)), ("rotateContourAbout", lambda ps: lst([lst([p]) for p in ps])),
                             ("rotateContourAbout", lambda ps: lst([lst(ps)])), ("rotateContoursAbout", lambda ps: lst([lst([lst([p])]) for p in ps])),
                             ("rotateContoursAbout", lambda ps: lst([lst([lst(ps)])]))):
                for ccw_, s in ((TRUE, 1), (FALSE, -1)):
                    c.reset()
                    ps = number_pts(n)
                    want = wrap([pt(cx - (y - cy) * s, cy + (x - cx) * s) for x, y in (xy(p) for p in ps)])
                    res = c.call("PathLib.PathUtilities." + fn, wrap(ps), Tup([num(17), num(-9)]), num(90), ccw_)
                    c.eq("%s of %d points" % (fn, n), res, want)
                    c.hazards()
    ck.run("many points", big)


@minimum(25)
def c05(ck):
    """for a symbolic centre c and offset v, the image of c+v under rotationAbout/mirrorAround/perspectiveFrom equals c plus the
    plain image of v, for symbolic angle, direction, axis flags and factors; in particular c is a fixed point."""
    o = P("c")
    cx, cy = xy(o)
    vx, vy = r(sym("vx")), r(sym("vy"))
    a, ccw = sym("a"), flag("ccw")
    fx, fy = flag("xAxis"), flag("yAxis")

    def run(name, ctor, args, kw, img):
        def go(c):
            for key, x, y in [("c+v", vx, vy), ("centre fixed", ZERO, ZERO)]:
                c.reset()
                res = img(x, y)
                if len(res) == 3:
                    c.require(NOT(eq0(res[2])))
                t = c.call(T_ + "." + ctor, o, *args, **kw)
                got = c.meth(t, "applyToPoint", pt(cx + x, cy + y))
                add = lambda v, k: c.it.lift(lambda z: Num(r(z) + k), v)
                c.eq(key, got, Tup([add(res[0], cx), add(res[1], cy)]))
                c.hazards(key)
        ck.run(name, go)
    run("rotationAbout", "rotationAbout", [a, ccw], {}, lambda x, y: rot_b(x, y, r(a), ccw.b))
    run("rotationAbout default direction", "rotationAbout", [a], {}, lambda x, y: rot_b(x, y, r(a), T))
    run("rotationAbout default", "rotationAbout", [], {}, lambda x, y: rot_b(x, y, Rat.c(90), T))
    run("rotationAbout clockwise", "rotationAbout", [], {"ccw": FALSE}, lambda x, y: rot_b(x, y, Rat.c(90), F))
    run("rotationAbout 180", "rotationAbout", [num(180)], {}, lambda x, y: rot_b(x, y, Rat.c(180), T))
    m = lambda bx, by: (lambda x, y: (ite(by, Num(-x), Num(x)), ite(bx, Num(-y), Num(y))))
    run("mirrorAround", "mirrorAround", [fx, fy], {}, m(fx.b, fy.b))
    run("mirrorAround x", "mirrorAround", [TRUE], {}, m(T, F))
    run("mirrorAround y", "mirrorAround", [], {"yAxis": TRUE}, m(F, T))
    run("mirrorAround none", "mirrorAround", [], {}, m(F, F))
    run("mirrorAround both", "mirrorAround", [TRUE, TRUE], {}, m(T, T))
    p, q = sym("p"), sym("q")
    run("perspectiveFrom", "perspectiveFrom", [p, q], {}, lambda x, y: (Num(x / (r(p) * x + r(q) * y + 1)), Num(y / (r(p) * x + r(q) * y + 1)), r(p) * x + r(q) * y + 1))
    run("perspectiveFrom p", "perspectiveFrom", [p], {}, lambda x, y: (Num(x / (r(p) * x + 1)), Num(y / (r(p) * x + 1)), r(p) * x + 1))
    run("perspectiveFrom q", "perspectiveFrom", [], {"q": q}, lambda x, y: (Num(x / (r(q) * y + 1)), Num(y / (r(q) * y + 1)), r(q) * y + 1))
    run("perspectiveFrom default", "perspectiveFrom", [], {}, lambda x, y: (Num(x), Num(y)))
