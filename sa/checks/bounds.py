"""C06-C09: BoundsRectangle."""
from ..h import *
from .transform import minimum

R_ = "PathLib.PathUtilities.BoundsRectangle"
PU = ["PathUtilities.py"]


def fields(c, o):
    return Tup([c.attr(o, k) for k in ("left", "bottom", "right", "top")])


def extents(ps):
    """required (left, bottom, right, top) of points (list of (Rat, Rat)); None without points"""
    if not ps:
        return None
    return Tup([N(mn(*[p[0] for p in ps])), N(mn(*[p[1] for p in ps])), N(mx(*[p[0] for p in ps])), N(mx(*[p[1] for p in ps]))])


def rect(c, k, cls=None):
    """a rectangle with symbolic extents l, b, l+w, b+h (w, h >= 0)"""
    l, b = r(sym("l%s" % k)), r(sym("b%s" % k))
    w, h = r(sym("w%s" % k, nonneg=True)), r(sym("h%s" % k, nonneg=True))
    o = c.call(R_, pt(l, b), pt(l + w, b + h))
    return o, (l, b, l + w, b + h)


@minimum(60)
def c06(ck):
    """left/bottom/right/top of BoundsRectangle(*points), fromContour and fromCoutours equal the minimum/maximum over the symbolic
    coordinates of all points (lattice terms, no assumption on order or magnitude), for every shape up to the bounds, empty parts included."""
    lits = literals_in(PU, ["__init__", "fromContour", "fromCoutours", "union"])

    def points(c):
        for n in sizes([1, 2, 3, 4, 5], lits, 7):
            if n == 0:
                continue
            c.reset()
            ps = pts(n)
            o = c.call(R_, *ps)
            c.eq("%d points" % n, fields(c, o), extents([xy(p) for p in ps]))
            c.hazards()
        # constants of every magnitude and type
        for vals in [[(40000, 50000)], [(-40000, -50000)], [(10 ** 20, -10 ** 20), (3, 4)], [(0, 0)], [(Fraction(1, 3), -7), (2, 2), (2, 2)]]:
            c.reset()
            ps = [Tup([num(Fraction(a)), num(Fraction(b))]) for a, b in vals]
            o = c.call(R_, *ps)
            c.eq("constants %s" % (vals,), fields(c, o), extents([xy(p) for p in ps]))
        c.reset()
        ps = [pt(Rat.c(5), r(sym("y"))), pt(Rat.c(5), r(sym("y"))), pt(r(sym("x")), r(sym("x")))]
        o = c.call(R_, *ps)
        c.eq("repeated", fields(c, o), extents([xy(p) for p in ps]))
        c.hazards()
    ck.run("points", points)

    def cont(fn, shapes, lvl):
        def go(c):
            for sh in shapes:
                c.reset()
                allp = []

                def build(s, d):
                    if d == 0:
                        p = P(str(len(allp)))
                        allp.append(p)
                        return p
                    return lst([build(x, d - 1) for x in s])
                arg = protect(build(sh, lvl), "the argument")
                o = c.call(R_ + "." + fn, arg)
                c.hazards("%s %s" % (fn, sh))
                if allp:
                    c.eq("%s %s" % (fn, sh), fields(c, o), extents([xy(p) for p in allp]))
                else:
                    # bounds nothing: must be neutral for union
                    q = c.call(R_, P("q"))
                    u = c.meth(o, "union", q)
                    c.eq("%s %s neutral" % (fn, sh), fields(c, u), extents([xy(P("q"))]))
                    u = c.meth(q, "union", o)
                    c.eq("%s %s neutral, right" % (fn, sh), fields(c, u), extents([xy(P("q"))]))
                unmutated(c)
        ck.run(fn, go)
    s = lambda n: (0,) * n
    cont("fromContour", [(s(2),), (s(1),), (s(3),), (s(2), s(2)), (s(2), (), s(1)), ((), s(2)), (s(1), ()), (), ((),), (s(1), s(1), s(1)), (s(4), s(2), s(3))]
         + [(s(1),) * n for n in sizes([4], lits, 7)], 2)
    cont("fromCoutours", [((s(2),),), ((s(2), s(1)), (s(2),)), ((), (s(1),)), ((s(1),), ()), (), ((),), (((),),), ((), ((), s(2)), ((),)), ((s(1),), (s(1),), (s(1), s(2)))]
         + [((s(1),),) * n for n in sizes([4], lits, 7)], 3)

    def big(c):
        # long segments, contours and outlines: the extreme point in every position, the others inside
        for n in sorted({5, 6, 7, 8, 9} | set(large(lits, 9) or [20])):
            wraps = [("fromContour", lambda ps: lst([lst(ps)])), ("fromCoutours", lambda ps: lst([lst([lst(ps)])])),
                     ("fromContour", lambda ps: lst([lst(ps[:2]), lst(ps)])), (None, None)]
            if n > 7:
                wraps += [("fromContour", lambda ps: lst([lst([p]) for p in ps])), ("fromCoutours", lambda ps: lst([lst([lst([p])]) for p in ps])),
                          ("fromCoutours", lambda ps: lst([lst([lst([p]) for p in ps])]))]
            for fn, wrap in wraps:
                for k in range(n) if n <= 20 else [0, 1, 2, n // 2, n - 3, n - 2, n - 1]:
                    for far in ((1000, 2000), (-1000, -2000)):
                        c.reset()
                        ps = [Tup([num(i % 5), num(i * i % 7)]) for i in range(n)]
                        ps[k] = Tup([num(far[0]), num(far[1])])
                        want = extents([xy(p) for p in ps])
                        o = c.call(R_ + "." + fn, wrap(ps)) if fn else c.call(R_, *ps)
                        c.eq("%s: %d points, the farthest is number %d" % (fn or "points", n, k), fields(c, o), want)
            c.hazards()
    ck.run("many points", big)


def common(A, B):
    l, b = mx(A[0], B[0]), mx(A[1], B[1])
    rr, t = mn(A[2], B[2]), mn(A[3], B[3])
    g = AND(le(l, rr), le(b, t))
    return (l, b, rr, t), g


def hull2(A, B):
    return Tup([N(mn(A[0], B[0])), N(mn(A[1], B[1])), N(mx(A[2], B[2])), N(mx(A[3], B[3]))])


@minimum(40)
def c07(ck):
    """for two rectangles with free symbolic extents (any order and magnitude, degenerate included): union fields are the lattice
    joins; intersection is None exactly on the guard where the closed rectangles are disjoint and otherwise the lattice meets;
    a rectangle without points is neutral for union from either side; no write reaches an operand."""
    def go(c):
        for degen in (False, True):
            c.reset()
            a, A = rect(c, 1)
            if degen:
                b = c.call(R_, P("q"))
                q = xy(P("q"))
                B = q + q
            else:
                b, B = rect(c, 2)
            protect(a, "the first rectangle")
            protect(b, "the second rectangle")
            for x, X, y, Y, k in [(a, A, b, B, ""), (b, B, a, A, " swapped")]:
                u = c.meth(x, "union", y)
                c.eq("union" + k, fields(c, u), hull2(X, Y))
                i = c.meth(x, "intersection", y)
                (l, bb, rr, t), g = common(X, Y)
                isnone = OR(*[h for h, v in alts(i) if isinstance(v, NoneT)])
                c.true("intersection None iff disjoint" + k, NOT(bdd.XOR(isnone, NOT(g))))
                c.it.live = AND(c.it.live, g, NOT(isnone))
                if c.it.live != F:
                    inst = prune(i, c.it.live)
                    c.eq("intersection" + k, fields(c, inst), Tup([N(l), N(bb), N(rr), N(t)]), g)
                c.it.live = c.assume
                c.hazards("completes" + k)
            c.eq("operand unchanged", fields(c, a), Tup([N(x) for x in A]))
            unmutated(c)
            # with itself
            u = c.meth(a, "union", a)
            c.eq("union with itself", fields(c, u), Tup([N(x) for x in A]))
    ck.run("pairs", go)

    def three(c):
        rs = [rect(c, k) for k in (1, 2, 3)]
        u = c.meth(c.meth(rs[0][0], "union", rs[1][0]), "union", rs[2][0])
        X = [x[1] for x in rs]
        c.eq("union of three", fields(c, u), Tup([N(mn(*[x[0] for x in X])), N(mn(*[x[1] for x in X])), N(mx(*[x[2] for x in X])), N(mx(*[x[3] for x in X]))]))
        c.hazards()
    ck.run("three", three)

    def empty(c):
        e = c.call(R_)
        e2 = c.call(R_)
        a, A = rect(c, 1)
        protect(e, "the empty rectangle")
        protect(a, "the rectangle")
        c.eq("empty | a", fields(c, c.meth(e, "union", a)), Tup([N(x) for x in A]))
        c.eq("a | empty", fields(c, c.meth(a, "union", e)), Tup([N(x) for x in A]))
        ee = c.meth(e, "union", e2)
        c.eq("(empty | empty) | a", fields(c, c.meth(ee, "union", a)), Tup([N(x) for x in A]))
        c.eq("a | (empty | empty)", fields(c, c.meth(a, "union", ee)), Tup([N(x) for x in A]))
        c.eq("a & empty", c.meth(a, "intersection", e), NONE)
        c.eq("empty & a", c.meth(e, "intersection", a), NONE)
        c.hazards()
        unmutated(c)
    ck.run("empty", empty)


def inside(p, A):
    return AND(le(A[0], p[0]), le(p[0], A[2]), le(A[1], p[1]), le(p[1], A[3]))


@minimum(25)
def c08(ck):
    """the boolean answers of enclosesPoint, crossesX/Y, encloses and the class constant returned by relationTo, as guards over the
    sign of coordinate differences, equal the guards of the stated geometry (closed extents) - BDD equality, boundaries included."""
    def go(c):
        a, A = rect(c, 1)
        p = P("p")
        px, py = xy(p)
        protect(a, "the rectangle")
        c.eq("enclosesPoint", c.meth(a, "enclosesPoint", p), boolv(inside((px, py), A)))
        c.eq("crossesX", c.meth(a, "crossesX", p.items[0]), boolv(AND(le(A[0], px), le(px, A[2]))))
        c.eq("crossesY", c.meth(a, "crossesY", p.items[1]), boolv(AND(le(A[1], py), le(py, A[3]))))
        for n, q in [("bl", (A[0], A[1])), ("tr", (A[2], A[3])), ("tl", (A[0], A[3]))]:
            c.eq("corner " + n, c.meth(a, "enclosesPoint", pt(*q)), TRUE)
        c.hazards()
        unmutated(c)
    ck.run("points", go)

    def pairs(c):
        K = {k: c.get(R_ + ".relation" + k) for k in ("Encloses", "Enclosed", "Intersects", "Separate")}
        ks = list(K.values())
        for i in range(4):
            for j in range(i):
                c.true("constants differ", boolv(NOT(eq0(r(ks[i]) - r(ks[j])))))
        for degen in ("", "point", "same corner", "identical"):
            c.reset()
            a, A = rect(c, 1)
            if degen == "point":
                b = c.call(R_, P("q"))
                q = xy(P("q"))
                B = q + q
            elif degen == "identical":
                b, B = c.call(R_, pt(A[0], A[1]), pt(A[2], A[3])), A
            elif degen == "same corner":
                w, h = r(sym("w2", nonneg=True)), r(sym("h2", nonneg=True))
                b, B = c.call(R_, pt(A[0], A[1]), pt(A[0] + w, A[1] + h)), (A[0], A[1], A[0] + w, A[1] + h)
            else:
                b, B = rect(c, 2)
            protect(a, "the rectangle")
            protect(b, "the other rectangle")
            for x, X, y, Y, k in [(a, A, b, B, ""), (b, B, a, A, " swapped")]:
                enc = AND(inside((Y[0], Y[1]), X), inside((Y[2], Y[3]), X))
                end = AND(inside((X[0], X[1]), Y), inside((X[2], X[3]), Y))
                _, com = common(X, Y)
                c.eq("encloses%s %s" % (k, degen), c.meth(x, "encloses", y), boolv(enc))
                want = merge([(enc, K["Encloses"]), (AND(NOT(enc), end), K["Enclosed"]), (AND(NOT(enc), NOT(end), com), K["Intersects"]),
                              (AND(NOT(enc), NOT(end), NOT(com)), K["Separate"])])
                want = ite(enc, K["Encloses"], ite(end, K["Enclosed"], ite(com, K["Intersects"], K["Separate"])))
                c.eq("relationTo%s %s" % (k, degen), c.meth(x, "relationTo", y), want)
            c.hazards()
            unmutated(c)
    ck.run("pairs", pairs)


@minimum(20)
def c09(ck):
    """every measure of a rectangle with symbolic extents, as a normal form over left, bottom, right, top, equals the stated formula;
    the string form interpolates exactly the four extents in the stated order."""
    def go(c):
        a, A = rect(c, 1)
        l, b, rr, t = A
        protect(a, "the rectangle")
        p = lambda x, y: pt(x, y)
        c.eq("width", c.attr(a, "width"), N(rr - l))
        c.eq("height", c.attr(a, "height"), N(t - b))
        c.eq("area", c.attr(a, "area"), N((rr - l) * (t - b)))
        c.eq("diagonal", c.attr(a, "diagonal"), lst([p(l, b), p(rr, t)]))
        c.eq("centerPoint", c.attr(a, "centerPoint"), p(AVG(l, rr), AVG(b, t)))
        c.eq("contour", c.attr(a, "contour"), lst([lst([p(l, b), p(l, t)]), lst([p(l, t), p(rr, t)]), lst([p(rr, t), p(rr, b)]), lst([p(rr, b), p(l, b)])]))
        c.eq("points", c.attr(a, "points"), Tup([N(x) for x in A]))
        f = sym("f")
        c.eq("xFromLeft", c.meth(a, "xFromLeft", f), N(l + (rr - l) * r(f)))
        c.eq("yFromBottom", c.meth(a, "yFromBottom", f), N(b + (t - b) * r(f)))
        from ..builtins_ import format_parts
        v = lambda x: format_parts(c.it, N(x), -1, "")
        want = mkstr(["[("] + v(l) + [", "] + v(b) + ["), ("] + v(rr) + [", "] + v(t) + [")]"])
        c.eq("str", c.call(c.it.builtins["str"], a), want)
        c.hazards()
        unmutated(c)
    ck.run("measures", go)

    def skewed(c):
        # constants: asymmetric, negative and fractional values
        for (l, b, rr, t) in [(0, 0, 0, 0), (-3, 5, 10, 7), (40000, -50000, 40001, -49000)]:
            c.reset()
            a = c.call(R_, Tup([num(rr), num(b)]), Tup([num(l), num(t)]))
            c.eq("width", c.attr(a, "width"), num(rr - l))
            c.eq("height", c.attr(a, "height"), num(t - b))
            c.eq("area", c.attr(a, "area"), num((rr - l) * (t - b)))
            c.eq("str", c.call(c.it.builtins["str"], a), string("[(%d, %d), (%d, %d)]" % (l, b, rr, t)))
            c.eq("center", c.attr(a, "centerPoint"), Tup([num(Fraction(l + rr, 2)), num(Fraction(b + t, 2))]))
        c.hazards()
    ck.run("constants", skewed)
