"""C19-C24, C27, C28: extrema, bounding boxes, alignment, roots, length, offsetting, reduction, query independence."""
import itertools
from math import comb
import mpmath
from ..h import *
from .transform import minimum
from .curves import BZ, BC, BO, FILES, bern, deriv, bezier, cps, get, _havoc, _light

TRUE = BoolV(T)
HALF = Rat.c(Fraction(1, 2))


def Q(a, b=1):
    return Rat.c(Fraction(a, b))


def pos(name):
    return r(sym(name, pos=True))


def inside(v):
    return AND(dom.le(ZERO, v), dom.le(v, RONE))


def cubic1(start, d0, d1, d2):
    """coordinates of a cubic with derivative Bernstein coefficients d0, d1, d2"""
    t = Q(1, 3)
    a = start
    b = a + d0 * t
    c = b + d1 * t
    return [a, b, c, c + d2 * t]


def quad1(start, d0, d1):
    return [start, start + d0 * HALF, start + (d0 + d1) * HALF]


def from_roots(k, r1, r2):
    """Bernstein coefficients of k(t-r1)(t-r2)"""
    return k * r1 * r2, k * (r1 * r2 - (r1 + r2) * HALF), k * (RONE - r1) * (RONE - r2)


def coord_classes(tag, start=None):
    """families of one coordinate of a cubic: name -> (coordinates, first derivative zeros, second derivative zeros).
    Together with the complex family they cover every cubic, up to the sign of the leading coefficient, which both are given."""
    x0 = start if start is not None else r(sym("s" + tag))
    k, a, w, h = pos("k" + tag), r(sym("a" + tag)), pos("w" + tag), r(sym("h" + tag))
    out = {}
    for sg, nm in ((1, "+"), (-1, "-")):
        kk = k * sg
        out["two roots " + nm] = (cubic1(x0, *from_roots(kk, a, a + w)), [a, a + w], [a + w * HALF])
        out["double root " + nm] = (cubic1(x0, *from_roots(kk, a, a)), [a], [a])
        # k((t-a)^2 + w^2): no real root
        d = from_roots(kk, a, a)
        out["no root " + nm] = (cubic1(x0, *[x + kk * w * w for x in d]), [], [a])
        # k(t-a): the cubic is a quadratic
        out["linear " + nm] = (cubic1(x0, -kk * a, kk * (HALF - a), kk * (RONE - a)), [a], [])
        out["constant " + nm] = (cubic1(x0, kk, kk, kk), [], [])
    out["flat"] = ([x0] * 4, [], [])
    return out


def quad_classes(tag, start=None):
    x0 = start if start is not None else r(sym("s" + tag))
    k, a = pos("k" + tag), r(sym("a" + tag))
    out = {}
    for sg, nm in ((1, "+"), (-1, "-")):
        kk = k * sg
        out["one root " + nm] = (quad1(x0, -kk * a, kk * (RONE - a)), [a])
        out["constant " + nm] = (quad1(x0, kk, kk), [])
    out["flat"] = ([x0] * 3, [])
    return out


def points2(xs, ys):
    return [pt(x, y) for x, y in zip(xs, ys)]


def listing(c, v):
    """[(guard, entries)] of a list value"""
    return [(AND(g, c.it.live), c.items(x)) for g, x in alts(prune(v, c.it.live)) if AND(g, c.it.live) != F]


def same_set(c, key, v, want, guard=None, distinct=False):
    """the list holds exactly the numbers want = [(guard, Rat)], in any order; distinct: without repetition"""
    for g, ents in listing(c, v):
        if ents is None:
            c.fail(key, "not a list", got=v, guard=g)
            return
        flat = []
        for h, x in ents:
            for k, y in alts(prune(x, AND(g, h))):
                gg = AND(g, h, k)
                if gg != F and bdd.feasible(gg):
                    flat.append((gg, y))
        for gg, y in flat:
            if not isinstance(y, Num):
                c._bad(key, gg, y, "a number", "lists something that is not a number")
        flat = [(gg, y.r) for gg, y in flat if isinstance(y, Num)]

        def equal(gg, a, b):
            if a == b or (a - b).is_zero() or dom.collapses(gg, a, b):
                return T
            return dom.eq0(a - b)
        for gg, y in flat:
            ok = OR(*[AND(w, equal(gg, y, e)) for w, e in want]) if want else F
            bad = AND(gg, NOT(ok))
            if bad == F:
                c.ob("normal form")
                continue
            ps = c.find(bad, (y,) + tuple(e for _, e in want), want=8)
            for p in ps:
                if _listed(p, y, want):
                    continue
                c.fail(key, "lists a parameter that is not one of those required", got=y, want=[e for _, e in want], point=p, guard=bad)
                return
            c.ob("identity test")
        for w, e in want:
            got = OR(*[AND(gg, equal(AND(gg, w), y, e)) for gg, y in flat]) if flat else F
            bad = AND(g, w, NOT(got))
            if bad == F or not bdd.feasible(bad):
                c.ob("normal form")
                continue
            ps = c.find(bad, (e,) + tuple(y for _, y in flat), want=8)
            for p in ps:
                if _listed(p, e, flat):
                    continue
                c.fail(key, "does not list a required parameter", got=[y for _, y in flat], want=e, point=p, guard=bad)
                return
            c.ob("identity test")


def _listed(p, y, want):
    """numerically one of the present ones, or not decidable at this point"""
    from .. import alg as A
    try:
        v = A.evalf(y, p.env, p.memo)
        for w, e in want:
            if bdd.evalb(w, p.env, p.memo) and abs(A.evalf(e, p.env, p.memo) - v) < 1e-15 * (1 + abs(v)):
                return True
    except Exception:
        return True
    return False


def increasing(c, key, v):
    """a list whose entries increase strictly"""
    for g, ents in listing(c, v):
        for (g1, a), (g2, b) in itertools.combinations(ents, 2):
            for h, x in alts(prune(a, AND(g, g1))):
                for k, y in alts(prune(b, AND(g, g2))):
                    gg = AND(g, g1, g2, h, k)
                    if gg == F or not (isinstance(x, Num) and isinstance(y, Num)):
                        continue
                    bad = AND(gg, NOT(dom.lt(x.r, y.r)))
                    if bad == F or not bdd.feasible(bad):
                        c.ob("normal form")
                        continue
                    ps = c.find(bad, (x.r, y.r))
                    if ps:
                        c.fail(key, "entries do not increase strictly", got=v, point=ps[0], guard=bad)
                        return
                    c.ob("no point in guard")


def extrema_of(c, b):
    e = c.attr(b, "extrema")
    return [c.it.getitem(e, num(i)) if hasattr(c.it, "getitem") else c.it.call(c.it.getattr(e, "__getitem__"), [num(i)], {}) for i in range(3)]


def in_unit(vs):
    return [(inside(v), v) for v in vs]


@minimum(300)
def c19(ck):
    """extrema of symbolic curves.  Every cubic coordinate belongs to one of eleven parametrised families (two roots, double root, no real
    root, linear, constant, flat; both leading signs) with symbolic roots, so the listed parameters come out as normal forms; they are
    compared as guarded sets with the roots in [0, 1].  The combined list is checked for order and repetition."""
    ck.prepare = _havoc
    for tag in ("x", "y"):
        for nm, (co, d1, d2) in coord_classes(tag).items():
            def go(c, tag=tag, co=co, d1=d1, d2=d2):
                other = [r(sym("o"))] * 4
                b = bezier(c, points2(co, other) if tag == "x" else points2(other, co))
                e = extrema_of(c, b)
                d = 0 if tag == "x" else 1
                want = in_unit(d1 + d2)
                same_set(c, "dimension %d" % d, e[d], want)
                same_set(c, "dimension %d" % (1 - d), e[1 - d], [])
                same_set(c, "combined", e[2], want)
                increasing(c, "combined", e[2])
                c.hazards()
            ck.run("cubic %s %s" % (tag, nm), go)
        for nm, (co, d1) in quad_classes(tag).items():
            def go(c, tag=tag, co=co, d1=d1):
                other = [r(sym("o"))] * 3
                b = bezier(c, points2(co, other) if tag == "x" else points2(other, co))
                e = extrema_of(c, b)
                d = 0 if tag == "x" else 1
                want = in_unit(d1)
                same_set(c, "dimension %d" % d, e[d], want)
                same_set(c, "dimension %d" % (1 - d), e[1 - d], [])
                same_set(c, "combined", e[2], want)
                increasing(c, "combined", e[2])
                c.hazards()
            ck.run("quadratic %s %s" % (tag, nm), go)

    def line(c):
        e = extrema_of(c, bezier(c, pts(2)))
        for d in range(3):
            same_set(c, "dimension %d" % d, e[d], [])
        c.hazards()
    ck.run("line", line)

    def generic_quad(c):
        """fully symbolic control points"""
        ps = pts(3)
        q = cps(ps)
        e = extrema_of(c, bezier(c, ps))
        allw = []
        for d in (0, 1):
            den = q[0][d] - q[1][d] * 2 + q[2][d]
            root = (q[0][d] - q[1][d]) / den
            w = [(AND(NOT(dom.eq0(den)), inside(root)), root)]
            allw += w
            same_set(c, "dimension %d" % d, e[d], w)
        c.hazards()
    ck.run("quadratic generic", generic_quad)

    def generic_cubic(c):
        """fully symbolic control points: whatever is listed is a critical parameter in [0, 1]"""
        ps = pts(4)
        q = cps(ps)
        e = extrema_of(c, bezier(c, ps))
        for d in (0, 1):
            for g, ents in listing(c, e[d]):
                for h, v in ents:
                    for k, x in alts(prune(v, AND(g, h))):
                        gg = AND(g, h, k)
                        if gg == F or not bdd.feasible(gg):
                            continue
                        if not isinstance(x, Num):
                            c._bad("dimension %d" % d, gg, x, "a number", "lists something that is not a number")
                            continue
                        t = x.r
                        p1 = [a[d] for a in deriv(q)]
                        p2 = [(b - a) for a, b in zip(p1, p1[1:])]
                        f1 = bern([(a, ZERO) for a in p1], t)[0]
                        f2 = bern([(a, ZERO) for a in p2], t)[0]
                        c.eq("dimension %d critical" % d, N(f1 * f2), num(0), g=gg)
                        c.true("dimension %d in range" % d, inside(t), g=gg)
        c.hazards()
    ck.run("cubic generic", generic_cubic)

    # the combined list, by the order of the critical parameters of both dimensions
    a, u, w = r(sym("a")), pos("u"), pos("w")

    def both(nm, x, y, wx, wy):
        def go(c):
            b = bezier(c, points2(x, y))
            e = extrema_of(c, b)
            same_set(c, "dimension 0", e[0], in_unit(wx))
            same_set(c, "dimension 1", e[1], in_unit(wy))
            same_set(c, "combined", e[2], in_unit(wx + wy))
            increasing(c, "combined", e[2])
            same_set(c, "combined again", extrema_of(c, b)[2], in_unit(wx + wy))
            c.hazards()
        ck.run("both dimensions: " + nm, go)
    kx, ky, sx, sy = pos("kx"), pos("ky"), r(sym("sx")), r(sym("sy"))
    for nm, rx, ry in [("x first", a, a + u), ("y first", a + u, a), ("same", a, a)]:
        for s1, s2 in ((1, 1), (1, -1), (-1, 1)):
            both("quadratic, %s %d%d" % (nm, s1, s2), quad1(sx, -kx * s1 * rx, kx * s1 * (RONE - rx)),
                 quad1(sy, -ky * s2 * ry, ky * s2 * (RONE - ry)), [rx], [ry])
    lin = lambda s, k, root: cubic1(s, -k * root, k * (HALF - root), k * (RONE - root))
    for nm, r1, gap, s in [("y before", a + u, w, a), ("y at the first", a, w, a), ("y between, low", a, u * 2 + w * 2, a + u),
                           ("y at the inflection", a, w, a + w * HALF), ("y between, high", a, u * 2 + w * 2, a + u * 2 + w),
                           ("y at the second", a, w, a + w), ("y after", a, w, a + w + u)]:
        for sg in (1, -1):
            both("cubic and linear, %s %+d" % (nm, sg), cubic1(sx, *from_roots(kx * sg, r1, r1 + gap)), lin(sy, ky, s),
                 [r1, r1 + gap, r1 + gap * HALF], [s])
            both("linear and cubic, %s %+d" % (nm, sg), lin(sx, kx, s), cubic1(sy, *from_roots(ky * sg, r1, r1 + gap)),
                 [s], [r1, r1 + gap, r1 + gap * HALF])
    for i, (p, q, s, t) in enumerate([(1, 3, 2, 4), (1, 2, 3, 4), (3, 4, 1, 2), (1, 4, 2, 3), (1, 3, 1, 3), (1, 3, 2, 3), (0, 6, 2, 4), (-1, 3, 1, 7),
                                      (0, 5, 0, 5), (2, 2, 1, 3), (-3, -1, 1, 2), (1, 9, 5, 5), (5, 6, 7, 8)]):
        f = lambda z: Q(z, 5)
        for s1, s2 in ((1, 1), (-1, 1)):
            both("cubics %d %+d%+d" % (i, s1, s2), cubic1(sx, *from_roots(kx * s1, f(p), f(q))), cubic1(sy, *from_roots(ky * s2, f(s), f(t))),
                 [f(p), f(q), f(Fraction(p + q, 2))], [f(s), f(t), f(Fraction(s + t, 2))])


def value_at(co, t):
    n = len(co) - 1
    mt = RONE - t
    acc = ZERO
    for i, p in enumerate(co):
        acc = acc + p * (t ** i) * (mt ** (n - i)) * comb(n, i)
    return acc


def span(co, roots):
    """(min, max) of a coordinate over [0, 1], given the zeros of its derivative"""
    items = [(T, co[0]), (T, co[-1])] + [(inside(t), value_at(co, t)) for t in roots]
    return dom.mk_lattice("MIN", items), dom.mk_lattice("MAX", items)


def rect(c, v):
    return [c.attr(v, a) for a in ("left", "bottom", "right", "top")]


@minimum(250)
def c20(ck):
    """bounding boxes of symbolic curves, family by family as for the extrema: minimum and maximum are the lattice minimum and maximum of the
    coordinate at the ends and at the critical parameters in [0, 1]; rectangle, overlap, contour and outline bounds follow from them."""
    ck.prepare = _havoc

    def box(c, b, dims):
        bb = c.attr(b, "bbox")
        for d, (co, roots) in enumerate(dims):
            lo, hi = span(co, roots)
            v = c.it.call(c.it.getattr(bb, "__getitem__"), [num(d)], {})
            c.eq("dimension %d" % d, v, Tup([N(lo), N(hi)]))
        rc = rect(c, c.attr(b, "boundsRectangle"))
        (lx, hx), (ly, hy) = span(*dims[0]), span(*dims[1])
        for nm, g, w in zip(("left", "bottom", "right", "top"), rc, (lx, ly, hx, hy)):
            c.eq(nm, g, N(w))
        c.eq("bbox again", c.it.call(c.it.getattr(c.attr(b, "bbox"), "__getitem__"), [num(1)], {}), Tup([N(ly), N(hy)]))

    for fam, n in ((coord_classes, 4), (quad_classes, 3)):
        for tag in ("x", "y"):
            for nm, cl in fam(tag).items():
                def go(c, tag=tag, cl=cl, n=n):
                    co, d1 = cl[0], cl[1]
                    oth = [r(sym("o")) + Q(i) * r(sym("e")) for i in range(n)]   # other dimension: uniform motion
                    dims = [(co, d1), (oth, [])] if tag == "x" else [(oth, []), (co, d1)]
                    b = bezier(c, points2(dims[0][0], dims[1][0]))
                    box(c, b, dims)
                    c.hazards()
                ck.run("%s %s %s" % ("cubic" if n == 4 else "quadratic", tag, nm), go)

    def line(c):
        q = cps(pts(2))
        box(c, bezier(c, pts(2)), [([p[0] for p in q], []), ([p[1] for p in q], [])])
        c.hazards()
    ck.run("line", line)

    def generic_quad(c):
        ps = pts(3)
        q = cps(ps)
        b = bezier(c, ps)
        rc = rect(c, c.attr(b, "boundsRectangle"))
        for d in (0, 1):
            co = [p[d] for p in q]
            den = co[0] - co[1] * 2 + co[2]
            t = (co[0] - co[1]) / den
            g = AND(NOT(dom.eq0(den)), inside(t))
            items = [(T, co[0]), (T, co[2]), (g, value_at(co, t))]
            c.eq("low %d" % d, rc[d], N(dom.mk_lattice("MIN", items)))
            c.eq("high %d" % d, rc[d + 2], N(dom.mk_lattice("MAX", items)))
        c.hazards()
    ck.run("quadratic generic", generic_quad)

    # both dimensions at once: the other dimension's critical parameters do not disturb
    sx, sy, kx, ky = r(sym("sx")), r(sym("sy")), pos("kx"), pos("ky")
    for i, (p, q, s, t) in enumerate([(1, 3, 2, 4), (1, 2, 3, 4), (3, 4, 1, 2), (0, 5, 1, 4), (-1, 3, 1, 7), (2, 2, 1, 3), (-3, -1, 6, 8), (0, 3, 2, 5)]):
        f = lambda z: Q(z, 5)
        for s1, s2 in ((1, 1), (-1, 1), (1, -1)):
            def go(c, p=p, q=q, s=s, t=t, s1=s1, s2=s2):
                x, y = cubic1(sx, *from_roots(kx * s1, f(p), f(q))), cubic1(sy, *from_roots(ky * s2, f(s), f(t)))
                box(c, bezier(c, points2(x, y)), [(x, [f(p), f(q)]), (y, [f(s), f(t)])])
                c.hazards()
            ck.run("cubics %d %+d%+d" % (i, s1, s2), go)
    for i, (p, s) in enumerate([(1, 2), (2, 1), (2, 2), (0, 5), (5, 0), (-1, 3), (3, 7), (-1, 7)]):
        for s1, s2 in ((1, 1), (-1, 1), (1, -1)):
            def go(c, p=p, s=s, s1=s1, s2=s2):
                x = quad1(sx, -kx * s1 * Q(p, 5), kx * s1 * Q(5 - p, 5))
                y = quad1(sy, -ky * s2 * Q(s, 5), ky * s2 * Q(5 - s, 5))
                box(c, bezier(c, points2(x, y)), [(x, [Q(p, 5)]), (y, [Q(s, 5)])])
                c.hazards()
            ck.run("quadratics %d %+d%+d" % (i, s1, s2), go)

    def after(c):
        """asking for the extrema or other parts first changes nothing"""
        k = pos("k")
        x, y = cubic1(sx, *from_roots(k, Q(1, 5), Q(4, 5))), cubic1(sy, *from_roots(-ky, Q(2, 5), Q(3, 5)))
        for nm, qs in [("extrema", ("extrema",)), ("bounds rectangle", ("boundsRectangle",)), ("skeleton", ("skeletonBounds",)), ("all", ("extrema", "bbox", "boundsRectangle", "bbox"))]:
            c.reset()
            b = bezier(c, points2(x, y))
            for a in qs:
                c.attr(b, a)
            box(c, b, [(x, [Q(1, 5), Q(4, 5)]), (y, [Q(2, 5), Q(3, 5)])])
        c.hazards()
    ck.run("after other queries", after)

    def shared(g, h):
        """rectangles (l, b, r, t) of numbers share a point"""
        return AND(dom.le(g[0], h[2]), dom.le(h[0], g[2]), dom.le(g[1], h[3]), dom.le(h[1], g[3]))

    def overlap(c):
        """two lines with symbolic ends; two curves with symbolic bounds"""
        a, b = pts(2, "a"), pts(2, "b")
        A, B_ = cps(a), cps(b)
        rec = lambda q: (dom.mk_lattice("MIN", [(T, p[0]) for p in q]), dom.mk_lattice("MIN", [(T, p[1]) for p in q]),
                         dom.mk_lattice("MAX", [(T, p[0]) for p in q]), dom.mk_lattice("MAX", [(T, p[1]) for p in q]))
        want = shared(rec(A), rec(B_))
        u, v = bezier(c, a), bezier(c, b)
        c.eq("lines", c.meth(u, "overlaps", v), BoolV(want))
        c.eq("lines, other way round", c.meth(v, "overlaps", u), BoolV(want))
        c.eq("itself", c.meth(u, "overlaps", u), TRUE)
        c.hazards()
    ck.run("overlap of lines", overlap)

    def overlap_curves(c):
        R = c.get("PathLib.PathUtilities.BoundsRectangle")
        u, v = bezier(c, pts(4, "a")), bezier(c, pts(3, "b"))
        w, h = [[pos("%s%d" % (n, i)) for i in (0, 1)] for n in ("w", "h")]
        org = [[r(sym("%s%d" % (n, i))) for i in (0, 1)] for n in ("l", "m")]
        recs = {}
        for k, o in ((0, u), (1, v)):
            l, m = org[0][k], org[1][k]
            recs[id(o.o)] = (l, m, l + w[k], m + h[k])

        def bounds(it, f, args, kw):
            l, m, x, y = recs[id(args[0].o)]
            return it.call(R, [pt(l, m), pt(x, y)], {})
        c.it.overrides[BZ + ".boundsRectangle"] = bounds
        c.eq("curves", c.meth(u, "overlaps", v), BoolV(shared(recs[id(u.o)], recs[id(v.o)])))
        c.hazards()
    ck.run("overlap of curves", overlap_curves)

    def union(rs, i):
        return dom.mk_lattice("MIN" if i < 2 else "MAX", [(T, x[i]) for x in rs])

    def contours(c):
        from .contours import chain, contour
        R = c.get("PathLib.PathUtilities.BoundsRectangle")
        made = {}

        def bounds(it, f, args, kw):
            cp = it.entries(it.getattr(args[0], "controlPoints"))
            k = vkey(cp[0][1]), vkey(cp[-1][1])
            if k not in made:
                n = len(made)
                l, m, w, h = r(sym("l%d" % n)), r(sym("m%d" % n)), pos("w%d" % n), pos("h%d" % n)
                made[k] = (l, m, l + w, m + h)
            l, m, x, y = made[k]
            return it.call(R, [pt(l, m), pt(x, y)], {})
        c.it.overrides[BZ + ".boundsRectangle"] = bounds
        for shape in [(3,), (1, 2), (3, 2, 1), (1, 1, 1, 1)]:
            made.clear()
            c.reset()
            rc = rect(c, c.attr(contour(c, chain(shape)), "boundsRectangle"))
            for i in range(4):
                c.eq("contour %s side %d" % (shape, i), rc[i], N(union(list(made.values()), i)))
        for shapes in [[(3,)], [(1, 2), (2,)], [(3,), (1, 1), (2,)]]:
            made.clear()
            c.reset()
            o = c.call(BO, lst([lst([lst(s) for s in chain(k, "c%d" % i)]) for i, k in enumerate(shapes)]))
            rc = rect(c, c.attr(o, "boundsRectangle"))
            for i in range(4):
                c.eq("outline %s side %d" % (shapes, i), rc[i], N(union(list(made.values()), i)))
        c.hazards()
    ck.run("contours and outlines", contours)

    def lines(c):
        """contours of lines, from the points"""
        from .contours import chain, contour
        for n in (1, 2, 3):
            c.reset()
            segs = chain((1,) * n)
            ps = [q for s in segs for q in cps(s)]
            rc = rect(c, c.attr(contour(c, segs), "boundsRectangle"))
            for i in range(4):
                c.eq("%d lines side %d" % (n, i), rc[i], N(dom.mk_lattice("MIN" if i < 2 else "MAX", [(T, q[i % 2]) for q in ps])))
        c.reset()
        o = c.call(BO, lst([]))
        c.hazards()
    ck.run("contours of lines", lines)


def motion(p, a, b):
    """p under the rigid motion putting a at the origin and b on the non-negative x axis"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = hyp(dx, dy)
    u, v = p[0] - a[0], p[1] - a[1]
    return (u * dx + v * dy) / L, (v * dx - u * dy) / L


def unmotion(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = hyp(dx, dy)
    return (p[0] * dx - p[1] * dy) / L + a[0], (p[0] * dy + p[1] * dx) / L + a[1]


def straight_bounds(c):
    """bounds of a curve summarised by those of its control polygon (what alignment does with them does not depend on their values)"""
    R = c.get("PathLib.PathUtilities.BoundsRectangle")

    def summary(it, f, args, kw):
        return it.call(R, [x for _, x in it.entries(it.getattr(args[0], "controlPoints"))], {})
    c.it.overrides[BZ + ".boundsRectangle"] = summary


@minimum(150)
def c21(ck):
    """alignment of symbolic curves to symbolic segments: every control point equals its image under the rigid motion, as a normal form with the
    segment's length as a square root; degenerate segments; the tight box is the aligned curve's box moved back."""
    ck.prepare = lambda c: _havoc(c, only_init=True, direction=True)
    def aligned(c, key, b, q, a, e, *args):
        res = c.meth(b, "align", *args)
        dx, dy = e[0] - a[0], e[1] - a[1]
        zero = AND(dom.eq0(dx), dom.eq0(dy))
        cp = c.attr(res, "controlPoints")
        c.eq(key, cp, lst([pt(*motion(p, a, e)) for p in q]), g=NOT(zero))
        if bdd.feasible(zero):
            c.eq(key + ", degenerate", cp, lst([pt(p[0] - a[0], p[1] - a[1]) for p in q]), g=zero)
        return res

    for k in (1, 2, 3):
        def own(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            b = c.call(BZ, protect(lst(ps), "the control points"))
            res = aligned(c, "own ends", b, q, q[0], q[-1])
            c.eq("first at the origin", c.attr(res, "start"), pt(ZERO, ZERO))
            c.eq("last on the axis", N(r(c.it.getattr(res, "endY"))) if isinstance(c.it.getattr(res, "endY"), Num) else c.it.getattr(res, "endY"), num(0))
            c.eq("unchanged", c.attr(b, "controlPoints"), lst(ps))
            aligned(c, "own ends, asked by None", b, q, q[0], q[-1], NONE)
            c.hazards()
            unmutated(c)
        ck.run("order %d to its own ends" % k, own)

        def other(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            for n in (2, 3, 4):
                c.reset()
                seg = pts(n, "s")
                b = c.call(BZ, protect(lst(ps), "the control points"))
                arg = protect(lst(seg), "the segment")
                s = cps(seg)
                aligned(c, "segment of %d points" % n, b, q, s[0], s[-1], arg)
                c.hazards()
                unmutated(c)
            c.reset()
            b = bezier(c, ps)
            aligned(c, "a tuple of points", b, q, cps(pts(2, "s"))[0], cps(pts(2, "s"))[1], Tup(pts(2, "s")))
            got = c.call(BZ + "._align", lst(ps), lst(pts(2, "s")))
            c.eq("points", got, lst([pt(*motion(p, cps(pts(2, "s"))[0], cps(pts(2, "s"))[1])) for p in q]),
                 g=NOT(AND(dom.eq0(r(sym("xs0")) - r(sym("xs1"))), dom.eq0(r(sym("ys0")) - r(sym("ys1"))))))
            c.hazards()
        ck.run("order %d to a segment" % k, other)

    def axis(c):
        """segments along the axes, in both directions"""
        ps = pts(4)
        q = cps(ps)
        a, L = (r(sym("ax")), r(sym("ay"))), pos("L")
        for nm, (ex, ey) in [("right", (1, 0)), ("left", (-1, 0)), ("up", (0, 1)), ("down", (0, -1)), ("diagonal", (1, 1)), ("back", (-1, -1)),
                             ("steep", (3, -4)), ("flat", (-12, 5))]:
            c.reset()
            e = (a[0] + L * ex, a[1] + L * ey)
            b = bezier(c, ps)
            h = hyp(Q(ex), Q(ey))
            want = []
            for p in q:
                u, v = p[0] - a[0], p[1] - a[1]
                want.append(pt((u * ex + v * ey) / h, (v * ex - u * ey) / h))
            c.eq(nm, c.attr(c.meth(b, "align", lst([pt(*a), pt(*e)])), "controlPoints"), lst(want))
        c.hazards()
    ck.run("segments in fixed directions", axis)

    for k in (1, 2, 3):
        def tight(c, k=k):
            straight_bounds(c)
            ps = pts(k + 1)
            q = cps(ps)
            b = bezier(c, ps)
            al = c.meth(b, "align")
            rb = c.attr(al, "boundsRectangle")
            box = [[x for _, x in c.it.entries(s)] for _, s in c.it.entries(c.attr(rb, "contour"))]
            got = c.attr(b, "tightbbox")
            zero = AND(dom.eq0(q[0][0] - q[-1][0]), dom.eq0(q[0][1] - q[-1][1]))
            c.eq("tight box", got, lst([lst([pt(*unmotion(xy(p), q[0], q[-1])) for p in s]) for s in box]), g=NOT(zero))
            c.eq("tight box, closed curve", got, lst([lst([pt(xy(p)[0] + q[0][0], xy(p)[1] + q[0][1]) for p in s]) for s in box]), g=zero)
            c.hazards()
        ck.run("tight box of order %d" % k, tight)

    def tightline(c):
        """a line's tight box is the line itself"""
        a, L = (r(sym("ax")), r(sym("ay"))), pos("L")
        for ex, ey in [(1, 0), (0, 1), (-1, 0), (3, 4), (-5, 12)]:
            c.reset()
            e = (a[0] + L * ex, a[1] + L * ey)
            b = bezier(c, [pt(*a), pt(*e)])
            got = c.attr(b, "tightbbox")
            A, E = pt(*a), pt(*e)
            c.eq("%d %d" % (ex, ey), got, lst([lst([A, A]), lst([A, E]), lst([E, E]), lst([E, A])]))
        c.hazards()
    ck.run("tight box of lines", tightline)


EPS = Fraction(1, 10 ** 6)


def near_unit(v, e=EPS):
    return AND(dom.le(Rat.c(-e), v), dom.le(v, Rat.c(1 + e)))


def poly_families():
    """Bernstein coefficients of polynomials of degree 2 and 3 with known real roots:
    (name, coefficients, simple roots, multiple roots, condition).  The cubic code treats a leading coefficient of at most the precision as
    zero; the families keep away from that band, either exactly zero or beyond it."""
    k, a, u, v, h, g = pos("k"), r(sym("a")), pos("u"), pos("v"), r(sym("h")), pos("g")
    out = []

    def cub(c3, c2, c1, c0):
        return [c0, c0 + c1 / Q(3), c0 + c1 * Q(2, 3) + c2 / Q(3), c0 + c1 + c2 + c3]

    def monic(kk, r1, r2, r3):
        return cub(kk, -kk * (r1 + r2 + r3), kk * (r1 * r2 + r1 * r3 + r2 * r3), -kk * r1 * r2 * r3)
    big = dom.lt(Rat.c(EPS), k)
    for sg, nm in ((1, "+"), (-1, "-")):
        kk = k * sg
        out.append((2, "quadratic, two roots " + nm, list(from_roots(kk, a, a + u)), [a, a + u], [], T))
        out.append((2, "quadratic, double root " + nm, list(from_roots(kk, a, a)), [], [a], T))
        out.append((2, "quadratic, no root " + nm, [x + kk * g * g for x in from_roots(kk, a, a)], [], [], T))
        out.append((2, "quadratic, linear " + nm, [-kk * a, kk * (HALF - a), kk * (RONE - a)], [a], [], T))
        out.append((2, "quadratic, constant " + nm, [kk] * 3, [], [], T))
        out.append((3, "three roots " + nm, monic(kk, a, a + u, a + u + v), [a, a + u, a + u + v], [], big))
        out.append((3, "double root first " + nm, monic(kk, a, a, a + u), [a + u], [a], big))
        out.append((3, "double root last " + nm, monic(kk, a, a + u, a + u), [a], [a + u], big))
        out.append((3, "triple root " + nm, monic(kk, a, a, a), [], [a], big))
        # k (t - a)((t - h)^2 + g^2)
        out.append((3, "one root " + nm, cub(kk, -kk * (a + h * 2), kk * (h * h + g * g + a * h * 2), -kk * a * (h * h + g * g)), [a], [], big))
        out.append((3, "cubic, two roots " + nm, cub(ZERO, kk, -kk * (a * 2 + u), kk * a * (a + u)), [a, a + u], [], big))
        out.append((3, "cubic, double root " + nm, cub(ZERO, kk, -kk * a * 2, kk * a * a), [], [a], big))
        out.append((3, "cubic, no root " + nm, cub(ZERO, kk, -kk * a * 2, kk * (a * a + g * g)), [], [], big))
        out.append((3, "cubic, linear " + nm, cub(ZERO, ZERO, kk, -kk * a), [a], [], big))
        out.append((3, "cubic, constant " + nm, [kk] * 4, [], [], T))
    return out


def crossings(c, key, v, simple, multiple):
    """every listed number is a root (near [0, 1]); every simple root in [0, 1] is listed"""
    allr = [(near_unit(t), t) for t in simple + multiple]
    for g, ents in listing(c, v):
        if ents is None:
            c.fail(key, "not a list", got=v, guard=g)
            return
        flat = []
        for h, x in ents:
            for kx, y in alts(prune(x, AND(g, h))):
                gg = AND(g, h, kx)
                if gg == F or not bdd.feasible(gg):
                    continue
                if not isinstance(y, Num):
                    if not c._bad(key, gg, y, "a number", "lists something that is not a number"):
                        return
                    continue
                flat.append((gg, y.r))
        for gg, y in flat:
            one_of(c, key + ": listed", gg, y, allr, "lists a parameter that is not a root")
        for t in simple:
            one_of(c, key + ": found", AND(g, inside(t)), t, flat, "misses a simple root")


def one_of(c, key, g, y, among, what):
    def equal(a, b):
        return a == b or (a - b).is_zero() or dom.collapses(g, a, b)
    ok = OR(*[w for w, e in among if equal(y, e)]) if among else F
    bad = AND(g, NOT(ok))
    if bad == F or not bdd.feasible(bad):
        c.ob("normal form")
        return True
    ps = c.find(bad, (y,) + tuple(e for _, e in among), want=6)
    for p in ps:
        if _listed(p, y, among):
            continue
        c.fail(key, what, got=y, want=[e for _, e in among], point=p, guard=bad)
        return False
    c.ob("identity test")
    return True


@minimum(120)
def c22(ck):
    """roots of symbolic curves whose coordinate across the line is a polynomial with symbolic roots (15 families, both signs): every listed
    parameter is one of the roots and every simple root in [0, 1] is listed; for symbolic lines as well as the axis; fully symbolic curves:
    every listed parameter annihilates the polynomial.  lineIntersects is the filter of the roots by the segment's extents."""
    ck.prepare = _havoc
    exact_align = lambda c: (_havoc(c, only_init=True), None)

    for n, nm, co, simple, multiple, g in poly_families():
        def go(c, co=co, simple=simple, multiple=multiple, g=g, n=n):
            c.require(g)
            xs = [r(sym("x%d" % i)) for i in range(n + 1)]
            b = bezier(c, points2(xs, co))
            crossings(c, "axis", c.meth(b, "roots"), simple, multiple)
            crossings(c, "axis, by None", c.meth(b, "roots", NONE), simple, multiple)
            c.hazards()
        ck.run(nm, go)

    dirs = [(1, 0), (-1, 0), (0, 1), (0, -1), (3, 4), (-4, 3), (-5, -12), (8, -15)]
    L, ax, ay = pos("L"), r(sym("ax")), r(sym("ay"))
    for n, nm, co, simple, multiple, g in poly_families():
        if "constant" in nm or "linear" in nm or "triple" in nm:
            continue

        def go(c, co=co, simple=simple, multiple=multiple, g=g, n=n, nm=nm):
            c.it.overrides.clear()
            _havoc(c, only_init=True, direction=True)
            slow = n == 3 and "cubic" not in nm
            for ex, ey in (dirs if not slow or ck.thorough else [dirs[0], dirs[3], dirs[5]]):
                c.reset()
                c.assume = T
                c.require(g)
                h = r(N(hyp(Q(ex), Q(ey))))
                xs = [r(sym("x%d" % i)) for i in range(n + 1)]
                ps = [pt((x * ex - y * ey) / h + ax, (x * ey + y * ex) / h + ay) for x, y in zip(xs, co)]
                b = bezier(c, ps)
                line = lst([pt(ax, ay), pt(ax + L * ex, ay + L * ey)])
                crossings(c, "direction %d %d" % (ex, ey), c.meth(b, "roots", line), simple, multiple)
                c.hazards("direction %d %d" % (ex, ey))
        ck.run("line: " + nm, go)

    for n in (2, 3) if ck.thorough else (2,):
        def generic(c, n=n):
            """fully symbolic control points; whatever is listed is a root"""
            ps = pts(n + 1)
            y = [p[1] for p in cps(ps)]
            if n == 3:
                d = y[3] - y[0] + y[1] * 3 - y[2] * 3
                c.require(OR(dom.lt(Rat.c(EPS), d), dom.lt(d, Rat.c(-EPS))))
            for g, ents in listing(c, c.meth(bezier(c, ps), "roots")):
                for h, v in ents:
                    for k, x in alts(prune(v, AND(g, h))):
                        gg = AND(g, h, k)
                        if gg == F or not bdd.feasible(gg):
                            continue
                        if not isinstance(x, Num):
                            c._bad("listed", gg, x, "a number", "lists something that is not a number")
                            continue
                        c.eq("is a root", N(value_at(y, x.r)), num(0), g=gg, tol=mpmath.mpf(10) ** -12)
                        c.true("near [0, 1]", near_unit(x.r), g=gg)
            c.hazards()
        ck.run("generic order %d" % n, generic)

    def formulas(c):
        """butils.droots: Bernstein coefficients -> roots"""
        DR = "PathLib.BezierUtilities.droots"
        k, a, u = pos("k"), r(sym("a")), pos("u")
        for sg in (1, -1):
            kk = k * sg
            for nm, co, w in [("two roots", from_roots(kk, a, a + u), [a, a + u]), ("double root", from_roots(kk, a, a), [a]),
                              ("linear", (-kk * a, kk * (HALF - a), kk * (RONE - a)), [a]), ("constant", (kk, kk, kk), []),
                              ("degree one", (-kk * a, kk * (RONE - a)), [a]), ("constant of degree one", (kk, kk), []), ("degree zero", (kk,), [])]:
                got = c.call(DR, lst([N(x) for x in co]))
                same_set(c, nm, got, [(T, x) for x in w])
        for nm, co in [("zero", [ZERO] * 3), ("zero of degree one", [ZERO] * 2), ("nothing", [])]:
            same_set(c, nm, c.call(DR, lst([N(x) for x in co])), [])
        x = r(sym("x"))
        w = pos("w")
        c.eq("cube root of a cube", c.call("PathLib.BezierUtilities.crt", N(w * w * w)), N(w))
        c.eq("cube root of a negative cube", c.call("PathLib.BezierUtilities.crt", N(-w * w * w)), N(-w))
        c.eq("cube root of zero", c.call("PathLib.BezierUtilities.crt", num(0)), num(0))
        for g, v in alts(prune(c.call("PathLib.BezierUtilities.crt", N(x)), c.it.live)):
            c.eq("cube of the cube root", N(r(v) ** 3), N(x), g=g)
        c.hazards()
    ck.run("root formulas", formulas)

    def filter_(c):
        """lineIntersects keeps the roots whose points lie within the extents; the roots themselves are unknown"""
        ts = [r(sym("t%d" % i)) for i in range(3)]
        seen = []

        def roots(it, f, args, kw):
            seen.append(args[1] if len(args) > 1 else kw.get("segment", NONE))
            return lst([N(t) for t in ts])
        c.it.overrides[BZ + ".roots"] = roots
        for n in (2, 3):
            c.reset()
            seen.clear()
            ps = pts(n + 1)
            q = cps(ps)
            line = Tup([P("a"), P("b")])
            b = bezier(c, ps)
            got = c.meth(b, "lineIntersects", line)
            a, e = cps(line.items)
            ents = []
            for t in ts:
                p = bern(q, t)
                ok = T
                for d in (0, 1):
                    lo, hi = dom.mk_lattice("MIN", [(T, a[d]), (T, e[d])]), dom.mk_lattice("MAX", [(T, a[d]), (T, e[d])])
                    near = lambda m: AND(dom.le(p[d] - m, Rat.c(EPS)), dom.le(m - p[d], Rat.c(EPS)))
                    ok = AND(ok, OR(AND(dom.le(lo, p[d]), dom.le(p[d], hi)), near(lo), near(hi)))
                ents.append([ok, N(t)])
            want = Ref(ListObj(ents))
            for g, v in alts(prune(got, c.it.live)):
                have = c.items(v)
                if have is None or len(have) != 3 or any(not isinstance(x, Num) or x.r != t for (_, x), t in zip(have, ts)):
                    c.eq("order %d" % n, v, want, g=g)
                    continue
                for i, ((h, _), (w, _)) in enumerate(zip(have, ents)):
                    c.eq("order %d: root %d is kept" % (n, i), BoolV(h), BoolV(w), g=g)
            if len(seen) != 1 or not isinstance(seen[0], (Tup, Ref)):
                c.fail("order %d" % n, "the roots asked for are not those of the line")
            else:
                c.eq("order %d: roots of the line" % n, lst([x for _, x in c.items(seen[0])]), lst(line.items))
            c.hazards()
    ck.run("crossings within a segment", filter_)

    def with_line(c):
        """intersectWithLine: the curve's point at the first root"""
        t = r(sym("t"))
        n = [0]
        answer = [None]

        def roots(it, f, args, kw):
            n[0] += 1
            return lst([N(x) for x in answer[0]])
        c.it.overrides[BZ + ".roots"] = roots
        for k in (2, 3):
            ps = pts(k + 1)
            q = cps(ps)
            b, l = bezier(c, ps), bezier(c, pts(2, "l"))
            answer[0] = [t, r(sym("u"))]
            got = c.meth(b, "intersectWithLine", l)
            c.eq("order %d" % k, got, pt(*bern(q, t)), g=inside(t))
            c.eq("order %d, before the start" % k, got, ps[0], g=dom.lt(t, ZERO))
            c.eq("order %d, after the end" % k, got, ps[-1], g=dom.lt(RONE, t))
            answer[0] = []
            c.eq("order %d, none" % k, c.meth(b, "intersectWithLine", l), NONE)
        b, l = bezier(c, pts(2, "a")), bezier(c, pts(2, "l"))
        (ax, ay), (bx, by) = cps(pts(2, "a"))
        (cx, cy), (dx, dy) = cps(pts(2, "l"))
        den = (bx - ax) * (dy - cy) - (by - ay) * (dx - cx)
        s = ((cx - ax) * (dy - cy) - (cy - ay) * (dx - cx)) / den
        got = c.meth(b, "intersectWithLine", l)
        c.eq("lines", got, pt(ax + (bx - ax) * s, ay + (by - ay) * s), g=NOT(dom.eq0(den)))
        c.eq("parallel lines", got, NONE, g=dom.eq0(den))
        c.hazards()
    ck.run("crossing with a line", with_line)


# ---------------------------------------------------------------- C23

def legendre(n):
    """nodes and weights of the n-point Gauss-Legendre rule on [-1, 1], as rationals accurate to 45 digits"""
    mp = mpmath.mp.clone()
    mp.dps = 60

    def both(x):
        a, b = mp.mpf(1), x
        for k in range(2, n + 1):
            a, b = b, ((2 * k - 1) * x * b - (k - 1) * a) / k
        return b, n * (x * b - a) / (x * x - 1)
    out = []
    for i in range(n):
        x = mp.cos(mp.pi * (mp.mpf(i) + mp.mpf(3) / 4) / (n + mp.mpf(1) / 2))
        for _ in range(12):
            p, d = both(x)
            x = x - p / d
        p, d = both(x)
        w = 2 / ((1 - x * x) * d * d)
        S = 10 ** 46
        out.append((Fraction(int(mp.nint(x * S)), S), Fraction(int(mp.nint(w * S)), S)))
    return out


def speed_sum(q, rule):
    """sum of weight * speed over the rule mapped to [0, 1]"""
    k = len(q) - 1
    d = [tuple((b - a) * k for a, b in zip(p, s)) for p, s in zip(q, q[1:])]
    total = ZERO
    for x, w in rule:
        t = Rat.c((x + 1) / 2)
        v = bern(d, t) if k > 1 else d[0]
        total = total + sqrt(v[0] * v[0] + v[1] * v[1]) * Rat.c(w / 2)
    return total


def c23(ck):
    """both tables against the Legendre nodes and weights computed to 60 digits; length of symbolic lines, quadratics and cubics as a normal form:
    half the sum over the nodes of each weight times the speed at its own abscissa; effect analysis of the decimal context on every normal and
    exceptional exit, with a fault injected at each call that may raise"""
    ck.prepare = _havoc
    rule = legendre(24)
    TIGHT = mpmath.mpf(10) ** -36
    DEC = "_decimal_stub.getcontext"
    shapes = [("order %d" % k, k, pts(k + 1)) for k in (1, 2, 3)]
    a = P("p0")
    b, e, m = P("p1"), P("p3"), P("p2")
    shapes += [("no extent", 3, [a] * 4), ("coincident start", 3, [a, a, b, e]), ("coincident end", 3, [a, b, e, e]), ("closed", 3, [a, b, e, a]),
               ("closed quadratic", 2, [a, b, a]), ("horizontal line", 1, [a, Tup([sym("x9"), a.items[1]])]), ("point", 1, [a, a])]

    def tables(c):
        """the tables hold the nodes and weights to the precision they are printed with"""
        BU = "PathLib.BezierUtilities"
        try:
            xs, ws = [[x for _, x in c.items(c.get(BU + "." + n))] for n in ("tValues", "cValues")]
        except Exception:
            c.ob("no such tables")
            return
        if len(xs) != len(ws) or len(xs) != 24:
            c.fail("tables", "%d abscissae and %d weights instead of 24" % (len(xs), len(ws)))
            return
        want = {round(float(x), 12): (x, w) for x, w in rule}
        for i, (x, w) in enumerate(zip(xs, ws)):
            xv, wv = r(x).const, r(w).const
            near = want.pop(round(float(xv), 12), None)
            if near is None:
                c.fail("abscissa %d" % i, "not an abscissa of the rule, or listed twice", got=x)
                continue
            for what, have, ref in (("abscissa", xv, near[0]), ("weight", wv, near[1])):
                # printed with 40 decimals, the last of which may be one off
                if abs(have - ref) > Fraction(2, 10 ** 40):
                    c.fail("%s %d" % (what, i), "differs from the Gauss-Legendre value", got=N(Rat.c(have)), want=N(Rat.c(ref)))
                else:
                    c.ob("normal form")
    ck.run("tables", tables)

    for nm, k, ps in shapes:
        def go(c, k=k, ps=ps):
            q = cps(ps)
            prec = c.it.getattr(c.call(DEC), "prec")
            want = Num(speed_sum(q, rule), "dec")
            bz = bezier(c, ps)
            ctx = c.call(DEC)
            c.eq("length", c.attr(bz, "length"), want, tol=TIGHT)
            c.eq("length, asked again", c.attr(bz, "length"), want, tol=TIGHT)
            c.true("same decimal context", T if c.call(DEC).o is ctx.o else F)
            c.eq("decimal precision", c.it.getattr(c.call(DEC), "prec"), prec)
            c.hazards()
        ck.run(nm, go)

    for k in (1, 2, 3):
        def faults(c, k=k):
            """an exception raised by any one of the decimal operations"""
            ps = pts(k + 1)
            at = 0
            total = None
            n = 0
            while total is None or n <= total:
                c.reset()
                bz = bezier(c, ps)
                before = c.call(DEC)
                # the caller's context may have any precision
                prec = N(pos("precision"))
                c.it.setattr(before, "prec", prec)
                count = [0]
                fired = [False]

                def op(it):
                    count[0] += 1
                    if n and count[0] == n:
                        fired[0] = True
                        it.raise_(T, "InvalidOperation", "injected")
                c.it.decimal_op = op
                try:
                    c.attr(bz, "length")
                except Dead:
                    pass
                c.it.decimal_op = None
                if not n:
                    total = count[0]
                exits = [g for g, _ in c.it.exc[0]]
                g = OR(*exits) if n else T
                c.it.exc = [[]]
                c.it.live = c.assume
                if n and (not fired[0] or g == F):
                    break
                after = c.call(DEC)
                lab = "exit %d" % n if n else "normal exit"
                c.true("%s: same decimal context" % lab, T if after.o is before.o else F, g=g)
                c.eq("%s: decimal precision" % lab, c.it.getattr(c.call(DEC), "prec"), prec, g=g)
                if n:
                    # and a later query is not answered with the unfinished sum
                    c.it.exc = [[]]
                    if n in (1, 2, total // 2, total):
                        c.eq("%s: length asked again" % lab, c.attr(bz, "length"), Num(speed_sum(cps(ps), rule), "dec"), tol=TIGHT, g=g)
                n = n + (1 if ck.thorough or n < 12 or n > total - 6 else 37)
        ck.run("exceptional exits, order %d" % k, faults)


# ---------------------------------------------------------------- C24

def ends(k, s0=1, s1=1, u=None, v=None):
    """(control points, unit normal at the start, at the end) of a generic curve of order k.  The end tangents are m(1-u^2, 2u), n(1-v^2, 2v)
    with m, n > 0: every direction but one; s0, s1 turn them round, so that that one is included too (as u = 0 backwards)"""
    p0 = (r(sym("x0")), r(sym("y0")))
    u, v, m, n = r(sym("u")) if u is None else u, r(sym("v")) if v is None else v, pos("m"), pos("n")
    du, dv = (RONE - u * u, u * 2), (RONE - v * v, v * 2)
    a = tuple(x * m * s0 for x in du)
    b = tuple(x * n * s1 for x in dv)
    n0 = (-du[1] * s0 / (RONE + u * u), du[0] * s0 / (RONE + u * u))
    n1 = (-dv[1] * s1 / (RONE + v * v), dv[0] * s1 / (RONE + v * v))
    p1 = (p0[0] + a[0], p0[1] + a[1])
    if k == 2:
        q = [p0, p1, (p1[0] + b[0], p1[1] + b[1])]
    else:
        e = (r(sym("x3")), r(sym("y3")))
        q = [p0, p1, (e[0] - b[0], e[1] - b[1]), e]
    return q, n0, n1


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def sub(a, b):
    return a[0] - b[0], a[1] - b[1]


def meet(p, a, q, b):
    """intersection of the lines through p along a and through q along b"""
    s = cross(sub(q, p), b) / cross(a, b)
    return p[0] + a[0] * s, p[1] + a[1] * s


@minimum(150)
def c24(ck):
    """offset points against point + d * normal; scaled and offset curves against the construction with unit normals of generic end tangents"""
    ck.prepare = _havoc
    Z = [("t", sym("t")), ("0", num(0)), ("1", num(1)), ("1/4", num(Fraction(1, 4)))]
    for k in (1, 2, 3):
        def point(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            b = c.call(BZ, protect(lst(ps), "the control points"))
            dq = deriv(q)
            for nm, tv in Z:
                t = r(tv)
                v = bern(dq, t) if k > 1 else dq[0]
                s = v[0] * v[0] + v[1] * v[1]
                p = bern(q, t)
                h = sqrt(s)
                nrm = (-v[1] / h, v[0] / h)
                live = c.it.live
                for dn, d in (("d", sym("d")), ("0", num(0)), ("10", num(10)), ("-1/2", num(Fraction(-1, 2)))):
                    c.reset()
                    c.it.live = AND(live, NOT(dom.eq0(s)))
                    res = c.meth(b, "offset", tv, d)
                    c.eq("offset(%s, %s)" % (nm, dn), res, lst([pt(*p), pt(*nrm), pt(p[0] + nrm[0] * r(d), p[1] + nrm[1] * r(d))]))
                    c.hazards("offset(%s, %s) completes" % (nm, dn))
                c.it.live = live
            unmutated(c)
        ck.run("points of order %d" % k, point)

    def nondegenerate(c, q, n0, n1):
        o = meet(q[0], n0, q[-1], n1)
        c.require(NOT(dom.eq0(cross(n0, n1))))
        for i, (e, nn) in zip((1, len(q) - 2), ((q[0], n0), (q[-1], n1))):
            # the construction: along the tangent from the moved end to the ray from o through the inner point
            w = sub(q[i], o)
            c.require(NOT(dom.eq0(w[0] * nn[0] + w[1] * nn[1])))
        return o

    signs = [(1, 1), (1, -1), (-1, 1), (-1, -1)]
    for k in (2, 3):
        for s0, s1 in signs:
            def constant(c, k=k, s0=s0, s1=s1):
                q, n0, n1 = ends(k, s0, s1)
                o = nondegenerate(c, q, n0, n1)
                ps = [pt(*p) for p in q]
                b = c.call(BZ, protect(lst(ps), "the control points"))
                d0, d1 = sub(q[1], q[0]), sub(q[-1], q[-2])
                for nm, dv in (("d", sym("d")), ("0", num(0)), ("3", num(3)), ("-7/2", num(Fraction(-7, 2)))):
                    d = r(dv)
                    res = c.meth(b, "scale", dv)
                    e0 = (q[0][0] + n0[0] * d, q[0][1] + n0[1] * d)
                    e1 = (q[-1][0] + n1[0] * d, q[-1][1] + n1[1] * d)
                    want = [e0, meet(e0, d0, o, sub(q[1], o))]
                    if k == 3:
                        want.append(meet(e1, d1, o, sub(q[2], o)))
                    want.append(e1)
                    c.eq("scale(%s)" % nm, c.attr(res, "controlPoints"), lst([pt(*p) for p in want]))
                c.eq("unchanged", c.attr(b, "controlPoints"), lst(ps))
                c.hazards()
                unmutated(c)
            ck.run("scale order %d by a constant, tangents %d %d" % (k, s0, s1), constant)

    for k in (2, 3):
        def parallel(c, k=k):
            """no centre: refused"""
            p0 = (r(sym("x0")), r(sym("y0")))
            u, m, n = r(sym("u")), pos("m"), pos("n")
            du = (RONE - u * u, u * 2)
            for s in (1, -1):
                c.reset()
                p1 = (p0[0] + du[0] * m, p0[1] + du[1] * m)
                e = (r(sym("x3")), r(sym("y3")))
                q = [p0, p1, (p1[0] + du[0] * n * s, p1[1] + du[1] * n * s)] if k == 2 else [p0, p1, (e[0] - du[0] * n * s, e[1] - du[1] * n * s), e]
                b = bezier(c, [pt(*p) for p in q])
                try:
                    c.meth(b, "scale", sym("d"))
                except Dead:
                    pass
                c.must_raise("parallel normals %d" % s, ["ValueError"])
            c.expected_dead = True
        ck.run("scale order %d with parallel normals" % k, parallel)

    for k in (2, 3):
        # fixed directions for the tangents of cubics keep the distances from the centre small
        dirs = [(None, None)] if k == 2 else [(ZERO, Q(1, 2)), (Q(1, 3), ZERO), (Q(-3), Q(1, 2))] + ([(ZERO, None)] if ck.thorough else [])
        for s0, s1, u, v in [(s, t, u, v) for s, t in (signs if ck.thorough else [(1, 1), (1, -1)]) for u, v in dirs]:
            def varying(c, k=k, s0=s0, s1=s1, u=u, v=v):
                """distance functions: the ends move by the distances there along the normals, the inner points (of the raised curve, for a quadratic)
                move radially by the distance at their index, to the same side as the ends"""
                _havoc(c)
                del c.it.overrides["PathLib.BezierUtilities.angle"]
                q, n0, n1 = ends(k, s0, s1, u, v)
                c.require(NOT(dom.eq0(cross(n0, n1))))
                o = meet(q[0], n0, q[-1], n1)
                ps = [pt(*p) for p in q]
                b = c.call(BZ, protect(lst(ps), "the control points"))
                a, e = sym("a"), sym("e")
                fns = [("affine", c.call("_distance.affine", a, e), lambda t: r(a) + r(e) * t)]
                g = sym("g")
                fns.append(("quadratic", c.call("_distance.quadratic", a, e, g), lambda t: r(a) + r(e) * t + r(g) * t * t))
                if k == 2:
                    third = Q(1, 3)
                    inner = [tuple((x + y * 2) * third for x, y in zip(q[0], q[1])), tuple((y * 2 + z) * third for y, z in zip(q[1], q[2]))]
                else:
                    inner = q[1:3]
                turn = cross(sub(q[-1], q[0]), sub(inner[0], q[0]))
                for p in inner:
                    w = sub(p, o)
                    c.require(NOT(dom.eq0(w[0] * w[0] + w[1] * w[1])))
                c.require(NOT(dom.eq0(turn)))
                for nm, fn, f in fns:
                    res = c.meth(b, "scale", fn)
                    got = c.it.entries(c.attr(res, "controlPoints"))
                    if len(got) != 4 or any(h != T for h, _ in got):
                        c.fail(nm, "the scaled curve does not have 4 control points", got=c.attr(res, "controlPoints"))
                        continue
                    e0 = (q[0][0] + n0[0] * f(ZERO), q[0][1] + n0[1] * f(ZERO))
                    e1 = (q[-1][0] + n1[0] * f(RONE), q[-1][1] + n1[1] * f(RONE))
                    c.eq("%s: start" % nm, got[0][1], pt(*e0))
                    c.eq("%s: end" % nm, got[3][1], pt(*e1))
                    for i, p in enumerate(inner):
                        w = sub(p, o)
                        h = hyp(*w)
                        d = f(Q(i + 1, 3))
                        for g1, s in ((dom.lt(ZERO, turn), 1), (dom.lt(turn, ZERO), -1)):
                            c.eq("%s: inner point %d" % (nm, i), got[i + 1][1], pt(p[0] + w[0] / h * d * s, p[1] + w[1] / h * d * s), g=g1)
                c.hazards()
                unmutated(c)
            ck.run("scale order %d by a function, tangents %d %d" % (k, s0, s1), varying)

    def straight(c):
        """straight curves: every control point moves along the common normal.  That alignment puts a straight curve on the axis is C21's"""
        c.it.overrides[BZ + "._align"] = lambda it, f, args, kw: lst([Tup([N(r(sym("along%d" % i))), num(0)]) for i, _ in enumerate(it.entries(args[0]))])
        u, L = r(sym("u")), pos("L")
        for sg in (1, -1):
            du = ((RONE - u * u) * sg, u * 2 * sg)
            nn = (-du[1] / (RONE + u * u), du[0] / (RONE + u * u))
            for k in (1, 2, 3):
                c.reset()
                p0 = (r(sym("x0")), r(sym("y0")))
                q = [p0] + [(p0[0] + du[0] * f, p0[1] + du[1] * f) for f in [L] + [r(sym("f%d" % i)) for i in range(2, k + 1)]]
                ps = [pt(*p) for p in q]
                b = c.call(BZ, protect(lst(ps), "the control points"))
                for nm, dv in (("d", sym("d")), ("0", num(0)), ("-3", num(-3))):
                    res = c.it.entries(c.meth(b, "offset", dv))
                    if len(res) != 1 or res[0][0] != T:
                        c.fail("order %d" % k, "not one curve", got=lst([x for _, x in res]))
                        continue
                    c.eq("order %d by %s" % (k, nm), c.attr(res[0][1], "controlPoints"), lst([pt(p[0] + nn[0] * r(dv), p[1] + nn[1] * r(dv)) for p in q]))
                c.eq("order %d unchanged" % k, c.attr(b, "controlPoints"), lst(ps))
            c.hazards()
            unmutated(c)
    ck.run("straight curves", straight)

    tol = Q(1, 10000)
    for k in (2, 3):
        for ex, ey, h in [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (3, 4, 5), (-5, 12, 13)] + ([(0, -1, 1), (7, -24, 25), (-4, -3, 5)] if ck.thorough else []):
            def straightness(c, k=k, ex=ex, ey=ey, h=h):
                """which curves move as a whole: those whose control points all lie within 0.0001 of the line through the ends; nothing of the
                constructor is replaced but the turning direction (C26's)"""
                c.it.overrides.clear()
                c.it.overrides["PathLib.BezierUtilities.angle"] = lambda it, f, args, kw: sym("turn")
                c.it.overrides[BZ + ".reduce"] = lambda it, f, args, kw: lst([])
                p0 = (r(sym("x0")), r(sym("y0")))
                e, n = (Q(ex, h), Q(ey, h)), (Q(-ey, h), Q(ex, h))
                L = pos("L")
                inner = [(r(sym("a%d" % i)), r(sym("v%d" % i))) for i in range(1, k)]
                q = [p0] + [tuple(p0[i] + e[i] * a + n[i] * v for i in (0, 1)) for a, v in inner] + [tuple(p0[i] + e[i] * L for i in (0, 1))]
                dx, dy = q[1][0] - q[0][0], q[1][1] - q[0][1]
                c.require(NOT(dom.eq0(dx * dx + dy * dy)))
                b = c.call(BZ, protect(lst([pt(*p) for p in q]), "the control points"))
                near = AND(*[AND(dom.le(-tol, v), dom.le(v, tol)) for _, v in inner])
                s = dx * dx + dy * dy
                nn = (-dy / sqrt(s), dx / sqrt(s))
                d = r(sym("d"))
                want = lst([pt(*[p[i] + nn[i] * d for i in (0, 1)]) for p in q])
                for g, v in alts(c.meth(b, "offset", sym("d"))):
                    got = c.it.entries(v)
                    if len(got) == 1 and got[0][0] == T:
                        c.eq("order %d: moved as a whole only if straight" % k, num(1), num(0), g=AND(g, NOT(near)))
                        c.eq("order %d: straight" % k, c.attr(got[0][1], "controlPoints"), want, g=AND(g, near))
                    else:
                        c.eq("order %d: straight curves move as a whole" % k, v, lst([None]), g=AND(g, near))
                        c.eq("order %d: curved" % k, v, lst([]), g=AND(g, NOT(near)))
                c.hazards()
                unmutated(c)
            ck.run("straightness of order %d along %d %d" % (k, ex, ey), straightness)

    def pieces(c):
        """any other curve: the offsets of the pieces it reduces to, in order"""
        straightness = [None]

        def align(it, f, args, kw):
            y = num(0) if straightness[0] else num(1)
            return lst([Tup([y, y]) for _ in it.entries(args[0])])
        c.it.overrides[BZ + "._align"] = align
        q3, _, _ = ends(3)
        q2, n20, n21 = ends(2)
        o = meet(q2[0], n20, q2[-1], n21)
        c.require(NOT(dom.eq0(cross(n20, n21))))
        for i, (e, nn) in zip((1, 1), ((q2[0], n20), (q2[-1], n21))):
            w = sub(q2[i], o)
            c.require(NOT(dom.eq0(w[0] * nn[0] + w[1] * nn[1])))
        straightness[0] = False
        whole = bezier(c, pts(4, "w"))
        curved = bezier(c, [pt(*p) for p in q2])
        u = r(sym("u"))
        du = (RONE - u * u, u * 2)
        l0 = (r(sym("lx")), r(sym("ly")))
        straightness[0] = True
        line = bezier(c, [pt(*l0), pt(l0[0] + du[0], l0[1] + du[1]), pt(l0[0] + du[0] * 2, l0[1] + du[1] * 2)])
        straightness[0] = False
        c.it.overrides[BZ + ".reduce"] = lambda it, f, args, kw: lst([curved, line, curved] if args[0].o is whole.o else [])
        for nm, dv in (("d", sym("d")), ("0", num(0)), ("2", num(2))):
            want = [c.attr(c.meth(curved, "scale", dv), "controlPoints"), c.attr(c.it.entries(c.meth(line, "offset", dv))[0][1], "controlPoints")]
            got = [x for _, x in c.it.entries(c.meth(whole, "offset", dv))]
            if len(got) != 3:
                c.fail("by " + nm, "%d pieces instead of 3" % len(got))
                continue
            for i, w in ((0, want[0]), (1, want[1]), (2, want[0])):
                c.eq("by %s: piece %d" % (nm, i), c.attr(got[i], "controlPoints"), w)
        c.it.overrides[BZ + ".reduce"] = lambda it, f, args, kw: lst([])
        c.eq("nothing", c.meth(whole, "offset", sym("d")), lst([]))
        c.hazards()
    ck.run("pieces", pieces)


# ---------------------------------------------------------------- C27

def restrict(q, a, b):
    """control points of the part of q between the parameters a and b (blossoming)"""
    n = len(q) - 1
    out = []
    for i in range(n + 1):
        w = list(q)
        for j in range(n):
            t = b if j < i else a
            w = [tuple(x + (y - x) * t for x, y in zip(p, s)) for p, s in zip(w, w[1:])]
        out.append(w[0])
    return out


@minimum(150)
def c27(ck):
    """simple(): no domain error for end normals of any length, value against the cosine of the angle between unit normals; reduce(): extrema and answers
    of simple() supplied from outside, pieces compared with the curve restricted to the interval they report"""
    ck.prepare = lambda c: _havoc(c, direction=True)

    for k in (1, 2, 3):
        def total(c, k=k):
            """rounding: the normals may be a little (here: arbitrarily) off unit length"""
            n = [0]

            def normal(it, f, args, kw):
                n[0] += 1
                return pt(r(sym("nx%d" % n[0])), r(sym("ny%d" % n[0])))
            for nm in (".normal", "._normal"):
                c.it.overrides[BZ + nm] = normal
            b = bezier(c, pts(k + 1))
            c.meth(b, "simple")
            c.hazards("simple() completes")
        ck.run("simple() of order %d under rounding" % k, total)

    for k in (2, 3):
        for s0, s1 in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
            def value(c, k=k, s0=s0, s1=s1):
                del c.it.overrides["PathLib.BezierUtilities.angle"]
                q, n0, n1 = ends(k, s0, s1)
                b = bezier(c, [pt(*p) for p in q])
                dot = n0[0] * n1[0] + n0[1] * n1[1]
                want = dom.lt(HALF, dot)
                g = T
                if k == 3:
                    ch = sub(q[3], q[0])
                    c1, c2 = cross(ch, sub(q[1], q[0])), cross(ch, sub(q[2], q[0]))
                    want = AND(want, NOT(OR(AND(dom.lt(ZERO, c1), dom.lt(c2, ZERO)), AND(dom.lt(c1, ZERO), dom.lt(ZERO, c2)))))
                    # points on the chord's line lie on neither side
                    g = AND(NOT(dom.eq0(c1)), NOT(dom.eq0(c2)))
                got = c.meth(b, "simple")
                c.eq("simple", got, BoolV(want), g=AND(g, NOT(dom.eq0(dot - HALF))))
                c.hazards()
            ck.run("simple() of order %d, tangents %d %d" % (k, s0, s1), value)

    e1, e2 = r(sym("e1")), r(sym("e2"))
    two = AND(dom.lt(ZERO, e1), dom.lt(e1, e2), dom.lt(e2, RONE))
    lists = [("no extrema", [], T), ("one extremum", [e1], AND(dom.lt(ZERO, e1), dom.lt(e1, RONE))), ("extremum at the start", [ZERO, e1], AND(dom.lt(ZERO, e1), dom.lt(e1, RONE))),
             ("extremum at the end", [e1, RONE], AND(dom.lt(ZERO, e1), dom.lt(e1, RONE))), ("two extrema", [e1, e2], two), ("extrema at both ends", [ZERO, RONE], T),
             ("fixed extrema", [Q(1, 4), Q(3, 5)], T)]
    # how often simple() says yes before it says no, again and again; after the last: always yes
    runs = [[], [1], [2], [37], [99], [100], [50, 50], [1, 1, 1], [33, 34], [10] * 10, [98, 1], [100, 3, 60], [2, 40, 7, 30]]
    if ck.thorough:
        runs += [[n] for n in range(3, 99, 5)] + [[1] * 100, [3] * 40, [7] * 50, [100, 100, 100]]
    never = [[0], [5, 0], [100, 0], [100, 2, 0]]

    def scenario(c, k, es, rl):
        """reduce() of a generic curve with the extrema es and the answers rl -> (control points, result)"""
        left = list(rl)
        good = set()      # parameters from which a simple piece was found
        stuck = [False]   # not even the shortest piece from some parameter was simple

        def simple(it, f, args, kw):
            at = it.getattr(args[0], "_t1")
            at = at.r if isinstance(at, Num) else None
            if left and left[0] == 0:
                left.pop(0)
                if at not in good:
                    stuck[0] = True
                return BoolV(F)
            good.add(at)
            if left:
                left[0] -= 1
            return BoolV(T)

        def extrema(it, f, args, kw):
            return Tup([lst([N(x) for x in es]), lst([]), lst([N(x) for x in es])])
        c.it.overrides[BZ + ".simple"] = simple
        c.it.overrides[BZ + ".extrema"] = extrema
        ps = pts(k + 1)
        b = c.call(BZ, protect(lst(ps), "the control points"))
        res = c.meth(b, "reduce")
        return cps(ps), res, stuck[0]

    for k in (2, 3):
        for enm, es, cond in lists:
            rls = runs if enm == "no extrema" or ck.thorough else runs[1:4] + runs[6:8] + runs[11:] if k == 2 else runs[3:4] + runs[12:]
            if k == 3 and enm in ("two extrema", "one extremum") and not ck.thorough:
                rls = [[98, 1]]
            for rl in rls + (never if enm == "no extrema" or enm == "two extrema" and (k == 2 or ck.thorough) else []):
                def pieces(c, k=k, es=es, cond=cond, rl=rl):
                    c.require(cond)
                    q, res, stuck = scenario(c, k, es, rl)
                    got = c.it.entries(res)
                    if stuck and not got:
                        c.ob("normal form")
                        return
                    if not got or any(g != T for g, _ in got):
                        c.fail("pieces", "a reduction is possible, but there are no pieces" if not got else "the number of pieces depends on the control points", got=res)
                        return
                    at = N(ZERO)
                    for i, (_, s) in enumerate(got):
                        t1, t2 = c.it.getattr(s, "_t1"), c.it.getattr(s, "_t2")
                        if not isinstance(t1, Num) or not isinstance(t2, Num):
                            c.fail("interval of piece %d" % i, "not numbers", got=Tup([t1, t2]))
                            return
                        if not c.eq("piece %d starts where the previous one ends" % i, t1, at):
                            return
                        if not c.true("piece %d is not empty" % i, dom.lt(t1.r, t2.r)):
                            return
                        if not c.eq("piece %d is the curve between its parameters" % i, c.attr(s, "controlPoints"), lst([pt(*p) for p in restrict(q, t1.r, t2.r)])):
                            return
                        at = t2
                    c.eq("the last piece ends at the end", at, N(RONE))
                    # every extremum separates two pieces
                    for j, e in enumerate(es):
                        hit = OR(*[dom.eq0(r(c.it.getattr(s, x)) - e) for _, s in got for x in ("_t1", "_t2")])
                        c.true("pieces meet at extremum %d" % j, hit)
                    c.hazards()
                    unmutated(c)
                ck.run("reduce order %d, %s, %s" % (k, enm, rl), pieces)
