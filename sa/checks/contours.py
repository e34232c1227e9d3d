"""C29, C30: contours under editing, and their path strings."""
import itertools
from ..h import *
from .. import svg
from .transform import minimum
from .curves import BZ, BC, bezier, cps, _light, _havoc


def chain(orders, pre="", closed=False):
    """connected segments of the given orders"""
    out, last = [], P(pre + "s")
    first = last
    for i, k in enumerate(orders):
        p = [last] + pts(k, "%s%d_" % (pre, i))
        if closed and i == len(orders) - 1:
            p[-1] = first
        last = p[-1]
        out.append(p)
    return out


def contour(c, segs):
    return c.call(BC, lst([lst(s) for s in segs]))


def same_contour(c, key, b, segs, lut=(3,), d=True):
    """every observation of b equals that of a fresh contour of segs"""
    f = contour(c, segs)
    bz = prune(c.attr(b, "beziers"), c.it.live)
    c.eq(key + ": number of curves", num(len(c.it.entries(bz))), num(len(segs)))
    c.eq(key + ": curves", lst([c.attr(x, "controlPoints") for _, x in c.it.entries(bz)]), lst([lst(s) for s in segs]))
    it = [x for _, x in c.it.entries(c.meth(b, "__iter__"))]
    c.eq(key + ": iteration", lst([c.attr(x, "controlPoints") for x in it]), lst([lst(s) for s in segs]))
    c.eq(key + ": first item", c.attr(c.meth(b, "__getitem__", num(0)), "controlPoints"), lst(segs[0]))
    c.eq(key + ": last item", c.attr(c.meth(b, "__getitem__", num(-1)), "controlPoints"), lst(segs[-1]))
    c.eq(key + ": start", c.attr(b, "start"), segs[0][0])
    c.eq(key + ": end", c.attr(b, "end"), segs[-1][-1])
    rb, rf = c.attr(b, "boundsRectangle"), c.attr(f, "boundsRectangle")
    for a in ("left", "bottom", "right", "top"):
        c.eq(key + ": bounds " + a, c.attr(rb, a), c.attr(rf, a))
    for n in lut:
        c.eq(key + ": getLUT(%d)" % n, c.meth(b, "getLUT", num(n)), c.meth(f, "getLUT", num(n)))
    if d:
        c.eq(key + ": d()", c.meth(b, "d"), c.meth(f, "d"))
        c.eq(key + ": d(rel)", c.meth(b, "d", rel=TRUE), c.meth(f, "d", rel=TRUE))


TRUE = BoolV(T)

QUERIES = {
    "nothing": lambda c, b: None,
    "table, bounds, path string": lambda c, b: (c.meth(b, "getLUT", num(3)), c.attr(b, "boundsRectangle"), c.meth(b, "d"),
                                                c.attr(b, "start"), c.attr(b, "end")),
    "tables of other sizes": lambda c, b: (c.meth(b, "getLUT", num(2)), c.meth(b, "getLUT", num(3))),
    "tables of the curves": lambda c, b: [c.meth(x, "getLUT", num(3)) for _, x in c.it.entries(c.attr(b, "beziers"))],
}


@minimum(400)
def c29(ck):
    """contours of symbolic curves: after every single replacement and deletion (each index, also negative), after pairs of edits, and with
    queries before the edit, every observation equals that of a fresh contour of the remaining curves."""
    def edit(c, b, segs, op, i, new=None):
        segs = list(segs)
        if op == "set":
            c.meth(b, "__setitem__", num(i), lst(new))
            segs[i] = new
        else:
            c.meth(b, "__delitem__", num(i))
            del segs[i]
        return segs

    def case(orders, light, what, queries=("nothing", "table, bounds, path string")):
        def go(c):
            (_light if light else _havoc)(c)
            segs = chain(orders)
            n = len(segs)
            for qn in queries:
                for i in sorted({0, 1, n - 1, -1, -n} & set(range(-n, n))):
                    for op, news in [("set", [1, 2] if not light else [3, 1]), ("del", [None])]:
                        if op == "del" and n == 1:
                            continue
                        for k in news:
                            c.reset()
                            b = contour(c, segs)
                            QUERIES[qn](c, b)
                            new = pts(k + 1, "n") if k else None
                            s2 = edit(c, b, segs, op, i, new)
                            key = "%s [%d]%s after %s" % (op, i, " order %d" % k if k else "", qn)
                            same_contour(c, key, b, s2, d=light or qn != "nothing" or len(segs) < 3)
                            c.hazards(key)
        ck.run(what, go)

    case((1,), False, "one line")
    case((1, 1), False, "two lines", tuple(QUERIES))
    case((2,), True, "one quadratic")
    case((1, 2), True, "line and quadratic")
    case((3, 1), True, "cubic and line", tuple(QUERIES))
    case((2, 1, 3), True, "three curves")
    case((1, 1, 1), False, "three lines")

    def quad_bounds(c):
        _havoc(c)
        segs = chain((1, 2))
        b = contour(c, segs)
        c.attr(b, "boundsRectangle")
        s2 = edit(c, b, segs, "set", 0, pts(2, "n"))
        same_contour(c, "line replaced", b, s2, d=False)
        c.reset()
        b = contour(c, segs)
        s2 = edit(c, b, segs, "del", 0)
        same_contour(c, "line deleted", b, s2, d=False)
        c.reset()
        b = contour(c, segs)
        s2 = edit(c, b, segs, "del", -1)
        same_contour(c, "quadratic deleted", b, s2, d=False)
        c.hazards()
    ck.run("bounds of lines and quadratics", quad_bounds)

    def history(c):
        """two and three edits with queries in between"""
        _havoc(c)
        base = chain((1, 1, 1))
        ops = [("set", 0), ("set", -1), ("del", 0), ("del", -1), ("del", 1)]
        for (o1, i1), (o2, i2) in itertools.product(ops, ops):
            c.reset()
            b = contour(c, base)
            c.meth(b, "getLUT", num(3))
            s = edit(c, b, base, o1, i1, pts(2, "n"))
            c.meth(b, "getLUT", num(3))
            c.attr(b, "boundsRectangle")
            s = edit(c, b, s, o2, i2 if abs(i2) < len(s) or i2 == -1 else 0, pts(3, "m"))
            same_contour(c, "%s [%d] then %s [%d]" % (o1, i1, o2, i2), b, s, d=False)
        c.hazards()
    ck.run("two edits", history, modules=())

    def aliasing(c):
        """the caller's lists are not the contour's: editing the contour leaves them alone"""
        _havoc(c)
        segs = chain((1, 1))
        arg = protect(lst([lst(s) for s in segs]), "the contour passed in")
        new = protect(lst(pts(2, "n")), "the replacement segment")
        b = c.call(BC, arg)
        c.meth(b, "getLUT", num(3))
        c.meth(b, "__setitem__", num(0), new)
        c.meth(b, "getLUT", num(3))
        c.meth(b, "__delitem__", num(1))
        c.meth(b, "d")
        same_contour(c, "after both", b, [pts(2, "n")])
        c.hazards()
        unmutated(c)
    ck.run("arguments are not modified", aliasing)

    def shared(c):
        """two contours of the same segments do not share derived data"""
        _havoc(c)
        segs = chain((1, 1))
        arg = lst([lst(s) for s in segs])
        a, b = c.call(BC, arg), c.call(BC, arg)
        c.meth(a, "getLUT", num(3))
        c.meth(b, "getLUT", num(3))
        s2 = edit(c, a, segs, "set", 0, pts(2, "n"))
        same_contour(c, "the edited one", a, s2)
        same_contour(c, "the other one", b, segs)
        c.hazards()
    ck.run("contours are independent", shared)

    def big(c):
        lits = literals_in(["Bezier.py"], ["__setitem__", "__delitem__", "__getitem__", "__iter__", "getLUT"])
        for n in sorted({12} | {x for x in large(lits, 4) if x < 90}):
            for i in sorted({0, 1, n // 2, 7, n - 2, n - 1, -1, -2, -n} & set(range(-n, n))):
                for op in ("set", "del"):
                    c.reset()
                    _light(c)
                    segs = number_chain(n, (1, 1, 2))
                    b = contour(c, segs)
                    c.meth(b, "getLUT", num(3))
                    c.attr(b, "boundsRectangle")
                    s2 = edit(c, b, segs, op, i, [segs[i][0], Tup([num(9), num(-9)]), segs[i][-1]])
                    same_contour(c, "%s [%d] of %d" % (op, i, n), b, s2)
            c.hazards()
    ck.run("contours of many curves", big)


@minimum(300)
def c30(ck):
    """d() of symbolic contours: every alternative of the derived string, read by the SVG path grammar, draws the curves in order with equal
    coordinates (normal form, or after substituting the equalities of its guard); only zero-length lines may be missing."""
    def check(c, key, segs, **kw):
        b = contour(c, segs)
        want = [[cps(s) for s in segs]]
        v = c.meth(b, "d", **kw)
        svg.draws(c, key, v, want, closed=None if kw.get("use_closed_attrib") else False)
        c.hazards(key)

    variants = [("default", {}), ("rel", {"rel": TRUE}), ("useSandT", {"useSandT": TRUE})]
    for n in (1, 2, 3):
        for orders in itertools.product((1, 2, 3), repeat=n):
            if n == 3 and orders.count(1) == 3 and False:
                continue

            def go(c, orders=orders):
                _light(c)
                for nm, kw in variants:
                    c.reset()
                    check(c, nm, chain(orders), **kw)
            ck.run("orders %s" % (orders,), go)
    long = [(1,) * 4, (2,) * 4, (3,) * 4, (1, 2, 1, 2), (3, 3, 2, 2, 1), (1, 3, 1, 3)]
    for orders in long:
        def go(c, orders=orders):
            _light(c)
            check(c, "default", chain(orders))
        if orders == (1,) * 4 and not ck.thorough:
            pass
        ck.run("orders %s" % (orders,), go)

    def closed(c):
        _light(c)
        for orders in [(1, 1), (1, 1, 1), (2, 1), (3, 2), (1, 3)]:
            for nm, kw in variants + [("closed", {"use_closed_attrib": TRUE})]:
                c.reset()
                check(c, "%s %s" % (orders, nm), chain(orders, closed=True), **kw)
    ck.run("closed contours", closed)

    def horizontal(c):
        """runs of horizontal, vertical and zero-length lines in every order of three"""
        _light(c)
        for kinds in itertools.product("HVZL", repeat=3):
            x, y = r(sym("x0")), r(sym("y0"))
            segs = []
            for i, k in enumerate(kinds):
                nx = r(sym("x%d" % (i + 1))) if k in "HL" else x
                ny = r(sym("y%d" % (i + 1))) if k in "VL" else y
                segs.append([pt(x, y), pt(nx, ny)])
                x, y = nx, ny
            c.reset()
            check(c, "".join(kinds), segs)
    ck.run("axis-parallel lines", horizontal)

    def mixed(c):
        """zero-length and axis-parallel lines between curves"""
        _light(c)
        for kinds in ["QZQ", "CZC", "QHQ", "CVC", "HQH", "VCV", "HZH", "QQ", "CC", "QCQ", "ZQ", "ZHQ", "HCH"]:
            x, y = r(sym("x0")), r(sym("y0"))
            segs = []
            for i, k in enumerate(kinds):
                s = [pt(x, y)]
                for j in range({"Q": 2, "C": 3}.get(k, 1)):
                    nx = x if k in "VZ" else r(sym("x%d_%d" % (i, j)))
                    ny = y if k in "HZ" else r(sym("y%d_%d" % (i, j)))
                    s.append(pt(nx, ny))
                x, y = nx, ny
                segs.append(s)
            for nm, kw in variants:
                c.reset()
                check(c, "%s %s" % (kinds, nm), segs, **kw)
    ck.run("lines between curves", mixed)

    def smooth(c):
        """control points that reflect the previous curve's, and curves whose control points coincide with their ends"""
        _light(c)
        a, b0, d, e, f = P("a"), P("b"), P("d"), P("e"), P("f")
        refl = lambda p, q: pt(xy(q)[0] * 2 - xy(p)[0], xy(q)[1] * 2 - xy(p)[1])
        cases = {
            "smooth cubics": [[a, b0, d, e], [e, refl(d, e), f, a]],
            "smooth quadratics": [[a, b0, d], [d, refl(b0, d), e]],
            "cubic after a quadratic": [[a, b0, d], [d, refl(b0, d), e, f]],
            "quadratic after a cubic": [[a, b0, d, e], [e, refl(d, e), f]],
            "control point at the start": [[a, a, d, e], [e, e, f, a]],
            "quadratic with control at the start": [[a, a, d], [d, d, e]],
            "degenerate cubic": [[a, a, a, a], [a, b0]],
            "degenerate quadratic": [[a, a, a], [a, b0]],
            "quadratic that is a line": [[a, pt(AVG(xy(a)[0], xy(d)[0]), AVG(xy(a)[1], xy(d)[1])), d]],
        }
        for nm, segs in cases.items():
            for vn, kw in variants:
                c.reset()
                check(c, "%s %s" % (nm, vn), segs, **kw)
    ck.run("smooth joints", smooth)

    def again(c):
        """the string does not depend on what was asked before"""
        _light(c)
        segs = chain((1, 2, 1))
        b = contour(c, segs)
        c.meth(b, "d", rel=TRUE)
        c.meth(b, "getLUT", num(3))
        c.meth(b, "d")
        svg.draws(c, "third time", c.meth(b, "d"), [[cps(s) for s in segs]], closed=False)
        x, y = sym("x"), sym("y")
        c.reset()
        v = c.meth(b, "pointToString", Tup([x, y]))
        for g, s in svg.strings(c, v, c.it.live):
            try:
                tk = svg.tokens(s.parts) if isinstance(s, Str) else []
            except svg.Malformed:
                tk = []
            if len(tk) != 2 or tk[0] != ("num", r(x)) or tk[1] != ("num", r(y)):
                c.fail("pointToString", "is not the two coordinates", got=s, guard=g)
            else:
                c.ob("normal form")
        c.hazards()
    ck.run("repeated requests", again)

    def big(c):
        lits = literals_in(["Bezier.py"], ["d"])
        for n in sorted({24} | {x for x in large(lits, 5) if x < 90}):
            for orders in ((1, 2, 3, 1, 1, 2), (1,), (2,), (3,)):
                for nm, kw in variants:
                    c.reset()
                    _light(c)
                    check(c, "%d curves, %s %s" % (n, orders, nm), number_chain(n, orders), **kw)
    ck.run("contours of many curves", big)
