"""C13-C18, C25, C26: evaluation, tables, splitting, derivatives, order raising, direction, ABC."""
from math import comb
from ..h import *
from .transform import minimum

BZ = "PathLib.Bezier.Bezier"
BC = "PathLib.Bezier.BContour"
BO = "PathLib.Bezier.BOutline"
FILES = ["Bezier.py", "BezierUtilities.py"]


def bern(ps, t):
    """Bernstein point of [(Rat, Rat)] at Rat t"""
    n = len(ps) - 1
    mt = RONE - t
    out = []
    for d in (0, 1):
        acc = ZERO
        for i, p in enumerate(ps):
            acc = acc + p[d] * (t ** i) * (mt ** (n - i)) * comb(n, i)
        out.append(acc)
    return tuple(out)


def deriv(ps):
    n = len(ps) - 1
    return [((b[0] - a[0]) * n, (b[1] - a[1]) * n) for a, b in zip(ps, ps[1:])]


def bezier(c, ps):
    """ps: list of point values"""
    return c.call(BZ, lst(list(ps)))


def cps(ps):
    return [xy(p) for p in ps]


def get(c, o, t):
    return c.meth(o, "get", t if isinstance(t, (Num, Choice)) else N(t))


def decasteljau(ps, t):
    out, cur = list(ps), list(ps)
    while len(cur) > 1:
        cur = [(lerp(a[0], b[0], t), lerp(a[1], b[1], t)) for a, b in zip(cur, cur[1:])]
        out += cur
    return out


CONST_T = [Fraction(0), Fraction(1), Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), Fraction(1, 100), Fraction(-1), Fraction(2)]


@minimum(60)
def c13(ck):
    """get(t) for symbolic t and symbolic control points, orders 1..n: every alternative of the gated value equals the Bernstein
    polynomial as a normal form (or after substituting the equality of its guard); constants for t; start/end/startX../midpoint."""
    ck.prepare = _havoc
    lits = literals_in(["Bezier.py"], ["_compute", "get", "midpoint"])
    orders = [k for k in sizes([1, 2, 3, 4, 5], lits, 7 if ck.thorough else 6) if k >= 1]
    for k in orders:
        def go(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            arg = protect(lst(ps), "the control points")
            b = c.call(BZ, arg)
            t = sym("t")
            c.eq("get(t)", get(c, b, t), pt(*bern(q, r(t))))
            c.eq("get(t) again", get(c, b, t), pt(*bern(q, r(t))))
            for v in CONST_T:
                c.eq("get(%s)" % v, get(c, b, num(v)), pt(*bern(q, Rat.c(v))))
            c.eq("start", c.attr(b, "start"), ps[0])
            c.eq("end", c.attr(b, "end"), ps[-1])
            for nm, p, d in [("startX", 0, 0), ("startY", 0, 1), ("endX", -1, 0), ("endY", -1, 1)]:
                c.eq(nm, c.attr(b, nm), ps[p].items[d])
            c.eq("midpoint", c.attr(b, "midpoint"), pt(*bern(q, Rat.c(Fraction(1, 2)))))
            c.eq("order", c.attr(b, "order"), num(k))
            c.eq("controlPoints", c.attr(b, "controlPoints"), lst(ps))
            c.hazards()
            unmutated(c)
        ck.run("order %d" % k, go)

    def special(c):
        for nm, q in [("closed", [P("0"), P("1"), P("2"), P("0")]), ("degenerate", [P("0")] * 3), ("line twice", [P("0"), P("0"), P("1"), P("1")]),
                      ("zero", [pt(ZERO, ZERO), pt(ZERO, ZERO)])]:
            c.reset()
            b = bezier(c, q)
            t = sym("t")
            c.eq(nm, get(c, b, t), pt(*bern(cps(q), r(t))))
            c.hazards(nm)
    ck.run("special control points", special)

    def big(c):
        for k in sorted({8, 9, 12} | set(large(lits, 7, 40))):
            c.reset()
            ps = number_pts(k + 1)
            b = bezier(c, ps)
            for v in CONST_T + [Fraction(1, 3), Fraction(9, 10)]:
                c.eq("order %d, get(%s)" % (k, v), get(c, b, num(v)), pt(*bern(cps(ps), Rat.c(v))))
            c.eq("order %d, midpoint" % k, c.attr(b, "midpoint"), pt(*bern(cps(ps), Rat.c(Fraction(1, 2)))))
            c.hazards()
    ck.run("high orders", big)


@minimum(150)
def c14(ck):
    """getLUT(n) of curves and contours with symbolic control points: exact length, i-th entry == curve at i/(n-1), shared joints once;
    sequences of requests with different n give the same tables as a fresh object."""
    ck.prepare = _havoc
    lits = literals_in(["Bezier.py"], ["getLUT"])
    ns = sizes([2, 3, 5, 9], {x for x in lits if x < 40}, 12)
    ns = [n for n in ns if n >= 2]

    def table(q, n):
        return [pt(*bern(q, Rat.c(Fraction(i, n - 1)))) for i in range(n)]

    def joint(segs, n):
        out = []
        for i, s in enumerate(segs):
            out += table(s, n)[1 if i else 0:]
        return out
    for k in (1, 2, 3, 4):
        def go(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            for n in ns:
                b = bezier(c, ps)
                c.eq("steps %d" % n, c.meth(b, "getLUT", num(n)), lst(table(q, n)))
            b = bezier(c, ps)
            for n in (4, 3, 4, 7, 2, 7):
                c.eq("steps %d in sequence" % n, c.meth(b, "getLUT", num(n)), lst(table(q, n)))
            if k in (1, 3):
                for n in sorted({100} | {x for y in lits if 40 <= y < 600 for x in (y, y + 1)}):
                    b = bezier(c, ps)
                    c.eq("steps %d" % n, c.meth(b, "getLUT", num(n)), lst(table(q, n)))
                b = bezier(c, ps)
                c.eq("default steps", c.meth(b, "getLUT"), lst(table(q, 100)))
                c.eq("default steps, keyword", c.meth(b, "getLUT", steps=num(100)), lst(table(q, 100)))
            c.hazards()
        ck.run("curve of order %d" % k, go)
    for orders in [(1,), (1, 2), (3, 1), (1, 1, 1), (2, 3, 1), (1, 1, 1, 1)]:
        def go(c, orders=orders):
            segs, last = [], P("s")
            for i, k in enumerate(orders):
                p = [last] + pts(k, "%d_" % i)
                last = p[-1]
                segs.append(p)
            qs = [cps(s) for s in segs]
            mk = lambda: c.call(BC, lst([lst(s) for s in segs]))
            _light(c)
            for n in (2, 3, 5):
                b = mk()
                c.eq("steps %d" % n, c.meth(b, "getLUT", num(n)), lst(joint(qs, n)))
            b = mk()
            # requests whose lengths collide with table lengths of other step counts
            m = len(orders)
            seq = [3, 2, 3, 1 + 2 * m, 3, 4, 1 + 3 * m, 2, 1 + m, 2]
            for n in seq:
                if n >= 2:
                    c.eq("steps %d in sequence" % n, c.meth(b, "getLUT", num(n)), lst(joint(qs, n)))
            # a curve of the contour asked first with another count
            b = mk()
            for bz in c.it.entries(c.attr(b, "beziers"))[:1]:
                c.meth(bz[1], "getLUT", num(4))
            c.eq("after a curve's own table", c.meth(b, "getLUT", num(3)), lst(joint(qs, 3)))
            c.hazards()
        ck.run("contour %s" % (orders,), go)

    def big(c):
        for m in sorted({12} | {x for x in large(lits, 4) if x < 90}):
            c.reset()
            _light(c)
            ps = number_pts(m + 1)
            segs = [[a, b] for a, b in zip(ps, ps[1:])]
            b = c.call(BC, lst([lst(s) for s in segs]))
            for n in (3, 2):
                c.eq("%d curves, steps %d" % (m, n), c.meth(b, "getLUT", num(n)), lst(joint([cps(s) for s in segs], n)))
            c.hazards()
    ck.run("contour of many curves", big)


def _light(c):
    """contour construction asks every curve for its bounds; summarise them by the control polygon's bounds where only tables matter"""
    R = c.get("PathLib.PathUtilities.BoundsRectangle")

    def summary(it, f, args, kw):
        return it.call(R, [x for _, x in it.entries(it.getattr(args[0], "controlPoints"))], {})
    c.it.overrides[BZ + ".boundsRectangle"] = summary
    _havoc(c)


def _havoc(c, only_init=False, direction=False):
    """whether a curve counts as linear and which way it turns are unknown: an alignment and an angle may have any value.  For properties
    that do not speak about either.  only_init: just where a curve is constructed"""
    n = [0]

    def outside(it):
        return only_init and not (it.frames and it.frames[-1].func is not None and it.frames[-1].func.qual == BZ + ".__init__")

    def aligned(it, f, args, kw):
        if outside(it):
            return NotImplemented
        ps = next((a for a in list(args) + [kw.get("points")] if isinstance(a, (Tup, Ref)) and not (isinstance(a, Ref) and isinstance(a.o, Inst))), None)
        if ps is None:
            return NotImplemented
        n[0] += 1
        y = sym("aligned%d" % n[0])
        return lst([Tup([y, y]) for _ in it.entries(ps)])

    def angle(it, f, args, kw):
        if outside(it):
            return NotImplemented
        n[0] += 1
        return sym("angle%d" % n[0])
    c.it.overrides[BZ + "._align"] = aligned
    c.it.overrides["PathLib.BezierUtilities.angle"] = angle
    if direction:
        def direct(it, f, args, kw):
            n[0] += 1
            return sym("direction%d" % n[0])
        c.it.overrides[BZ + "._computeDirection"] = direct


def check_piece(c, key, piece, q, a, b, order=None):
    """piece traces q over [a, b] (Rats)"""
    u = r(sym("u"))
    got = get(c, piece, N(u))
    c.eq(key + " traces the parent", got, pt(*bern(q, a + (b - a) * u)))
    c.eq(key + " order", c.attr(piece, "order"), num(len(q) - 1 if order is None else order))
    cp = c.attr(piece, "controlPoints")
    ents = c.items(prune(cp, c.it.live)) if not isinstance(prune(cp, c.it.live), Choice) else None
    if ents:
        c.eq(key + " starts there", ents[0][1], pt(*bern(q, a)))
        c.eq(key + " ends there", ents[-1][1], pt(*bern(q, b)))


@minimum(80)
def c15(ck):
    """split(t) for symbolic t, orders 1..3: left.get(u) == B(tu), right.get(u) == B(t+(1-t)u) as polynomial normal forms in u, t and the
    control points; hull(t) of any order == the control points followed by all de Casteljau levels; the parent is not written."""
    ck.prepare = _havoc
    lits = literals_in(["Bezier.py"], ["hull"])
    for k in (1, 2, 3):
        def go(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            b = c.call(BZ, protect(lst(ps), "the control points"))
            t = sym("t")
            for nm, tv in [("t", t), ("0", num(0)), ("1", num(1)), ("1/2", num(Fraction(1, 2))), ("0.3", num(Fraction(3, 10)))]:
                res = c.meth(b, "split", tv)
                for g, v in alts(prune(res, c.it.live)):
                    live = c.it.live
                    c.it.live = AND(live, g)
                    its = c.items(v)
                    if its is None or len(its) != 3:
                        c.fail("split(%s) result" % nm, "not a (left, right, hull) triple", got=v, guard=c.it.live)
                        c.it.live = live
                        continue
                    left, right, hull = [x for _, x in its]
                    T_ = r(tv)
                    check_piece(c, "left(%s)" % nm, left, q, ZERO, T_)
                    check_piece(c, "right(%s)" % nm, right, q, T_, RONE)
                    c.eq("hull(%s)" % nm, hull, lst([pt(*p) for p in decasteljau(q, T_)]))
                    c.it.live = live
            c.eq("parent unchanged", get(c, b, t), pt(*bern(q, r(t))))
            c.hazards()
            unmutated(c)
        ck.run("order %d" % k, go)
    for k in sizes([1, 2, 3, 4, 5], lits, 6):
        if k == 0:
            continue

        def hull(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            b = c.call(BZ, protect(lst(ps), "the control points"))
            t = sym("t")
            for nm, tv in [("t", t), ("0", num(0)), ("1", num(1))]:
                c.eq("hull(%s)" % nm, c.meth(b, "hull", tv), lst([pt(*p) for p in decasteljau(q, r(tv))]))
            c.hazards()
            unmutated(c)
        ck.run("hull of order %d" % k, hull)

    def big(c):
        for k in sorted({8, 9, 12} | set(large(lits, 6, 40))):
            c.reset()
            ps = number_pts(k + 1)
            q = cps(ps)
            b = bezier(c, ps)
            for v in (Fraction(0), Fraction(1), Fraction(1, 3)):
                c.eq("order %d, hull(%s)" % (k, v), c.meth(b, "hull", num(v)), lst([pt(*p) for p in decasteljau(q, Rat.c(v))]))
            c.hazards()
    ck.run("high orders", big)


def interval(c, piece):
    """the parameter interval a piece reports"""
    v = []
    for nm in ("_t1", "_t2"):
        v.append(c.it.getattr(piece, nm))
    return v


@minimum(60)
def c16(ck):
    """split(t1, t2) on the guard 0 <= t1 < t2 <= 1 with symbolic t1, t2 (and the boundary constants): every alternative traces
    B(t1 + (t2-t1)u) as rational normal forms; reported intervals of pieces and of pieces of pieces compose affinely."""
    ck.prepare = _havoc
    for k in (2, 3):
        def go(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            b = c.call(BZ, protect(lst(ps), "the control points"))
            s, t = sym("s"), sym("t")
            g = AND(le(ZERO, r(s)), lt(r(s), r(t)), le(r(t), RONE))
            cases = [("s,t", s, t, g), ("0,t", num(0), t, AND(lt(ZERO, r(t)), le(r(t), RONE))), ("s,1", s, num(1), AND(le(ZERO, r(s)), lt(r(s), RONE))),
                     ("0,1", num(0), num(1), T), ("1/4,3/4", num(Fraction(1, 4)), num(Fraction(3, 4)), T), ("0,1/2", num(0), num(Fraction(1, 2)), T),
                     ("1/2,1", num(Fraction(1, 2)), num(1), T), ("0.01,0.02", num(Fraction(1, 100)), num(Fraction(2, 100)), T)]
            for nm, a, z, gg in cases:
                c.it.live = gg
                res = c.meth(b, "split", a, z)
                for h, v in alts(prune(res, c.it.live)):
                    live = c.it.live
                    c.it.live = AND(live, h)
                    if not (isinstance(v, Ref) and isinstance(v.o, Inst)):
                        c.fail("split(%s)" % nm, "result is not a curve", got=v, guard=c.it.live)
                        c.it.live = live
                        continue
                    check_piece(c, "split(%s)" % nm, v, q, r(a), r(z))
                    c.eq("interval of split(%s)" % nm, Tup(interval(c, v)), Tup([a, z]))
                    c.it.live = live
            c.it.live = T
            c.hazards()
            unmutated(c)
        ck.run("order %d" % k, go)

        def nested(c, k=k):
            # the curve is fixed here: the first case already covers every curve, intervals are about s and t
            ps = [Tup([num(x), num(y)]) for x, y in [(3, -2), (10, 7), (-5, 21), (13, 4)][:k + 1]]
            q = cps(ps)
            b = bezier(c, ps)
            s, t = sym("s"), sym("t")
            inside_ = lambda v: AND(lt(ZERO, r(v)), lt(r(v), RONE))
            c.it.live = AND(inside_(s), inside_(t))
            l, rr, _ = [x for _, x in c.items(c.meth(b, "split", s))]
            c.eq("left interval", Tup(interval(c, l)), Tup([num(0), s]))
            c.eq("right interval", Tup(interval(c, rr)), Tup([s, num(1)]))
            S, T_ = r(s), r(t)
            for nm, piece, a, z in [("left", l, ZERO, S), ("right", rr, S, RONE)]:
                l2, r2, _ = [x for _, x in c.items(c.meth(piece, "split", t))]
                m = a + (z - a) * T_
                c.eq(nm + " left interval", Tup(interval(c, l2)), Tup([N(a), N(m)]))
                c.eq(nm + " right interval", Tup(interval(c, r2)), Tup([N(m), N(z)]))
                check_piece(c, nm + " left", l2, q, a, m)
                check_piece(c, nm + " right", r2, q, m, z)
                p = c.meth(piece, "split", num(Fraction(1, 4)), num(Fraction(1, 2)))
                c.eq(nm + " piece interval", Tup(interval(c, p)), Tup([N(a + (z - a) / 4), N(a + (z - a) / 2)]))
            c.hazards()
        ck.run("pieces of pieces, order %d" % k, nested)


@minimum(40)
def c17(ck):
    """dcPoints for symbolic control points, orders 1..n, equal the control points of the successive derivatives; normal(t) on the guard
    'derivative not zero' equals the derivative rotated by +90 degrees over its length; n.n == 1, n.d == 0 and d x n > 0 follow."""
    ck.prepare = _havoc
    lits = literals_in(["Bezier.py"], ["dcPoints", "normal", "_derivative"])
    for k in sizes([1, 2, 3, 4, 5], lits, 7):
        if k == 0:
            continue

        def go(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            b = c.call(BZ, protect(lst(ps), "the control points"))
            want, cur = [], q
            while len(cur) > 1:
                cur = deriv(cur)
                want.append(lst([pt(*p) for p in cur]))
            c.eq("dcPoints", c.attr(b, "dcPoints"), lst(want))
            c.eq("dcPoints again", c.attr(b, "dcPoints"), lst(want))
            c.hazards()
            unmutated(c)
        ck.run("derivatives of order %d" % k, go)

    def big(c):
        for k in sorted({8, 9, 12} | set(large(lits, 7, 40))):
            c.reset()
            ps = number_pts(k + 1)
            want, cur = [], cps(ps)
            while len(cur) > 1:
                cur = deriv(cur)
                want.append(lst([pt(*p) for p in cur]))
            c.eq("dcPoints of order %d" % k, c.attr(bezier(c, ps), "dcPoints"), lst(want))
            c.hazards()
    ck.run("high orders", big)
    for k in (1, 2, 3):
        def nrm(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            b = c.call(BZ, protect(lst(ps), "the control points"))
            for nm, tv in [("t", sym("t")), ("0", num(0)), ("1", num(1)), ("1/3", num(Fraction(1, 3)))]:
                dx, dy = bern(deriv(q), r(tv))
                c.it.live = NOT(AND(eq0(dx), eq0(dy)))
                m = hyp(dx, dy)
                n = c.meth(b, "normal", tv)
                c.eq("normal(%s)" % nm, n, pt(-dy / m, dx / m))
                c.hazards("normal(%s) completes" % nm)
            unmutated(c)
        ck.run("normal of order %d" % k, nrm)


@minimum(20)
def c18(ck):
    """raiseOrder() for symbolic control points, orders 1..n: control point count n+2 and get(t) of the raised curve equals the original
    Bernstein polynomial as a normal form; no write reaches the original."""
    ck.prepare = _havoc
    lits = literals_in(["Bezier.py"], ["raiseOrder"])
    for k in sizes([1, 2, 3, 4, 5], lits, 6):
        if k == 0:
            continue

        def go(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            b = c.call(BZ, protect(lst(ps), "the control points"))
            n = c.meth(b, "raiseOrder")
            t = sym("t")
            c.eq("number of control points", c.call(c.it.builtins["len"], c.attr(n, "controlPoints")), num(k + 2))
            c.eq("get(t)", get(c, n, t), pt(*bern(q, r(t))))
            c.eq("original", get(c, b, t), pt(*bern(q, r(t))))
            if k <= 3:
                n2 = c.meth(n, "raiseOrder")
                c.eq("raised twice", get(c, n2, t), pt(*bern(q, r(t))))
            c.hazards()
            unmutated(c)
        ck.run("order %d" % k, go)

    def big(c):
        for k in sorted({8, 9, 12} | set(large(lits, 6, 40))):
            c.reset()
            ps = number_pts(k + 1)
            b = bezier(c, ps)
            n = c.meth(b, "raiseOrder")
            # the control points are determined by the curve
            q = cps(ps)
            want = [q[0]] + [tuple((p[d] * Rat.c(i) + w[d] * Rat.c(k + 1 - i)) / Rat.c(k + 1) for d in (0, 1)) for i, (p, w) in enumerate(zip(q, q[1:]), 1)] + [q[-1]]
            c.eq("order %d raised" % k, c.attr(n, "controlPoints"), lst([pt(*p) for p in want]))
            c.hazards()
    ck.run("high orders", big)


@minimum(12)
def c25(ck):
    """direction as a gated class constant equals the stated guards over the signs of control point y differences, orders 1..n."""
    ck.prepare = _havoc
    for k in (1, 2, 3, 4, 5):
        def go(c, k=k):
            K = {n: c.get(BZ + ".dir_" + n) for n in ("mixed", "flat", "up", "down")}
            ks = list(K.values())
            for i in range(4):
                for j in range(i):
                    c.true("constants differ", boolv(NOT(eq0(r(ks[i]) - r(ks[j])))))
            ps = pts(k + 1)
            ys = [xy(p)[1] for p in ps]
            b = bezier(c, ps)
            d = c.attr(b, "direction")
            if k == 1:
                want = ite(eq0(ys[0] - ys[1]), K["flat"], ite(lt(ys[0], ys[1]), K["up"], K["down"]))
            elif k > 3:
                want = K["mixed"]
            else:
                up = AND(*[le(a, z) for a, z in zip(ys, ys[1:])])
                dn = AND(*[le(z, a) for a, z in zip(ys, ys[1:])])
                want = ite(up, K["up"], ite(dn, K["down"], K["mixed"]))
            c.eq("direction", d, want)
            c.hazards()
            # after queries
            c.meth(b, "get", sym("t"))
            c.eq("direction later", c.attr(b, "direction"), want)
        ck.run("order %d" % k, go)

    def consts(c):
        K = {n: c.get(BZ + ".dir_" + n) for n in ("mixed", "flat", "up", "down")}
        for ys, w in [((0, 0), "flat"), ((0, 5), "up"), ((5, 0), "down"), ((0, 0, 0), "up"), ((0, 1, 1), "up"), ((1, 1, 0), "down"), ((0, 1, 0), "mixed"),
                      ((0, 0, 0, 0), "up"), ((0, 0, 1, 1), "up"), ((3, 3, 3, -1), "down"), ((0, 2, 1, 3), "mixed"), ((0, 1, 2, 3, 4), "mixed")]:
            b = bezier(c, [Tup([num(i), num(y)]) for i, y in enumerate(ys)])
            c.eq("direction of %s" % (ys,), c.attr(b, "direction"), K[w])
        c.hazards()
    ck.run("constants", consts)


@minimum(20)
def c26(ck):
    """getABC(t) for symbolic t, orders 2 and 3: A, B, ratio, C and hull equal the stated normal forms; C is None exactly on the guard
    where line AB is parallel to the base line."""
    for k in (2, 3):
        def go(c, k=k):
            ps = pts(k + 1)
            q = cps(ps)
            b = c.call(BZ, protect(lst(ps), "the control points"))
            for nm, tv in [("t", sym("t")), ("1/2", num(Fraction(1, 2))), ("1/4", num(Fraction(1, 4)))]:
                res = c.meth(b, "getABC", tv)
                t = r(tv)
                H = decasteljau(q, t)
                its = c.items(prune(res, c.it.live))
                if its is None or len(its) != 5:
                    c.fail("getABC(%s)" % nm, "not a 5-tuple", got=res)
                    continue
                A, B, C, ratio, hull = [x for _, x in its]
                a = q[1] if k == 2 else H[5]
                bb = H[-1]
                c.eq("A(%s)" % nm, A, pt(*a))
                c.eq("B(%s)" % nm, B, pt(*bb))
                s = t ** k + (RONE - t) ** k
                c.eq("ratio(%s)" % nm, ratio, N(mk_abs((s - 1) / s)))
                c.eq("hull(%s)" % nm, hull, lst([pt(*p) for p in H]))
                e0, e1 = q[0], q[-1]
                den = (a[0] - bb[0]) * (e0[1] - e1[1]) - (a[1] - bb[1]) * (e0[0] - e1[0])
                par = eq0(den)
                isn = OR(*[g for g, v in alts(C) if isinstance(v, NoneT)])
                c.true("C(%s) None iff parallel" % nm, NOT(bdd.XOR(isn, par)))
                n1 = a[0] * bb[1] - a[1] * bb[0]
                n2 = e0[0] * e1[1] - e0[1] * e1[0]
                live = c.it.live
                c.it.live = AND(live, NOT(par), NOT(isn))
                c.eq("C(%s)" % nm, prune(C, c.it.live), pt((n1 * (e0[0] - e1[0]) - (a[0] - bb[0]) * n2) / den, (n1 * (e0[1] - e1[1]) - (a[1] - bb[1]) * n2) / den))
                c.it.live = live
            c.hazards()
            unmutated(c)
        ck.run("order %d" % k, go)
