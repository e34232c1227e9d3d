"""C46: the numeric and list helpers."""
from ..h import *
from .transform import minimum

BU = "PathLib.BezierUtilities"
PU = "PathLib.PathUtilities"
EPS = Fraction(1, 10 ** 6)


def same(c, key, got, guard):
    """a truth value is exactly the guard"""
    c.true(key, got, g=guard)
    c.true(key + " (otherwise)", BoolV(NOT(c.it.truth(got))), g=NOT(guard))


def absle(x, e):
    return AND(dom.le(x, e), dom.le(-e, x))


@minimum(150)
def c46(ck):
    """each helper on symbolic numbers, points and lists: truth values as guards, numbers as normal forms, lists entry by entry under the guards
    of which entries are equal; no hazard and no write to an argument"""
    def near(c):
        for an, a in (("a", sym("a")), ("0", num(0)), ("1", num(1))):
            for bn, b in (("b", sym("b")), ("0", num(0)), ("1", num(1))):
                d = r(a) - r(b)
                same(c, "approximately(%s, %s)" % (an, bn), c.call(BU + ".approximately", a, b), absle(d, Rat.c(EPS)))
                for pn, p in (("p", sym("p", nonneg=True)), ("1/2", num(Fraction(1, 2))), ("0", num(0))):
                    same(c, "approximately(%s, %s, %s)" % (an, bn, pn), c.call(BU + ".approximately", a, b, p), absle(d, r(p)))
        c.hazards()
    ck.run("approximately", near)

    def inside(c):
        v = sym("v")
        for nm, m, M in (("symbolic", sym("m"), sym("M")), ("0, 1", num(0), num(1)), ("reversed", num(1), num(0)), ("-5, 5", num(-5), num(5)), ("m, m", sym("m"), sym("m"))):
            for vn, w in (("v", v), ("m", m), ("M", M), ("0", num(0))):
                x = r(w)
                want = OR(AND(dom.le(r(m), x), dom.le(x, r(M))), absle(x - r(m), Rat.c(EPS)), absle(x - r(M), Rat.c(EPS)))
                same(c, "between(%s; %s)" % (vn, nm), c.call(BU + ".between", w, m, M), want)
        c.hazards()
    ck.run("between", inside)

    def linear(c):
        v, ds, de, ts, te = [sym(x) for x in ("v", "ds", "de", "ts", "te")]
        live = c.it.live
        for nm, (a, b, d, e) in (("symbolic", (ds, de, ts, te)), ("unit", (num(0), num(1), ts, te)), ("to unit", (ds, de, num(0), num(1))),
                                 ("falling", (num(0), num(1), num(5), num(-5))), ("reversed", (num(1), num(0), num(0), num(1)))):
            c.reset()
            c.it.live = AND(live, NOT(dom.eq0(r(b) - r(a))))
            for vn, w in (("v", v), ("start", a), ("end", b)):
                want = r(d) + (r(e) - r(d)) * (r(w) - r(a)) / (r(b) - r(a))
                c.eq("map(%s; %s)" % (vn, nm), c.call(BU + ".map", w, a, b, d, e), N(want))
            c.hazards("map " + nm)
        c.it.live = live
        c.reset()
        p, q = P("p"), P("q")
        for tn, t in (("t", sym("t")), ("0", num(0)), ("1", num(1)), ("1/2", num(Fraction(1, 2))), ("-1", num(-1)), ("3", num(3))):
            (px, py), (qx, qy) = xy(p), xy(q)
            c.eq("lerp(%s)" % tn, c.call(BU + ".lerp", t, p, q), pt(lerp(px, qx, r(t)), lerp(py, qy, r(t))))
            c.eq("lerp(%s) of one point" % tn, c.call(BU + ".lerp", t, p, p), p)
        c.hazards()
    ck.run("map and lerp", linear)

    def powers(c):
        s = r(sym("s", nonneg=True))
        for nm, v, w in (("s^3", s * s * s, s), ("-s^3", -(s * s * s), -s), ("8", Rat.c(8), Rat.c(2)), ("-8", Rat.c(-8), Rat.c(-2)),
                         ("0", ZERO, ZERO), ("-1/27", Rat.c(Fraction(-1, 27)), Rat.c(Fraction(-1, 3))), ("1", RONE, RONE)):
            c.eq("crt(%s)" % nm, c.call(BU + ".crt", N(v)), N(w))
        v = r(sym("v"))
        got = c.call(BU + ".crt", N(v))
        for g, x in alts(got):
            y = r(x)
            c.eq("cube of crt", N(y * y * y), N(v), g=g)
            for sn, h, o in (("positive", dom.lt(ZERO, v), lambda: dom.lt(ZERO, y)), ("negative", dom.lt(v, ZERO), lambda: dom.lt(y, ZERO))):
                if AND(g, h) != F:
                    c.true("crt of a %s number" % sn, BoolV(o()), g=AND(g, h))
        c.hazards("crt")
        c.reset()
        for nm, x in (("v", v), ("s^2", s * s), ("4", Rat.c(4)), ("0", ZERO), ("1/9", Rat.c(Fraction(1, 9)))):
            c.eq("sqrt(%s)" % nm, c.call(BU + ".sqrt", N(x)), N(sqrt(x)), g=dom.le(ZERO, x))
            c.hazards("sqrt(%s)" % nm)
        for nm, x in (("-1", Rat.c(-1)), ("-s^2-1", -(s * s) - 1)):
            c.reset()
            got = c.call(BU + ".sqrt", N(x))
            c.eq("sqrt(%s)" % nm, got, dom.NAN)
            c.hazards("sqrt(%s)" % nm)
    ck.run("roots", powers)

    def angles(c):
        o, a, b = P("o"), P("a"), P("b")
        (ox, oy), (ax, ay), (bx, by) = xy(o), xy(a), xy(b)
        cr = (ax - ox) * (by - oy) - (ay - oy) * (bx - ox)
        dt = (ax - ox) * (bx - ox) + (ay - oy) * (by - oy)
        c.eq("angle", c.call(BU + ".angle", o, a, b), N(mk_atan2(cr, dt)))
        z = Tup([num(0), num(0)])
        at = lambda x, y: Tup([num(x), num(y)])
        for nm, p, q, w in (("quarter", at(1, 0), at(0, 3), PI() / 2), ("minus quarter", at(0, 2), at(5, 0), -PI() / 2), ("half", at(1, 1), at(-2, -2), PI()),
                            ("none", at(1, 1), at(3, 3), ZERO), ("eighth", at(2, 0), at(1, 1), PI() / 4), ("three eighths back", at(1, 0), at(-1, -1), -PI() * 3 / 4)):
            c.eq("angle: " + nm, c.call(BU + ".angle", z, p, q), N(w))
        c.hazards()
    ck.run("angle", angles)

    def order(c):
        for nm, a, b in (("a b", sym("a"), sym("b")), ("a a", sym("a"), sym("a")), ("1 2", num(1), num(2)), ("2 1", num(2), num(1)), ("a 0", sym("a"), num(0))):
            c.eq("minMax " + nm, c.call(PU + ".minMax", a, b), Tup([N(mn(r(a), r(b))), N(mx(r(a), r(b)))]))
        for n, e in ((sym("f"), 1000), (sym("f"), 2048), (num(512), 2048), (num(0), 1000)):
            c.eq("toMicros", c.call(PU + ".toMicros", n, num(e)), N(r(n) * 1000 / e))
        u = r(sym("u", nonneg=True)) + 1
        c.eq("toMicros, symbolic em", c.call(PU + ".toMicros", sym("f"), N(u)), N(r(sym("f")) * 1000 / u))
        c.hazards()
    ck.run("order and units", order)

    def unique(c):
        for n in (0, 1, 2, 3):
            c.reset()
            xs = [sym("v%d" % i) for i in range(n)]
            got = c.call(BU + ".removeDuplicates", protect(lst(xs), "the list"))
            want = []
            for i, x in enumerate(xs):
                want.append([AND(*[NOT(dom.eq0(r(x) - r(y))) for y in xs[:i]]) if i else T, x])
            c.eq("%d numbers" % n, got, Ref(ListObj(want)))
            c.hazards("%d numbers" % n)
            unmutated(c)
        a, b, d = sym("a"), N(r(sym("a")) + 1), N(r(sym("a")) + 2)
        for nm, xs, want in (("aba", [a, b, a], [a, b]), ("aab", [a, a, b], [a, b]), ("abba", [a, b, b, a], [a, b]), ("dabad", [d, a, b, a, d], [d, a, b]),
                             ("abc", [a, b, d], [a, b, d]), ("aaaa", [a] * 4, [a])):
            c.eq(nm, c.call(BU + ".removeDuplicates", lst(xs)), lst(want))
        p, q = Tup([a, b]), Tup([b, a])
        c.eq("points", c.call(BU + ".removeDuplicates", lst([p, q, p, q, q])), lst([p, q]))
        c.eq("constants", c.call(BU + ".removeDuplicates", lst([num(3), num(1), num(3), num(0), num(1)])), lst([num(3), num(1), num(0)]))
        c.hazards()
    ck.run("duplicates", unique)

    def flat(c):
        for shape in ((), (0,), (1,), (2, 1), (1, 0, 2), (1, 1, 1, 1)):
            segs = [[lst(pts(2, "c%d_%d_" % (i, j))) for j in range(n)] for i, n in enumerate(shape)]
            got = c.call(PU + ".flatten", protect(lst([lst(s) for s in segs]), "the contours"))
            c.eq("flatten %s" % (shape,), got, lst([x for s in segs for x in s]))
        s = lst(pts(2))
        c.eq("flatten: the same segment twice", c.call(PU + ".flatten", lst([lst([s, s]), lst([s])])), lst([s, s, s]))
        c.hazards()
        unmutated(c)
    ck.run("flatten", flat)
