"""C31-C33: SegmentPen."""
import itertools
from ..h import *
from .transform import minimum

PEN = "PathLib.SegmentPen.SegmentPen"


def samept(a, b):
    (ax, ay), (bx, by) = xy(a), xy(b)
    return AND(eq0(ax - bx), eq0(ay - by))


class Want:
    """what the calls record: contours as lists of (guard, [points])"""

    def __init__(self):
        self.contours = []
        self.cur = None

    def move(self, p):
        self.first = self.last = p
        self.cur = []

    def line(self, p, drop=True):
        g = NOT(samept(p, self.last)) if drop else T
        if g != F:
            self.cur.append((g, [self.last, p]))
        self.last = p

    def curve(self, *ps):
        self.cur.append((T, [self.last] + list(ps)))
        self.last = ps[-1]

    def qcurve(self, *ps):
        offs, end = list(ps[:-1]), ps[-1]
        if not offs:
            self.cur.append((T, [self.last, end]))
        for i, o in enumerate(offs):
            if i + 1 < len(offs):
                (ax, ay), (bx, by) = xy(o), xy(offs[i + 1])
                to = pt(AVG(ax, bx), AVG(ay, by))
            else:
                to = end
            self.cur.append((T, [self.last, o, to]))
            self.last = to
        self.last = end

    def close(self):
        if not self.cur:
            return
        some = OR(*[g for g, _ in self.cur])
        ents = list(self.cur)
        g = AND(some, NOT(samept(self.last, self.first)))
        if g != F:
            ents.append((g, [self.last, self.first]))
        self.contours.append((some, ents))
        self.cur = []

    def value(self):
        return Ref(ListObj([[g, Ref(ListObj([[h, lst(s)] for h, s in ents]))] for g, ents in self.contours]))


class Run:
    """drives the analysed pen and the expectation together"""

    def __init__(self, c, glyphs=None, pen=None):
        self.c = c
        self.log = c.call("_glyphs.Logger")
        self.glyphs = glyphs if glyphs is not None else Ref(DictObj())
        self.pen = c.call(PEN, self.glyphs, self.log)
        self.w = Want()
        self.n = 0

    def new(self, nm="p"):
        self.n += 1
        return P("%s%d" % (nm, self.n))

    def op(self, o, pts_=None):
        c, w = self.c, self.w
        if o == "M":
            p = pts_ or [self.new()]
            c.meth(self.pen, "moveTo", *p)
            w.move(*p)
        elif o == "L":
            p = pts_ or [self.new()]
            c.meth(self.pen, "lineTo", *p)
            w.line(*p)
        elif o == "C":
            p = pts_ or [self.new() for _ in range(3)]
            c.meth(self.pen, "curveTo", *p)
            w.curve(*p)
        elif o[0] == "Q":
            p = pts_ or [self.new() for _ in range(int(o[1:]) + 1)]
            if len(p) == 1:     # a line; zero length ones are a matter of lineTo
                c.it.live = AND(c.it.live, NOT(samept(p[0], w.last)))
                c.assume = AND(c.assume, NOT(samept(p[0], w.last)))
            c.meth(self.pen, "qCurveTo", *p)
            w.qcurve(*p)
        elif o == "Z":
            c.meth(self.pen, "closePath")
            w.close()
        elif o == "B":          # line back to the start
            c.meth(self.pen, "lineTo", w.first)
            w.line(w.first)
        elif o == "S":          # line to where we are
            c.meth(self.pen, "lineTo", w.last)
        else:
            raise ValueError(o)

    def check(self, key):
        self.c.eq(key, self.c.attr(self.pen, "contours"), self.w.value())


@minimum(400)
def c31(ck):
    """Sequences of pen calls (every sequence over line / line to the start / line to the current point / cubic / quadratic with 0..3
    off-curve points up to the length bound, several contours, closing twice) with symbolic points; the recorded contours as a gated
    list equal the stated ones: connected, closed, zero-length lines dropped under exactly the guard 'same point'."""
    ops = ["L", "C", "Q2", "B", "S", "Q1"]
    depth = 4 if ck.thorough else 3
    for first in ops:
        def go(c, first=first):
            for n in range(0, depth):
                for rest in itertools.product(ops, repeat=n):
                    if n == depth - 1 and "Q1" in rest and not ck.thorough:
                        continue
                    c.reset()
                    x = Run(c)
                    seq = ("M", first) + rest + ("Z",)
                    for o in seq:
                        x.op(o)
                    x.check(" ".join(seq))
                    c.hazards()
        ck.run("contours beginning with %s" % first, go)

    def several(c):
        for seq in ["M Z", "M Z M L L Z", "M L Z", "M L L Z Z", "M L L Z M Z M C Z", "M L L L B Z M Q3 L Z M L C B Z", "M S Z M L S L Z", "M B Z M C B Z",
                    "M C C C C Z M L L L L B Z", "M Q1 Q2 Q3 Z M Q4 Q0 B Z", "M L B Z M L B S Z Z M C Z", "M L L Z M L Z M L C Z M Q2 L L B Z",
                    "M Q0 Q0 Z", "M L L M L L Z"]:
            c.assume = T
            c.reset()
            x = Run(c)
            for i, o in enumerate(seq.split()):
                x.op(o)
                if o == "Z":
                    x.check(" ".join(seq.split()[:i + 1]))
            c.hazards()
        c.assume = T
    ck.run("several contours", several)

    def big(c):
        # long contours and many of them, with numbers: lines along a square, back and forth, coming back to points visited before
        lits = literals_in(["SegmentPen.py"], ["moveTo", "lineTo", "curveTo", "qCurveTo", "closePath", "contours"])
        k = lambda a, b: Tup([num(a), num(b)])
        for n in sorted({20} | set(large(lits, 5))):
            for back in (False, True):
                c.reset()
                x = Run(c)
                x.op("M", [k(0, 0)])
                for i in range(1, n + 1):
                    x.op("L", [k(i % 4 * 10, i // 2 % 3 * 10)])
                    if i % 5 == 0:
                        x.op("C", [k(i, 0), k(0, i), k(3, 3)])
                if back:
                    x.op("B")
                x.op("Z")
                for i in range(n):
                    x.op("M", [k(i, i % 3)])
                    x.op("L", [k(i + 5, i % 3)])
                    x.op("L", [k(i + 5, i)])
                    x.op("Z")
                x.check("%d lines, then %d contours" % (n, n))
                c.hazards()
    ck.run("many points", big)

    def same_pens(c):
        # two pens at work at the same time
        a, b = Run(c), Run(c)
        b.n = 50
        for o in "M L M L C L Q2 Z L Z M L L Z".split():
            (a if o in "MLZ" else b).op(o) if False else None
        for x, o in [(a, "M"), (b, "M"), (a, "L"), (b, "C"), (b, "L"), (a, "L"), (b, "Z"), (a, "Z"), (b, "M"), (b, "L"), (b, "L"), (b, "Z")]:
            x.op(o)
        a.check("first pen")
        b.check("second pen")
        c.hazards()
    ck.run("two pens", same_pens)


@minimum(60)
def c32(ck):
    """qCurveTo with k symbolic off-curve points for k = 0..n (n above every literal of the function): k quadratic segments joined at exact
    midpoints; curveTo records the current point and its arguments; consecutive calls start where the last ended; arguments are not
    written; no call changes segments recorded before."""
    lits = literals_in(["SegmentPen.py"], ["qCurveTo", "curveTo"])
    for k in sizes([0, 1, 2, 3, 4, 5, 8], lits, 12):
        def go(c, k=k):
            x = Run(c)
            for o in ("M", "Q%d" % k, "Q%d" % k, "L", "C", "Q%d" % max(k, 1), "Z"):
                x.op(o)
            x.check("%d off-curve points" % k)
            c.hazards()
        ck.run("%d off-curve points" % k, go)

    def mixed(c):
        for seq in ["M Q1 C Q3 Z", "M C Q2 C Z", "M L Q2 Q1 Q0 L Z", "M C C Q5 L Z", "M Q0 C Z"]:
            c.assume = T
            c.reset()
            x = Run(c)
            for o in seq.split():
                x.op(o)
            x.check(seq)
            c.hazards()
        c.assume = T
        # coincident and special points: one of each shape with constants
        x = Run(c)
        k = lambda a, b: Tup([num(a), num(b)])
        for o, ps in [("M", [k(0, 0)]), ("Q3", [k(2, 0), k(2, 2), k(2, 2), k(0, 2)]), ("Q1", [k(0, 2), k(0, 2)]), ("C", [k(0, 2), k(0, 0), k(5, 5)]),
                      ("Q2", [k(7, 5), k(8, 1), k(0, 0)]), ("Z", None)]:
            x.op(o, ps)
        x.check("constants")
        c.hazards()
    ck.run("mixed calls", mixed)

    def big(c):
        for k in sorted({20} | set(large(lits, 12))):
            c.reset()
            x = Run(c)
            ps = number_pts(2 * k + 4)
            x.op("M", ps[:1])
            x.op("Q%d" % k, ps[1:k + 2])
            x.op("C", ps[k + 2:k + 5] if k > 1 else None)
            for p in ps[k + 5:2 * k + 2]:
                x.op("Q1", [p, ps[3]]) if p != ps[3] else None
            x.op("Z")
            x.check("%d off-curve points" % k)
            c.hazards()
    ck.run("many points", big)


def xform(t, p):
    xx, xy_, yx, yy, dx, dy = [r(v) for v in t]
    x, y = xy(p)
    return pt(xx * x + yx * y + dx, xy_ * x + yy * y + dy)


def shape(ops, pre):
    """[(method, points)] for op letters, with fresh symbolic points"""
    out, n = [], 0
    for o in ops.split():
        k = {"M": 1, "L": 1, "C": 3, "Z": 0}.get(o)
        if k is None:
            k = int(o[1:]) + 1
        ps = [P("%s%d" % (pre, n + i)) for i in range(k)]
        n += k
        out.append((o, ps))
    return out


METHOD = {"M": "moveTo", "L": "lineTo", "C": "curveTo", "Q": "qCurveTo", "Z": "closePath"}


def glyph(c, ops):
    """ops: list of (letter, points) or ('+', name, transformation)"""
    rows = []
    for o in ops:
        if o[0] == "+":
            rows.append(Tup([string("addComponent"), Tup([string(o[1]), Tup(list(o[2]))])]))
        else:
            rows.append(Tup([string(METHOD[o[0][0]]), Tup(o[1])]))
    return c.call("_glyphs.Glyph", lst(rows))


def drawn(lib, ops, t=None):
    """contours a glyph draws: list of (guard, [(guard, points)])"""
    w = Want()
    for o in ops:
        if o[0] == "+":
            sub = drawn(lib, lib[o[1]])
            w.contours += [(g, [(h, [xform(o[2], p) for p in s]) for h, s in ents]) for g, ents in sub]
        elif o[0] == "M":
            w.move(*o[1])
        elif o[0] == "L":
            w.line(*o[1])
        elif o[0] == "C":
            w.curve(*o[1])
        elif o[0][0] == "Q":
            w.qcurve(*o[1])
        else:
            w.close()
    return w.contours


@minimum(60)
def c33(ck):
    """addComponent with a fully symbolic transformation (and constant identity, near-identity, flipped and shifted ones) over glyph
    libraries with several contours and components nested up to three deep: the appended contours equal the affine images of the glyph's
    contours as normal forms; recorded contours and the open contour are the same before and after."""
    n = num
    S = lambda k: [sym("%s_%s" % (k, q)) for q in ("xx", "xy", "yx", "yy", "dx", "dy")]
    special = [("identity", [n(1), n(0), n(0), n(1), n(0), n(0)]), ("shift", [n(1), n(0), n(0), n(1), n(30), n(-4)]), ("x shift", [n(1), n(0), n(0), n(1), n(7), n(0)]),
               ("scale", [n(2), n(0), n(0), n(3), n(0), n(0)]), ("flip", [n(-1), n(0), n(0), n(1), n(0), n(0)]), ("quarter turn", [n(0), n(1), n(-1), n(0), n(0), n(0)]),
               ("shear", [n(1), n(2), n(0), n(1), n(0), n(0)]), ("other shear", [n(1), n(0), n(5), n(1), n(0), n(0)]), ("half turn", [n(-1), n(0), n(0), n(-1), n(10), n(20)]),
               ("degenerate", [n(0), n(0), n(0), n(0), n(1), n(1)]), ("symbolic", S("t"))]
    base = shape("M L C Q2 Z M L L Z", "b")
    # lines of distinct points: keep the guards out of the way by choosing constants for them
    fixed = [("M", [Tup([n(0), n(0)])]), ("L", [Tup([n(10), n(0)])]), ("C", [P("k1"), P("k2"), P("k3")]), ("Q2", [P("k4"), P("k5"), Tup([n(3), n(9)])]), ("Z", []),
             ("M", [Tup([n(1), n(1)])]), ("L", [Tup([n(2), n(1)])]), ("L", [Tup([n(2), n(2)])]), ("Z", [])]
    for nm, t in special:
        def go(c, t=t):
            lib = {"a": fixed, "b": base, "e": []}
            G = Ref(DictObj())
            for k, ops in lib.items():
                c.it.call(c.get("_glyphs.Glyph"), [lst([])], {})
                c.it.setitem(G, string(k), glyph(c, ops)) if hasattr(c.it, "setitem") else None
            x = Run(c, G)
            tr = protect(Tup(t), "the transformation")
            want = drawn(lib, [("+", "a", t)])
            c.meth(x.pen, "addComponent", string("a"), tr)
            x.w.contours += want
            x.check("alone")
            # again, in the middle of an open contour
            for o in ("M", "C", "C"):
                x.op(o)
            before = snapshot(c.attr(x.pen, "contours"))
            c.meth(x.pen, "addComponent", string("b" if nm in ("identity", "shift", "symbolic") else "a"), tr)
            x.w.contours += drawn(lib, [("+", "b" if nm in ("identity", "shift", "symbolic") else "a", t)])
            x.op("C")
            x.op("Z")
            x.check("in an open contour")
            c.meth(x.pen, "addComponent", string("e"), tr)
            x.check("empty glyph")
            ents = c.it.entries(c.attr(x.pen, "contours"))
            bl = c.it.entries(before)
            c.eq("contours recorded before", Ref(ListObj([list(e) for e in ents[:len(bl)]])), before)
            c.hazards()
            unmutated(c)
        ck.run("transformation: " + nm, go)
    for nm, t1, t2 in [("symbolic", S("t"), S("u")), ("identity outside", special[0][1], S("u")), ("identity inside", S("t"), special[0][1]),
                       ("turns", special[5][1], special[7][1])]:
        def nest(c, t1=t1, t2=t2):
            lib = {"a": fixed}
            lib["m"] = [("+", "a", t2)] + fixed[5:] + [("+", "a", special[4][1])]
            lib["top"] = fixed[:2] + [("+", "m", t1)] + fixed[2:5]
            lib["deep"] = [("+", "top", special[3][1]), ("+", "a", t1)]
            G = Ref(DictObj())
            for k, ops in lib.items():
                c.it.setitem(G, string(k), glyph(c, ops))
            for top in ("m", "top", "deep"):
                x = Run(c, G)
                c.meth(x.pen, "addComponent", string(top), Tup(t1))
                x.w.contours += drawn(lib, [("+", top, t1)])
                x.check("component " + top)
                # a glyph with components drawn directly
                x = Run(c, G)
                c.meth(c.it.getitem(G, string(top)), "draw", x.pen)
                x.w.contours += drawn(lib, lib[top])
                x.check("glyph " + top)
            c.hazards()
        ck.run("nested components: " + nm, nest)

    def big(c):
        k = lambda a, b: Tup([num(a), num(b)])
        t = [n(2), n(1), n(-3), n(5), n(7), n(-4)]
        u = [n(1), n(0), n(0), n(1), n(3), n(0)]
        lits = literals_in(["SegmentPen.py"], ["addComponent", "contours"])
        for m in sorted({12} | set(large(lits, 4))):
            row = [("M", [k(0, 0)])] + [("L", [k(i * 7 % 11 + 20 * i, i * 5 % 13)]) for i in range(1, m)] + [("Z", [])]
            many = []
            for i in range(m):
                many += [("M", [k(i, 0)]), ("L", [k(i + 9, 1)]), ("L", [k(i, 8)]), ("Z", [])]
            lib = {"row": row, "many": many, "d0": many[:4]}
            for i in range(1, m):
                lib["d%d" % i] = [("+", "d%d" % (i - 1), u)] + (many[:4] if i % 3 == 0 else [])
            lib["parts"] = [("+", "d0", [n(1), n(0), n(0), n(1), n(i), n(-i)]) for i in range(m)]
            G = Ref(DictObj())
            for nm, ops in lib.items():
                c.it.setitem(G, string(nm), glyph(c, ops))
            for nm in ("row", "many", "d%d" % (m - 1), "parts"):
                c.reset()
                x = Run(c, G)
                c.meth(x.pen, "addComponent", string(nm), Tup(t))
                x.w.contours += drawn(lib, [("+", nm, t)])
                x.check("%s of %d" % (nm, m))
                c.hazards()
    ck.run("large glyphs and deep nesting", big)
