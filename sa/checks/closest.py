"""C42: the closest-point search of a contour."""
from ..h import *
from .transform import minimum
from .curves import BZ, BC, _light



FAR = 40


class Model:
    """A contour whose point at parameter t of curve k has the distance u from the query, u(k, t) being an arbitrary positive number:
    chosen by the case for sampled points, symbolic or far away for the others.  The search only ever sees points, so nothing is lost."""

    def __init__(self, c, curves, script, free):
        """free: how many distances may be symbolic.  Far means farther than all of those together, which comparisons see by sign"""
        self.c, self.script = c, script
        self.pool = [r(sym("u%d" % i, pos=True)) for i in range(free)]
        self.far = Rat.c(FAR)
        for x in self.pool:
            self.far = self.far + x
        self.u, self.asked = {}, {}
        self.qx, self.qy = r(sym("qx")), r(sym("qy"))
        _light(c)
        segs = []
        for k in range(curves):
            segs.append(lst([self.at(k, Fraction(0)), P("inner%d" % k), self.at(k, Fraction(1))]))
        self.contour = c.call(BC, lst(segs))
        self.index = {id(x.o): k for k, (_, x) in enumerate(c.it.entries(c.attr(self.contour, "beziers")))}
        for n in ("get", "_compute"):
            c.it.overrides[BZ + "." + n] = self.get
        self.asked.clear()

    def at(self, k, t):
        if t == 1:
            k, t = k + 1, Fraction(0)
        s = k + t
        if s not in self.u:
            v = self.script(s)
            if v == "free" and not self.pool:
                v = "far"
            self.u[s] = self.pool.pop(0) if v == "free" else self.far + Rat.c(s) if v == "far" else r(v)
        return pt(*self.place(s))

    def place(self, s):
        """the direction of every point is another one, so that points are not in the order of their distances"""
        m = Fraction(list(self.u).index(s) + 2)
        n = 1 + m * m
        x, y = (m * m - 1) / n, 2 * m / n
        if m % 2:
            x, y = -x, -y
        u = self.u[s]
        return self.qx + u * Rat.c(x), self.qy + u * Rat.c(y)

    def get(self, it, f, args, kw):
        args = list(args) + list(kw.values())
        o, t = args[0], args[1]
        if not isinstance(o, Ref) or id(o.o) not in self.index:
            return NotImplemented
        out = []
        for g, x in alts(t):
            if AND(g, it.live) == F:
                continue
            if not isinstance(x, Num) or x.r.const is None:
                raise Unsupported("curve point at an unknown parameter")
            v = Fraction(x.r.const)
            if not 0 <= v <= 1:
                self.c.fail("parameter", "asks for the point at %s, which is not on the curve" % v, guard=AND(g, it.live))
            k = self.index[id(o.o)]
            out.append((g, self.at(k, v)))
            self.asked[k + v] = OR(self.asked.get(k + v, F), AND(g, it.live))
        return out[0][1] if len(out) == 1 else Choice(tuple(out))

    def sampled(self, n):
        k = len(self.index)
        return [Fraction(i, n - 1) for i in range(k * (n - 1) + 1)]

    def search(self, n, key):
        c = self.c
        q = Tup([N(self.qx), N(self.qy)])
        v = c.meth(self.contour, "findClosestPoint", q, num(n))
        live = AND(c.it.live, c.assume)
        for g, x in alts(v):
            base = AND(live, g)
            if not bdd.feasible(base):
                continue
            its = c.items(x) if isinstance(x, (Tup, Ref)) else None
            if not its or len(its) != 2:
                c.fail(key, "does not answer with a distance and a point", got=x, guard=base)
                return
            d, p = its[0][1], its[1][1]
            for gd, dd in alts(d):
                for gp, pp in alts(p):
                    cs = c.items(pp) if isinstance(pp, (Tup, Ref)) else None
                    if not cs or len(cs) != 2:
                        c.fail(key, "does not answer with a distance and a point", got=x, guard=AND(base, gd, gp))
                        return
                    for gx, px in alts(cs[0][1]):
                        for gy, py in alts(cs[1][1]):
                            b = AND(base, gd, gp, gx, gy)
                            if b == F or not bdd.feasible(b):
                                continue
                            if not self.one(n, key, dd, (px, py), b):
                                return

    def one(self, n, key, d, p, b):
        c = self.c
        if any(isinstance(x, Top) for x in (d,) + p):
            c.open(key, "unknown answer")
            return False
        if not all(isinstance(x, Num) for x in (d,) + p):
            c.fail(key, "does not answer with a distance and a point", got=Tup((d,) + p), guard=b)
            return False
        x, y = p[0].r, p[1].r
        hit = [s for s in self.u if (x, y) == self.place(s)]
        if not hit:
            c.fail(key + ": point", "the point returned is none of the curves' points that were looked at", got=Tup(p), guard=b)
            return False
        c.ob("point of a curve")
        u = self.u[hit[0]]
        if not c.eq(key + ": distance to the point returned", d, N(u), g=b):
            return False
        samples = self.sampled(n)
        for s in samples:
            if s in self.u and s != hit[0]:
                if not c.true(key + ": no farther than the sampled point at %s" % s, dom.le(u, self.u[s]), g=b):
                    return False
        for s, ga in self.asked.items():
            if s not in samples and s != hit[0] and AND(ga, b) != F:
                if not c.true(key + ": no farther than the point looked at at %s" % s, dom.le(u, self.u[s]), g=AND(ga, b)):
                    return False
        return True

    def both_sides(self, n, s0, key):
        """s0 is the closest sample whatever the symbols are: points between it and its neighbours have been looked at"""
        c, step = self.c, Fraction(1, n - 1)
        for side, lo, hi in (("before", s0 - step, s0), ("after", s0, s0 + step)):
            if lo < 0 or hi > len(self.index):
                continue
            g = F
            for s, ga in self.asked.items():
                if lo < s < hi:
                    g = OR(g, ga)
            c.true(key + ": looks for closer points %s it" % side, g)


@minimum(300)
def c42(ck):
    """findClosestPoint on contours of one to three curves whose points have arbitrary distances from the query.  Fine tables: the distances
    of up to five sampled points, at ends and joints, are symbolic.  Coarser tables: every sampled point (joints, ends and their neighbours)
    is the closest once, and the points the refinement asks for have symbolic distances, one level at a time; the points asked for must lie on both sides of
    the closest sample, on the next curve too, and none of them may be closer than the answer."""
    def fine(curves, n, free):
        def go(c):
            m = Model(c, curves, lambda s: "free" if s in free else "far", len(free))
            m.search(n, "search")
            c.hazards()
        ck.run("%d curves, table of %d, symbolic at %s" % (curves, n, ", ".join(str(s) for s in free)), go)

    for curves, n, free in ((1, 600, (0, 1)), (1, 600, (0, Fraction(1, 599), Fraction(300, 599), Fraction(598, 599))), (2, 600, (0, 1, 2)),
                            (2, 600, (1, 1 - Fraction(1, 599), 1 + Fraction(1, 599))), (3, 600, (0, 1, Fraction(3, 2), 2, 3))):
        fine(curves, n, tuple(Fraction(s) for s in free if (Fraction(s) * (n - 1)).denominator == 1))

    def refined(curves, n, s0, levels, win, on=None):
        """the sampled point s0 is closest; level by level the refinement's points are far, or the scripted winner"""
        def go(c):
            sampled = {Fraction(i, n - 1) for i in range(curves * (n - 1) + 1)}
            count = [0] * curves

            def script(s):
                if s in sampled:
                    return num(10) if s == s0 else "far"
                k = int(s)
                if on is not None and k not in on:
                    return "far"
                j, i = divmod(count[k], 3)
                count[k] += 1
                if j < len(win):
                    return num(Fraction(9 - j)) if i == win[j] else "far"
                return "free" if j < len(win) + levels else "far"
            m = Model(c, curves, script, 3 * levels * (curves if on is None else len(on)))
            m.search(n, "closest sample %s" % s0)
            if n <= 101:
                m.both_sides(n, s0, "closest sample %s" % s0)
            c.hazards()
        ck.run("%d curves, table of %d, sample %s closest, winners %s%s" % (curves, n, s0, list(win), "" if on is None else " on %s" % (on,)), go)

    for curves in (1, 2, 3):
        for n in (2, 3, 5, 12, 101):
            step = Fraction(1, n - 1)
            near = {s for j in range(curves + 1) for s in (j - step, Fraction(j), j + step) if 0 <= s <= curves}
            for s0 in sorted(near):
                here = [k for k in range(curves) if k <= s0 <= k + 1]
                for k in here:
                    refined(curves, n, s0, 1, (), (k,))
                if len(here) > 1 and (curves, n) in ((2, 101), (3, 5)):
                    refined(curves, n, s0, 1, (), tuple(here))
    for n in (5, 12):
        for s0 in (Fraction(0), Fraction(1, n - 1), Fraction(1)):
            for w in (0, 1, 2):
                refined(1, n, s0, 1, (w,))
                refined(1, n, s0, 1, (w, 1))
    refined(1, 5, Fraction(1, 2), 2, ())
    for k in (0, 1):
        refined(2, 5, Fraction(1), 2, (), (k,))
        refined(2, 5, Fraction(1), 1, (1,), (k,))
        refined(2, 12, Fraction(1), 1, (0, 2), (k,))

    def coarse(curves, n):
        """all sampled points symbolic, none of the others closer"""
        def go(c):
            sampled = {Fraction(i, n - 1) for i in range(curves * (n - 1) + 1)}
            m = Model(c, curves, lambda s: "free" if s in sampled else "far", len(sampled))
            m.search(n, "search")
            c.hazards()
        ck.run("%d curves, table of %d, all samples symbolic" % (curves, n), go)
    coarse(1, 2)
    coarse(1, 3)
    coarse(2, 2)
    coarse(1, 4)
    coarse(2, 3)
    coarse(3, 2)
