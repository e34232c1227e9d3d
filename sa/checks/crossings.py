"""C43: the search for the intersections of two curves."""
from ..h import *
from .transform import minimum
from .curves import BZ, _havoc, bezier

BR = "PathLib.PathUtilities.BoundsRectangle"


class Boxes:
    """Curves whose pieces have arbitrary places: the bounding rectangle of the piece of curve k over an interval has a symbolic lower left
    corner of its own and a size that depends on k and on the interval's length."""

    def __init__(self, c, sizes, flat=True, far=None):
        self.c, self.sizes, self.flat, self.far = c, sizes, flat, far
        self.box = {}
        _havoc(c)
        c.it.overrides[BZ + ".boundsRectangle"] = self.rectangle

    def curve(self, k, a=0, b=1):
        """a quadratic standing for the piece of curve k over [a, b]"""
        o = bezier(self.c, pts(3, "curve%d_" % k))
        if (a, b) != (0, 1):
            o = self.c.meth(o, "split", num(a), num(b))
        return o

    def piece(self, o):
        c = self.c
        p = c.it.entries(c.it.getattr(o, "controlPoints"))[0][1]
        x = prune(p, c.it.live)
        names = {alg.ATOMS[a].args[0] for a in xy(x)[0].atoms() if alg.ATOMS[a].fn == "sym"}
        ks = {n.split("_")[0] for n in names if n.startswith("xcurve")}
        if len(ks) != 1:
            raise Unsupported("piece of neither curve")
        ts = []
        for n in ("_t1", "_t2"):
            t = prune(c.it.getattr(o, n), c.it.live)
            if not isinstance(t, Num) or t.r.const is None:
                raise Unsupported("piece over an unknown interval")
            ts.append(Fraction(t.r.const))
        return int(ks.pop()[len("xcurve"):]), ts[0], ts[1]

    def corner(self, k, a, b):
        key = (k, a, b)
        if key not in self.box:
            n = len(self.box)
            w, h = self.sizes[k](b - a)
            left = Rat.c(Fraction(10 ** 6)) if self.far and self.far(*key) else r(sym("left%d" % n))
            self.box[key] = (left, ZERO if self.flat else r(sym("bottom%d" % n)), Rat.c(Fraction(w)), Rat.c(Fraction(h)))
        return self.box[key]

    def rectangle(self, it, f, args, kw):
        x, y, w, h = self.corner(*self.piece(args[0]))
        return self.c.call(BR, pt(x, y), pt(x + w, y + h))

    def overlap(self, p, q):
        x, y, w, h = self.corner(*p)
        u, v, m, n = self.corner(*q)
        return AND(dom.le(x, u + m), dom.le(u, x + w), dom.le(y, v + n), dom.le(v, y + h))

    def expect(self, p, q, threshold, g, out):
        """the final pairs under p, q"""
        if all(sum(map(Fraction, self.sizes[z[0]](z[2] - z[1]))) < threshold for z in (p, q)):
            out.append((g, ((p[1] + p[2]) / 2, (q[1] + q[2]) / 2)))
            return
        for a in self.halves(p):
            for b in self.halves(q):
                self.expect(a, b, threshold, AND(g, self.overlap(a, b)), out)

    @staticmethod
    def halves(p):
        k, a, b = p
        m = (a + b) / 2
        return [(k, a, m), (k, m, b)]

    def same(self, key, v, want, twice=False):
        """the pairs listed in v are exactly want, each once"""
        c = self.c
        live = AND(c.it.live, c.assume)
        c.true(key + ": completes", live, g=c.assume)
        for gv, x in alts(v):
            base = AND(live, gv)
            if base == F:
                continue
            ents = c.items(x)
            if ents is None:
                c.fail(key, "no list of pairs", got=x, guard=base)
                return
            have = {}
            for g, e in ents:
                for ge, y in alts(e):
                    its = c.items(y) if isinstance(y, (Tup, Ref)) else None
                    if not its or len(its) != 2:
                        c.fail(key, "lists something that is no pair", got=y, guard=AND(base, g, ge))
                        return
                    for g0, s in alts(its[0][1]):
                        for g1, t in alts(its[1][1]):
                            b = AND(base, g, ge, g0, g1)
                            if b == F:
                                continue
                            if not all(isinstance(z, Num) and z.r.const is not None for z in (s, t)):
                                c.open(key, "pair of unknown parameters")
                                return
                            k = (Fraction(s.r.const), Fraction(t.r.const))
                            have.setdefault(k, []).append(b)
            wanted = {}
            for g, k in want:
                wanted[k] = OR(wanted.get(k, F), g)
            for k in set(have) | set(wanted):
                got = OR(*have.get(k, [F]))
                c.true("%s: (%s, %s) is listed exactly if every pair of boxes down to it overlaps" % ((key,) + k), NOT(XOR(got, wanted.get(k, F))), g=base)
                seen = F
                for b in have.get(k, ()):
                    if not twice:
                        c.true("%s: (%s, %s) is listed once" % ((key,) + k), NOT(AND(seen, b)), g=base)
                    seen = OR(seen, b)
                if c.vio:
                    return


SMALL = (Fraction(1, 8), Fraction(1, 8))


def shrinking(steps):
    """width and height per halving; small from the given number of halvings on"""
    def size(length):
        d = 0
        while length < 1:
            length, d = length * 2, d + 1
        return SMALL if d >= steps else (4 - d, 3)
    return size


def levels(n, *sums):
    """width and height together per halving of an n-th"""
    def size(length):
        d, x = 0, length * n
        while x < 1:
            x, d = x * 2, d + 1
        return (Fraction(sums[min(d, len(sums) - 1)]) / 4, Fraction(sums[min(d, len(sums) - 1)]) * 3 / 4)
    return size


@minimum(60)
def c43(ck):
    """curves whose pieces' bounding boxes lie anywhere (symbolic corners): what is returned is compared with the pairs of final pieces
    reached through overlapping boxes only, as a condition on all of the corners."""
    HALF = Fraction(1, 2)

    def subdivided(d1, d2, flat=True, threshold=None, sizes=None, starts=((0, 1), (0, 1)), far=None, note=""):
        def go(c):
            b = Boxes(c, sizes or {1: shrinking(d1), 2: shrinking(d2)}, flat, far)
            x, y = b.curve(1, *starts[0]), b.curve(2, *starts[1])
            v = c.call(BZ + ".pairiteration", x, y, *([num(threshold)] if threshold is not None else []))
            want = []
            b.expect((1,) + tuple(Fraction(z) for z in starts[0]), (2,) + tuple(Fraction(z) for z in starts[1]), HALF if threshold is None else threshold, T, want)
            b.same("pairs", v, want)
            c.hazards()
        ck.run("subdivision, small after %d and %d halvings%s%s%s" % (d1, d2, "" if flat else ", in both dimensions", "" if threshold is None else ", threshold %s" % threshold,
               "" if starts == ((0, 1), (0, 1)) else ", pieces %s" % (starts,)) + note, go)

    subdivided(0, 0)
    subdivided(1, 1)
    subdivided(1, 0)
    subdivided(0, 1)
    subdivided(1, 1, flat=False)
    subdivided(1, 2)
    subdivided(2, 1, far=lambda k, a, b: k == 1 and a >= HALF, note=", the first curve's second half far away")
    subdivided(2, 1, far=lambda k, a, b: k == 1 and b <= HALF, note=", the first curve's first half far away")
    subdivided(2, 2, far=lambda k, a, b: (a, b) not in ((0, 1), (0, HALF), (Fraction(1, 4), HALF)), note=", all but one quarter far away")
    subdivided(1, 1, starts=((Fraction(1, 4), HALF), (HALF, 1)))
    # a threshold of its own at every level: halves count as small under it though not under the default, and the other way round
    for t, seq in ((Fraction(8), (9, 7, Fraction(1, 8))), (Fraction(1, 4), (9, Fraction(1, 8)))):
        size = levels(1, *seq)
        subdivided(0, 0, threshold=t, sizes={1: size, 2: size}, note=", sizes %s" % (seq,))
    size = levels(1, 9, Fraction(3, 8), Fraction(1, 8))
    subdivided(0, 0, threshold=Fraction(1, 4), sizes={1: size, 2: size}, note=", smaller than the default", far=lambda k, a, b: (a, b) not in ((0, 1), (0, HALF), (Fraction(1, 4), HALF)))
    # sizes around the threshold: below in either dimension is not enough, and neither is reaching it exactly
    for t, w, h in ((Fraction(3), 1, 2), (Fraction(3), 2, 1), (Fraction(2), 0, 2), (Fraction(2), 2, 0), (Fraction(1, 8), Fraction(1, 8), 0)):
        for which in (1, 2):
            size = lambda length, w=w, h=h: (w, h) if length == 1 else (0, 0)
            subdivided(0, 0, threshold=t, sizes={which: size, 3 - which: lambda length: (0, 0)})
    subdivided(0, 0, threshold=Fraction(3), sizes={1: lambda n: (1, Fraction(3, 2)), 2: lambda n: (Fraction(3, 2), 1)})

    # the default: half a unit
    for seq in ((Fraction(5, 8), Fraction(1, 8)), (Fraction(3, 8), Fraction(1, 8))):
        subdivided(0, 0, sizes={1: levels(1, *seq), 2: levels(1, *seq)}, note=", sizes %s" % (seq,))

    def parts(c, b, k, n):
        return [b.curve(k, Fraction(i, n), Fraction(i + 1, n)) for i in range(n)]

    def iv(k, i, n):
        return (k, Fraction(i, n), Fraction(i + 1, n))

    def lists(n, m, d, sums=None):
        def go(c):
            b = Boxes(c, {1: lambda s: SMALL if s <= Fraction(1, n) / 2 ** d else (4, 3), 2: lambda s: SMALL if s <= Fraction(1, m) / 2 ** d else (3, 4)})
            if sums:
                b.sizes = {1: levels(n, *sums), 2: levels(m, *sums)}
            v = c.call(BZ + ".curveIntersects", lst(parts(c, b, 1, n)), lst(parts(c, b, 2, m)))
            want = []
            for i in range(n):
                for j in range(m):
                    b.expect(iv(1, i, n), iv(2, j, m), HALF, b.overlap(iv(1, i, n), iv(2, j, m)), want)
            b.same("pairs", v, want)
            c.hazards()
        ck.run("lists of %d and %d pieces, small after %d halvings%s" % (n, m, d, ", sizes %s" % (sums,) if sums else ""), go)
    for n, m, d in ((1, 1, 0), (2, 2, 0), (3, 2, 0), (1, 3, 0), (4, 4, 0), (1, 1, 1), (2, 1, 1), (1, 2, 1)):
        lists(n, m, d)
    for seq in ((Fraction(5, 8), Fraction(1, 8)), (Fraction(3, 8), Fraction(1, 8))):
        lists(1, 1, 0, seq)

    def curves(n, m, d, threshold=None, sums=None):
        """intersects() of two curves that reduce to n and m pieces"""
        def go(c):
            b = Boxes(c, {1: lambda s: SMALL if s <= Fraction(1, n) / 2 ** d else (4, 3), 2: lambda s: SMALL if s <= Fraction(1, m) / 2 ** d else (3, 4)})
            if sums:
                b.sizes = {1: levels(n, *sums), 2: levels(m, *sums)}
            x, y = b.curve(1), b.curve(2)
            ps = {id(x.o): parts(c, b, 1, n), id(y.o): parts(c, b, 2, m)}
            c.it.overrides[BZ + ".reduce"] = lambda it, f, args, kw: lst(ps[id(args[0].o)])
            v = c.meth(x, "intersects", y, *([num(threshold)] if threshold is not None else []))
            want = []
            for i in range(n):
                for j in range(m):
                    b.expect(iv(1, i, n), iv(2, j, m), HALF if threshold is None else threshold, b.overlap(iv(1, i, n), iv(2, j, m)), want)
            b.same("pairs", v, want)
            c.hazards()
        ck.run("curves of %d and %d pieces, small after %d halvings%s%s" % (n, m, d, "" if threshold is None else ", threshold %s" % threshold, ", sizes %s" % (sums,) if sums else ""), go)
    curves(2, 3, 0)
    curves(1, 1, 1)
    curves(2, 1, 1)
    curves(1, 2, 0, Fraction(8), (7, Fraction(1, 8)))
    curves(1, 1, 0, Fraction(8), (9, 7, Fraction(1, 8)))
    curves(1, 1, 0, Fraction(1, 4), (Fraction(3, 8), Fraction(1, 8)))
    for seq in ((Fraction(5, 8), Fraction(1, 8)), (Fraction(3, 8), Fraction(1, 8))):
        curves(1, 1, 0, None, seq)

    def itself(n, d, threshold=None, direct=True, sums=None):
        def go(c):
            b = Boxes(c, {1: lambda s: SMALL if s <= Fraction(1, n) / 2 ** d else (4, 3)})
            if sums:
                b.sizes = {1: levels(n, *sums)}
            x = b.curve(1)
            ps = parts(c, b, 1, n)
            c.it.overrides[BZ + ".reduce"] = lambda it, f, args, kw: lst(ps)
            th = [num(threshold)] if threshold is not None else []
            v = c.meth(x, "selfIntersects", *th) if direct else c.meth(x, "intersects", NONE, *th)
            want = []
            for i in range(n):
                for j in range(i + 2, n):
                    b.expect(iv(1, i, n), iv(1, j, n), HALF if threshold is None else threshold, b.overlap(iv(1, i, n), iv(1, j, n)), want)
            b.same("pairs", v, want)
            c.hazards()
        ck.run("a curve of %d pieces with itself, small after %d halvings%s%s" % (n, d, "" if threshold is None else ", threshold %s" % threshold, ("" if direct else ", intersects(None)") + (", sizes %s" % (sums,) if sums else "")), go)
    for n in (0, 1, 2, 3, 4, 5, 6):
        if n:
            itself(n, 0)
    itself(3, 1)
    itself(4, 0, direct=False)
    for direct in (True, False):
        itself(3, 0, Fraction(8), direct, (7, Fraction(1, 8)))
        itself(3, 0, Fraction(8), direct, (9, 7, Fraction(1, 8)))
        itself(3, 0, Fraction(1, 4), direct, (Fraction(3, 8), Fraction(1, 8)))
        for seq in ((Fraction(5, 8), Fraction(1, 8)), (Fraction(3, 8), Fraction(1, 8))):
            itself(3, 0, None, direct, seq)
