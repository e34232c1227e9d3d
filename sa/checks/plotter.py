"""C40, C41: the contour plotter, over a stand-in of the plotter engine it derives from."""
import itertools
from ..h import *
from .. import svg
from .transform import minimum
from .curves import BZ, BC, cps, _light, _havoc
from .contours import chain, contour, TRUE
from ..builtins_ import string

PL = "PathLib.ContourPlotter.ContourPlotter"
FALSE = BoolV(F)
FILL = ("_fillColor", "_fillOpacity")
STROKE = ("_strokeColor", "_strokeWidth", "_strokeOpacity", "_strokeDash")
PAINT = FILL + STROKE
STACKS = ("_fillAttributeStack", "_strokeAttributeStack")


def plotter(c, poly=False, **paint):
    p = c.call(PL, Tup([num(0), num(0), num(1000), num(800)]), **({"poly": TRUE} if poly else {}))
    for k, v in paint.items():
        c.it.setattr_obj(p.o, k, v)
    return p


def start_paint():
    return {"_fillColor": string("F0"), "_fillOpacity": sym("fo"), "_strokeColor": string("S0"), "_strokeWidth": sym("sw"),
            "_strokeOpacity": sym("so"), "_strokeDash": string("D0")}


def bare_paint():
    """nothing set"""
    return dict.fromkeys(start_paint(), NONE)


def paint_of(c, p):
    return {a: c.it.getattr(p, a) for a in PAINT}


def content(c, p):
    return [x for _, x in c.it.entries(c.it.getattr(p, "_content"))]


def same_paint(c, key, p, before, depth=None):
    for a in PAINT:
        c.eq("%s: %s" % (key, a), c.it.getattr(p, a), before[a], what="%s is not restored" % a)
    for i, s in enumerate(STACKS):
        n = c.it.call(c.it.builtins["len"], [c.it.getattr(p, s)], {}) if False else num(len(c.it.entries(c.it.getattr(p, s))))
        c.eq("%s: depth of %s" % (key, s), n, num(depth[i] if depth else 0), what="%s keeps an entry" % s)


def strs(c, v):
    """constant text of the string alternatives of a value"""
    out = []
    for g, s in svg.strings(c, v, AND(c.it.live, c.assume)):
        if isinstance(s, Str):
            out.append((g, "".join(p if isinstance(p, str) else "0" for p in s.parts)))
        elif isinstance(s, Tup) and len(s.items) > 1:
            for h, t in svg.strings(c, s.items[1], g):
                out.append((h, "".join(p if isinstance(p, str) else "0" for p in t.parts)))
    return out


def painted(c, key, items, fill, color):
    """what was drawn carries the paint"""
    attr = ("fill='%s'" if fill else "stroke='%s'") % color
    for i, v in enumerate(items):
        for g, s in strs(c, v):
            if attr not in s or (not fill and "<path" in s and "fill='none'" not in s):
                ps = c.find(g)
                if ps:
                    c.fail("%s: paint" % key, "item %d is not drawn with %s" % (i, attr), got=s, point=ps[0], guard=g)
                    return
            else:
                c.ob("normal form")


COLORS = [None, "red", "S0", "F0", "OS", "OF"]   # also those in force before the call


def sstr(x):
    return NONE if x is None else string(x)


@minimum(900)
def c40(ck):
    """effect analysis of every drawing call on symbolic geometry: for each combination of colour, fill, close and poly the six paint
    attributes and both stacks after the call are the ones before it, nothing escapes, and what is drawn carries the colour asked for;
    push/pop pairs, nested and interleaved, restore the saved values."""
    ck.prepare = _light

    def pushpop(c, start=start_paint):
        vals = {"width": [None, num(3)], "color": [None, string("red")], "opacity": [None, num(Fraction(1, 2))], "dash": [None, string("2, 1")]}
        p = plotter(c, **start())
        b = paint_of(c, p)
        zeros = [{"opacity": num(0)}, {"color": NONE, "opacity": NONE}]
        combos = [dict((k, v) for k, v in zip(("color", "opacity"), vs) if v is not None)
                  for vs in itertools.product(vals["color"], vals["opacity"])] + zeros
        for kw in combos:
            c.reset()
            c.meth(p, "pushFillAttributes", **kw)
            for k, v in kw.items():
                if k == "color" and v is not NONE:
                    c.eq("push sets the colour", c.it.getattr(p, "_fillColor"), v)
                if k == "opacity" and v is not NONE and not (isinstance(v, Num) and v.r == ZERO):
                    c.eq("push sets the opacity", c.it.getattr(p, "_fillOpacity"), v)
            c.meth(p, "popFillAttributes")
            same_paint(c, "fill %s" % sorted(kw), p, b)
            c.hazards("fill %s" % sorted(kw))
        for vs in itertools.product(*vals.values()):
            kw = dict((k, v) for k, v in zip(vals, vs) if v is not None)
            c.reset()
            c.meth(p, "pushStrokeAttributes", **kw)
            for k, v in kw.items():
                a = {"width": "_strokeWidth", "color": "_strokeColor", "opacity": "_strokeOpacity", "dash": "_strokeDash"}[k]
                c.eq("push sets %s" % a, c.it.getattr(p, a), v)
            c.meth(p, "popStrokeAtributes")
            same_paint(c, "stroke %s" % sorted(kw), p, b)
            c.hazards("stroke %s" % sorted(kw))
        for seq in itertools.product("FSfs", repeat=2):
            # nesting: two pushes of either kind, changes, pops in reverse order
            c.reset()
            states = []
            for i, k in enumerate(seq):
                states.append((k, paint_of(c, p)))
                kw = {"color": string("c%d" % i)} if k.isupper() else {}
                c.meth(p, "pushFillAttributes" if k in "Ff" else "pushStrokeAttributes", **kw)
                c.meth(p, "setFillColor" if k in "Ff" else "setStrokeColor", string("other%d" % i))
            c.it.setattr_obj(p.o, "_strokeDash", string("9")) if seq[1] in "Ss" else None
            for k, st in reversed(states):
                c.meth(p, "popFillAttributes" if k in "Ff" else "popStrokeAtributes")
                for a in (FILL if k in "Ff" else STROKE):
                    c.eq("nested %s: %s" % ("".join(seq), a), c.it.getattr(p, a), st[a])
            same_paint(c, "nested %s" % "".join(seq), p, b)
            c.hazards("nested")
    ck.run("push and pop", pushpop)
    ck.run("push and pop without attributes", lambda c: pushpop(c, bare_paint))

    def each(name, fn, opts, shapes, poly=(False, True)):
        for pol in poly:
            for shape in shapes:
                def go(c, pol=pol, shape=shape):
                    keys = list(opts)
                    for combo in itertools.product(*opts.values()):
                        o = dict(zip(keys, combo))
                        for outer, bare in ((False, False), (False, True), (True, False)):
                            c.reset()
                            paint = bare_paint() if bare else start_paint()
                            p = plotter(c, pol, **paint)
                            key = "%s %s%s%s" % (name, o, " inside pushed attributes" if outer else "", " without attributes" if bare else "")
                            if outer:
                                c.meth(p, "pushFillAttributes", color=string("OF"))
                                c.meth(p, "pushStrokeAttributes", color=string("OS"))
                            b = paint_of(c, p)
                            n = len(content(c, p))
                            fn(c, p, shape, o)
                            same_paint(c, key, p, b, (1, 1) if outer else None)
                            if "color" in o or "colors" in o:
                                fill = o.get("fill", False)
                                col = o["color"] if "color" in o else (o["colors"] or [None])[0]
                                if col is None and bare:
                                    pass
                                elif col is None:
                                    col = b["_fillColor" if fill else "_strokeColor"].const
                                    painted(c, key, content(c, p)[n:], fill, col)
                                elif "colors" in o:
                                    for i, v in enumerate(content(c, p)[n:]):
                                        painted(c, key, [v], fill, o["colors"][i % len(o["colors"])])
                                else:
                                    painted(c, key, content(c, p)[n:], fill, col)
                            c.hazards(key)
                            if outer:
                                c.meth(p, "popStrokeAtributes")
                                c.meth(p, "popFillAttributes")
                                same_paint(c, key + ", popped", p, paint)
                ck.run("%s %s%s" % (name, shape, " poly" if pol else ""), go)

    def kwargs(o, *names):
        out = {}
        for k in names:
            if k not in o or o[k] == "default":
                continue
            v = o[k]
            out[k] = BoolV(T if v else F) if isinstance(v, bool) else NONE if v is None else \
                lst([string(x) for x in v]) if isinstance(v, list) else string(v)
        return out

    shapes = [[(1, 2)], [(3,), (1, 1)], []]

    def contours(c, p, shape, o):
        c.meth(p, "drawContours", lst([lst([lst(s) for s in chain(k, "c%d" % i)]) for i, k in enumerate(shape)]), **kwargs(o, "color", "fill", "close"))
    each("drawContours", contours, {"color": COLORS, "fill": [False, True], "close": [False, True]}, shapes)

    def paths(c, p, shape, o):
        c.meth(p, "drawPaths", lst([contour(c, chain(k, "c%d" % i)) for i, k in enumerate(shape)]), **kwargs(o, "color", "fill", "close"))
    each("drawPaths", paths, {"color": COLORS, "fill": [False, True], "close": [False, True]}, shapes)

    def segments(c, p, shape, o):
        c.meth(p, "drawPointsAsSegments", lst(pts(shape)), **kwargs(o, "color"))
    each("drawPointsAsSegments", segments, {"color": COLORS}, [1, 2, 3])

    def circles(c, p, shape, o):
        kind, n = shape
        ps = pts(n) if kind == "points" else [Cplx(sym("x%d" % i), sym("y%d" % i)) for i in range(n)]
        c.meth(p, "drawPointsAsCircles" if kind != "complex" else "drawComplexPointsAsCircles", lst(ps), sym("radius"), **kwargs(o, "colors", "fill"))
    each("drawPointsAsCircles", circles, {"colors": [None, ["red"], ["red", "blue"], ["F0", "S0"]], "fill": [False, True]},
         [("points", 1), ("points", 3), ("complex", 1), ("complex", 3), ("either", 2)], poly=(False,))

    def curve(c, p, shape, o):
        c.meth(p, "drawCurve", lst(pts(shape + 1)), **kwargs(o, "color"))
    each("drawCurve", curve, {"color": COLORS}, [1, 2, 3])

    def arrow(c, p, shape, o):
        kw = kwargs(o, "color")
        if shape:
            kw.update(style=string("open60"), position=string("both"))
        c.meth(p, "drawArrowBetweenPoints", P("a"), P("b"), **kw)
    each("drawArrowBetweenPoints", arrow, {"color": COLORS}, [False, True], poly=(False,))

    def skeleton(c, p, shape, o):
        b = c.call(BZ, lst(pts(shape + 1)))
        c.meth(p, "drawSkeleton", b, **kwargs(o, "lineColor", "pointColors"))
    each("drawSkeleton", skeleton, {"lineColor": ["default", None, "red", "S0"], "pointColors": ["default", None, ["blue", "green"]]}, [1, 2, 3], poly=(False,))

    def hull(c, p, shape, o):
        b = c.call(BZ, lst(pts(shape + 1)))
        c.meth(p, "drawHull", b, sym("t"), **kwargs(o, "lineColor", "pointColor"))
    each("drawHull", hull, {"lineColor": ["default", None, "red", "S0"], "pointColor": ["default", "blue", "F0"]}, [1, 2, 3], poly=(False,))

    def text(c, p, shape, o):
        c.meth(p, "drawText", sym("x"), sym("y"), string("left"), string("text"), margin=BoolV(T if shape else F))
    each("drawText", text, {}, [True, False], poly=(False,))

    def sequence(c):
        """one drawing after the other: nothing carries over"""
        p = plotter(c, **start_paint())
        b = paint_of(c, p)
        cs = lambda: lst([lst([lst(s) for s in chain((1, 2))])])
        steps = [lambda: c.meth(p, "drawContours", cs(), color=string("a")), lambda: c.meth(p, "drawContours", cs(), fill=TRUE),
                 lambda: c.meth(p, "drawPaths", lst([contour(c, chain((1, 2)))]), color=string("b"), fill=TRUE),
                 lambda: c.meth(p, "drawPointsAsCircles", lst(pts(2)), num(2), colors=lst([string("c"), string("d")])),
                 lambda: c.meth(p, "drawPointsAsCircles", lst(pts(2)), num(2), colors=lst([string("c"), string("d")]), fill=FALSE),
                 lambda: c.meth(p, "drawArrowBetweenPoints", P("a"), P("b"), color=string("e")),
                 lambda: c.meth(p, "drawCurve", lst(pts(3)), color=string("f"))]
        for i, s in enumerate(steps):
            s()
            same_paint(c, "after step %d" % i, p, b)
        c.hazards()
    ck.run("one after the other", sequence)


def element(c, key, v, want, closed, base=None):
    """a path element draws want"""
    base = AND(c.it.live, c.assume) if base is None else base
    for g, s in svg.strings(c, v, base):
        if not bdd.feasible(g):
            continue
        try:
            d = svg.path_data(s.parts) if isinstance(s, Str) else None
        except svg.Malformed:
            d = None
        if d is None:
            ps = c.find(g)
            if ps:
                c.fail(key, "no path element with path data", got=s, point=ps[0], guard=g)
                return False
            continue
        if not want:
            if any(not isinstance(x, str) or x.strip() for x in d.parts):
                c.fail(key, "path data for nothing", got=s, guard=g)
                return False
            c.ob("normal form")
            continue
        if not svg.draws(c, key, d, want, closed, g):
            return False
    return True


@minimum(1500)
def c41(ck):
    """path data emitted for symbolic contours, paths, point chains and curves: every alternative of the derived string, read by the SVG path
    grammar, draws the given segments with equal coordinates; plain and poly, several contours, drawings one after the other."""
    ck.prepare = _light
    kinds2 = [(a,) for a in (1, 2, 3)] + list(itertools.product((1, 2, 3), repeat=2))
    three = [(1, 1, 1), (1, 2, 1), (2, 2, 2), (3, 3, 3), (1, 3, 1), (1, 1, 2), (2, 1, 1), (3, 1, 1), (1, 1, 3), (2, 3, 1)]

    def arg(shape, mk=chain):
        return [mk(k, "c%d" % i) for i, k in enumerate(shape)]

    def draw_contours(c, key, p, cs, close=None, color=None, fill=False):
        n = len(content(c, p))
        kw = {}
        if close is not None:
            kw["close"] = BoolV(T if close else F)
        if color:
            kw["color"] = string(color)
        if fill:
            kw["fill"] = TRUE
        c.meth(p, "drawContours", lst([lst([lst(s) for s in k]) for k in cs]), **kw)
        new = content(c, p)[n:]
        if len(new) != 1:
            c.fail(key, "%d items are drawn for one call" % len(new))
            return
        element(c, key, new[0], [[cps(s) for s in k] for k in cs], True if close is None else close)
        c.hazards(key)

    def draw_paths(c, key, p, cs, color=None, fill=False):
        n = len(content(c, p))
        kw = {}
        if color:
            kw["color"] = string(color)
        if fill:
            kw["fill"] = TRUE
        c.meth(p, "drawPaths", lst([contour(c, k) for k in cs]), **kw)
        new = content(c, p)[n:]
        if len(new) != len(cs):
            c.fail(key, "%d items are drawn for %d paths" % (len(new), len(cs)))
            return
        for v, k in zip(new, cs):
            element(c, key, v, [[cps(s) for s in k]], None)
        c.hazards(key)

    for poly in (False, True):
        w = " poly" if poly else ""
        for k in kinds2 + three:
            def go(c, k=k, poly=poly):
                p = plotter(c, poly)
                draw_contours(c, "drawContours", p, arg([k]))
                c.reset()
                draw_contours(c, "drawContours open", plotter(c, poly), arg([k]), close=False, color="red")
                c.reset()
                draw_paths(c, "drawPaths", plotter(c, poly), arg([k]))
                c.reset()
                draw_contours(c, "drawContours filled", plotter(c, poly), arg([k]), fill=True)
            ck.run("one contour %s%s" % (k, w), go)
        for shape in [[(1,), (1,)], [(2,), (2,)], [(3,), (3,)], [(1, 2), (2, 1)], [(1,), (3,), (1,)], [(2,), (1,), (2,)], [(3, 1), (1, 3)], [(2, 3)] * 2, []]:
            def go(c, shape=shape, poly=poly):
                draw_contours(c, "drawContours", plotter(c, poly), arg(shape))
                c.reset()
                draw_contours(c, "drawContours open", plotter(c, poly), arg(shape), close=False)
                c.reset()
                draw_paths(c, "drawPaths", plotter(c, poly), arg(shape))
                c.reset()
                draw_paths(c, "drawPaths filled", plotter(c, poly), arg(shape), fill=True, color="red")
            ck.run("contours %s%s" % (shape, w), go)

        def after(c, poly=poly):
            """nothing of an earlier drawing abbreviates or displaces a later one"""
            for a, b in itertools.product((1, 2, 3), repeat=2):
                c.reset()
                p = plotter(c, poly)
                draw_contours(c, "first", p, arg([(a,)]))
                draw_paths(c, "paths after contours", p, arg([(b,)]))
                draw_contours(c, "contours after paths", p, arg([(b,)]))
                c.meth(p, "drawPointsAsSegments", lst(pts(3)))
                draw_contours(c, "contours after points", p, arg([(b,)]))
        ck.run("one after the other" + w, after)

        def special(c, poly=poly):
            for ks in list(itertools.product("HVZL", repeat=2)) + [tuple(x) for x in
                    ("QZQ", "CZC", "QHQ", "CVC", "HQH", "VCV", "HZH", "HHH", "VVV", "ZHQ", "LZL", "HLH", "VZV")]:
                x, y = r(sym("x0")), r(sym("y0"))
                segs = []
                for i, k in enumerate(ks):
                    s = [pt(x, y)]
                    for j in range({"Q": 2, "C": 3}.get(k, 1)):
                        nx = x if k in "VZ" else r(sym("x%d_%d" % (i, j)))
                        ny = y if k in "HZ" else r(sym("y%d_%d" % (i, j)))
                        s.append(pt(nx, ny))
                    x, y = nx, ny
                    segs.append(s)
                c.reset()
                draw_contours(c, "".join(ks), plotter(c, poly), [segs])
                c.reset()
                draw_paths(c, "".join(ks) + " as a path", plotter(c, poly), [segs])
        ck.run("axis-parallel and zero-length lines" + w, special)

        def chainpts(c, poly=poly):
            def one(key, p, ps, color=None):
                n = len(content(c, p))
                c.meth(p, "drawPointsAsSegments", lst(ps), **({"color": string(color)} if color else {}))
                new = content(c, p)[n:]
                if len(new) != 1:
                    c.fail(key, "%d items are drawn for one call" % len(new))
                    return
                q = cps(ps)
                segs = [[a, b] for a, b in zip(q, q[1:])]
                if segs:
                    element(c, key, new[0], [segs], False)
                c.hazards(key)
            for n in (1, 2, 3, 4):
                c.reset()
                p = plotter(c, poly)
                one("%d points" % n, p, pts(n))
                one("%d points again" % n, p, pts(n, "b"), "red")
            a, b = P("a"), P("b")
            for nm, ps in [("aab", [a, a, b]), ("aba", [a, b, a]), ("abb", [a, b, b]), ("aa", [a, a]), ("abba", [a, b, b, a]), ("aaab", [a, a, a, b])]:
                c.reset()
                one(nm, plotter(c, poly), ps)
        ck.run("point chains" + w, chainpts)

        def curve(c, poly=poly):
            for k in (1, 2, 3):
                c.reset()
                p = plotter(c, poly)
                s = pts(k + 1)
                c.meth(p, "drawCurve", lst(s))
                element(c, "order %d" % k, content(c, p)[-1], [[cps(s)]], False)
                c.meth(p, "drawCurve", lst(s), color=string("red"))
                element(c, "order %d again" % k, content(c, p)[-1], [[cps(s)]], False)
                c.hazards()
        ck.run("curves" + w, curve)

        def big(c, poly=poly):
            lits = literals_in(["ContourPlotter.py"], ["drawContours", "drawPaths", "drawPointsAsSegments"])
            for n in sorted({14} | {x for x in large(lits, 4) if x < 90}):
                for shape in ([n], [2] * n):
                    cs = [number_chain(k, (1, 2, 3, 1, 1, 3), i + 1) for i, k in enumerate(shape)]
                    key = "contours of %s curves" % (shape if len(shape) == 1 else "%d times 2" % n)
                    c.reset()
                    draw_contours(c, key, plotter(c, poly), cs)
                    c.reset()
                    draw_paths(c, key + ", paths", plotter(c, poly), cs)
                c.reset()
                p, ps = plotter(c, poly), number_pts(n)
                q = cps(ps)
                c.meth(p, "drawPointsAsSegments", lst(ps))
                element(c, "chain of %d points" % n, content(c, p)[-1], [[[a, b] for a, b in zip(q, q[1:])]], False)
                c.hazards()
        ck.run("many curves" + w, big)

    def hull(c):
        """the hull of a curve is drawn level by level"""
        for k in (1, 2, 3):
            for nm, kw in [("", {}), (" no line colour", {"lineColor": NONE})]:
                c.reset()
                p = plotter(c)
                ps = pts(k + 1)
                b = c.call(BZ, lst(ps))
                t = r(sym("t"))
                c.meth(p, "drawHull", b, N(t), **kw)
                from .curves import decasteljau
                q = decasteljau(cps(ps), t)
                levels, i = [], 0
                for n in range(k + 1, 1, -1):
                    levels.append(q[i:i + n])
                    i += n
                paths = [v for v in content(c, p) if not isinstance(v, Tup)]
                if len(paths) != len(levels):
                    c.fail("order %d%s" % (k, nm), "%d levels of the hull are drawn instead of %d" % (len(paths), len(levels)))
                    continue
                for v, lv in zip(paths, levels):
                    element(c, "order %d%s" % (k, nm), v, [[[a, d] for a, d in zip(lv, lv[1:])]], False)
                circ = [v for v in content(c, p) if isinstance(v, Tup) and v.items[0].const == "circle"]
                c.eq("order %d control points" % k, lst([v.items[2] for v in circ]), lst(ps))
                c.hazards()
    ck.run("hull", hull)

    def circles(c):
        for kind, meth in [("points", "drawPointsAsCircles"), ("complex", "drawPointsAsCircles"), ("complex", "drawComplexPointsAsCircles")]:
            for fill in (TRUE, FALSE):
                c.reset()
                p = plotter(c)
                ps = pts(3)
                a = ps if kind == "points" else [Cplx(q.items[0], q.items[1]) for q in ps]
                c.meth(p, meth, lst(a), sym("radius"), colors=lst([string("a"), string("b")]), fill=fill)
                c.eq("%s %s centres" % (meth, kind), lst([v.items[2] for v in content(c, p)]), lst(ps))
                c.eq("%s %s radii" % (meth, kind), lst([v.items[3] for v in content(c, p)]), lst([sym("radius")] * 3))
                c.hazards()
    ck.run("circles", circles)


@minimum(300)
def c45(ck):
    """what is recorded for symbolic points, curves and bounds: one mark per point, in order, with the place, size, mode and coordinate system
    asked for; labels carry the rounded coordinates; arrows run from the start to the end"""
    ck.prepare = _light

    def records(c, p, n=0, kind=None):
        return [v for v in content(c, p)[n:] if isinstance(v, Tup) and (kind is None or v.items[0].const == kind)]

    def mark(c, key, v, kind, items, at):
        """record v is of the kind, its fields from index at on are items"""
        if not isinstance(v, Tup) or v.items[0].const != kind:
            c.fail(key, "no %s is drawn" % kind, got=v)
            return
        for i, (j, w) in enumerate(zip(at, items)):
            c.eq("%s: field %d" % (key, j), v.items[j], w)

    for kind, meth in [("points", "drawPointsAsCircles"), ("complex", "drawPointsAsCircles"), ("complex", "drawComplexPointsAsCircles")]:
        def circles(c, kind=kind, meth=meth):
            for n in (1, 2, 3, 5):
                for fill in (None, True, False):
                    for cols in (None, ["a"], ["a", "b"], ["a", "b", "c", "d"]):
                        c.reset()
                        p = plotter(c)
                        ps = pts(n)
                        a = ps if kind == "points" else [Cplx(q.items[0], q.items[1]) for q in ps]
                        kw = {}
                        if fill is not None:
                            kw["fill"] = BoolV(T if fill else F)
                        if cols:
                            kw["colors"] = lst([string(x) for x in cols])
                        arg = protect(lst(a), "the points")
                        c.meth(p, meth, arg, sym("radius"), **kw)
                        got = content(c, p)
                        key = "%s of %d %s, fill %s, colours %s" % (meth, n, kind, fill, cols)
                        if len(got) != n:
                            c.fail(key, "%d marks for %d points" % (len(got), n))
                            continue
                        mode = "stroke" if fill is False else "fill"
                        for i, v in enumerate(got):
                            mark(c, "%s: %d" % (key, i), v, "circle", [ps[i], sym("radius"), string("content"), string(mode)], (2, 3, 4, 5))
                            if cols:
                                painted(c, "%s: %d" % (key, i), [v], mode == "fill", cols[i % len(cols)])
                        c.hazards(key)
                        unmutated(c)
            for n in sorted({14} | {x for x in large(literals_in(["ContourPlotter.py"], [meth]), 5) if x < 90}):
                c.reset()
                p, ps = plotter(c), number_pts(n)
                a = ps if kind == "points" else [Cplx(q.items[0], q.items[1]) for q in ps]
                c.meth(p, meth, lst(a), num(3))
                c.eq("%d points" % n, lst([v.items[2] for v in records(c, p)]), lst(ps))
            # twice the same point is two marks
            c.reset()
            p = plotter(c)
            ps = [P("0"), P("1"), P("0"), P("0")]
            a = ps if kind == "points" else [Cplx(q.items[0], q.items[1]) for q in ps]
            c.meth(p, meth, lst(a), sym("radius"))
            c.eq("repeated points", lst([v.items[2] for v in records(c, p)]), lst(ps))
            c.meth(p, meth, lst(a[:2]), sym("r2"))
            c.eq("and more", lst([v.items[2] for v in records(c, p)]), lst(ps + ps[:2]))
            c.eq("radii of more", lst([v.items[3] for v in records(c, p)]), lst([sym("radius")] * 4 + [sym("r2")] * 2))
            c.hazards()
        ck.run("circles for %s by %s" % (kind, meth), circles)

    def texts(c):
        for margin, cs in ((None, "contentMargins"), (True, "contentMargins"), (False, "content")):
            for al in ("left", "center", "right"):
                c.reset()
                p = plotter(c)
                kw = {} if margin is None else {"margin": BoolV(T if margin else F)}
                c.meth(p, "drawText", sym("x"), sym("y"), string(al), string("some text"), **kw)
                got = content(c, p)
                key = "text %s margin %s" % (al, margin)
                c.eq(key + ": one label", num(len(got)), num(1))
                mark(c, key, got[0], "label", [Tup([sym("x"), sym("y")]), string("some text"), string(cs), num(0), string(al)], (2, 3, 4, 5, 6))
                c.hazards(key)
    ck.run("texts", texts)

    def arrows(c):
        for style in (None, "open60", "closed30"):
            for pos in (None, "start", "both"):
                for col in (None, "red"):
                    c.reset()
                    p = plotter(c)
                    kw = {}
                    if style:
                        kw["style"] = string(style)
                    if pos:
                        kw["position"] = string(pos)
                    if col:
                        kw["color"] = string(col)
                    c.meth(p, "drawArrowBetweenPoints", P("a"), P("b"), **kw)
                    got = content(c, p)
                    key = "arrow %s %s %s" % (style, pos, col)
                    c.eq(key + ": one arrow", num(len(got)), num(1))
                    mark(c, key, got[0], "arrow", [P("a"), P("b"), string("content"), string(style or "open60"), string(pos or "end"), string("2, 1")], (2, 3, 4, 5, 6, 7))
                    c.hazards(key)
    ck.run("arrows", arrows)

    def labels(c, key, got, ps):
        if len(got) != len(ps):
            c.fail(key, "%d labels for %d control points" % (len(got), len(ps)))
            return
        for i, (v, q) in enumerate(zip(got, ps)):
            x, y = q.items
            at = Tup([N(r(x) + 4), N(r(y) - 4)])
            mark(c, "%s: label %d" % (key, i), v, "label", [at, c.call("_distance.label", x, y), string("content"), num(0), string("left")], (2, 3, 4, 5, 6))

    special = [Tup([num(Fraction(a)), num(Fraction(b))]) for a, b in [("1/8", "3"), ("-7/3", "1000/3"), ("0", "-1/1000"), ("123456.789", "2.675")]]

    for k in (1, 2, 3):
        def skeleton(c, k=k):
            for nm, ps, kw in [("", pts(k + 1), {}), ("coloured ", pts(k + 1), {"lineColor": string("red"), "pointColors": lst([string("a"), string("b")])}),
                               ("constant ", special[:k + 1], {}), ("no line colour ", pts(k + 1), {"lineColor": NONE})]:
                c.reset()
                p = plotter(c)
                b = c.call(BZ, protect(lst(ps), "the points of the curve"))
                c.meth(p, "drawSkeleton", b, **kw)
                key = "%sskeleton" % nm
                paths = [v for v in content(c, p) if not isinstance(v, Tup)]
                c.eq(key + ": one line", num(len(paths)), num(1))
                q = cps(ps)
                element(c, key, paths[0], [[[a, e] for a, e in zip(q, q[1:])]], False)
                circ = records(c, p, kind="circle")
                c.eq(key + ": marks", lst([Tup(v.items[2:6]) for v in circ]), lst([Tup([x, num(2), string("content"), string("fill")]) for x in ps]))
                labels(c, key, records(c, p, kind="label"), ps)
                c.eq(key + ": nothing else", num(len(content(c, p))), num(1 + 2 * (k + 1)))
                c.hazards(key)
                unmutated(c)
        ck.run("skeleton of order %d" % k, skeleton)

        def hull(c, k=k):
            ps = pts(k + 1)
            p = plotter(c)
            b = c.call(BZ, protect(lst(ps), "the points of the curve"))
            c.meth(p, "drawHull", b, sym("t"))
            circ = records(c, p, kind="circle")
            c.eq("marks", lst([Tup(v.items[2:6]) for v in circ]), lst([Tup([x, num(2), string("content"), string("fill")]) for x in ps]))
            labels(c, "hull", records(c, p, kind="label"), ps)
            c.eq("lines", num(len([v for v in content(c, p) if not isinstance(v, Tup)])), num(k))
            c.hazards()
            unmutated(c)
        ck.run("marks of the hull of order %d" % k, hull)

    def frame(c):
        boxes = [("0 0 1000 800", (0, 0, 1000, 800)), ("offset", (-100, -50, 139, Fraction(141, 2))), ("small", (3, 4, 10, 23)), ("wide", (0, 0, 5000, 19))]
        boxes = [(n, [num(Fraction(x)) for x in b]) for n, b in boxes] + [("symbolic", [sym("l"), sym("b"), N(r(sym("l")) + r(sym("w", nonneg=True))), N(r(sym("b")) + r(sym("h", nonneg=True)))])]
        for nm, b in boxes:
            for poly in (False, True):
                c.reset()
                p = c.call(PL, Tup(b), **({"poly": TRUE} if poly else {}))
                w, h = [c.call("_distance.twentieth", N(r(b[i + 2]) - r(b[i]))) for i in (0, 1)]
                m = c.it.getattr(p, "_contentMargins")
                c.eq("%s: margins" % nm, Tup([c.attr(m, a) for a in ("left", "top", "right", "bottom")]), Tup([w, h, w, h]))
                fm = c.it.getattr(p, "_frameMargins")
                c.eq("%s: frame" % nm, Tup([c.attr(fm, a) for a in ("left", "top", "right", "bottom")]), Tup([num(10)] * 4))
                c.eq("%s: bounds" % nm, c.attr(c.it.getattr(p, "_boundsAggregator"), "bounds"), lst([Tup(b)]))
                c.eq("%s: label size" % nm, c.attr(p, "labelFontSize"), N(r(h) / 2))
                c.eq("%s: label font" % nm, c.attr(p, "labelFont"), c.it.getattr(p, "_labelFont"))
                c.eq("%s: empty" % nm, num(len(content(c, p))), num(0))
                c.hazards(nm)
    ck.run("frame", frame)
