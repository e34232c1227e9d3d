"""C38, C39: colours."""
import json
import os
from ..h import *
from .transform import minimum
from .. import builtins_ as B

CO = "PathLib.Color.Color"
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "data")


def rgb(c, v):
    """components of every colour alternative as one gated tuple"""
    out = []
    for g, x in alts(prune(v, c.it.live)):
        if isinstance(x, Ref) and isinstance(x.o, Inst):
            live = c.it.live
            c.it.live = AND(live, g)
            out.append((g, Tup([c.it.getattr(x, n) for n in ("red", "green", "blue")])))
            c.it.live = live
        else:
            out.append((g, x))
    return Choice(tuple(out)) if len(out) > 1 else out[0][1]


def cases_of(k):
    return [k, k.upper(), k.capitalize(), "".join(ch.upper() if i % 2 else ch for i, ch in enumerate(k)), k[:-1] + k[-1].upper()]


@minimum(700)
def c38(ck):
    """fromName derived for all 147 CSS3 keywords in several spellings and for the abstract string 'any letter case of this keyword':
    the components given to the base class equal the CSS table (data/css3_colors.json); abstract and concrete names with a non-letter
    give None; unknown alphabetic names leave by ValueError."""
    table = json.load(open(os.path.join(DATA, "css3_colors.json")))

    def known(c):
        cls = c.get(CO)
        for k, v in sorted(table.items()):
            want = Tup([num(x) for x in v])
            for s in cases_of(k):
                x = c.call(CO + ".fromName", string(s))
                c.eq(s, rgb(c, x), want)
            x = c.call(CO + ".fromName", B.sym_string("a spelling of " + k, alpha=True, lower=k))
            c.eq("any spelling of " + k, rgb(c, x), want)
            for _, y in alts(prune(x, c.it.live)):
                if isinstance(y, Ref) and isinstance(y.o, Inst) and cls not in y.o.cls.mro:
                    c.fail("class of " + k, "not a PathLib Color", got=y)
        c.hazards()
    ck.run("keywords", known)

    def bad(c):
        for s in ["", "dark blue", "blue1", "#ff0000", "rgb(1,2,3)", "dark-blue", "red ", " red", "red\n", "navy_", "12", "light.grey", "RED!", "Aqua\u0301",
                  "re d", "-", "\u20ac", "blue\u00b2\u00b0"]:
            assert not s.isalpha()
            c.eq("%r" % s, c.call(CO + ".fromName", string(s)), NONE)
        c.eq("any string with a non-letter", c.call(CO + ".fromName", B.sym_string("with a non-letter", alpha=False)), NONE)
        c.hazards()
    ck.run("names with a non-letter", bad)
    for s in ["nocolor", "darkbluegreen", "reds", "re", "RedGreen", "none", "lightgoldenrod", "b", "grayy", "darkpink", "Bleu"]:
        def unk(c, s=s):
            c.expected_dead = True
            try:
                c.call(CO + ".fromName", string(s))
            except Dead:
                pass
            c.must_raise("%r raises ValueError" % s, ("ValueError",))
        ck.run("unknown name " + s, unk)


def mod(a, m):
    return a - mk_floor(a / m) * m


def hsl(H):
    """half saturated, half light colour of hue H in [0, 360): components in [0, 1]"""
    m1, m2 = Rat.c(Fraction(1, 4)), Rat.c(Fraction(3, 4))
    out = []
    for k in (2, 0, -2):
        x = mod(H / 60 + k, Rat.c(6))
        out.append(ite(lt(x, RONE), N(m1 + (m2 - m1) * x), ite(lt(x, Rat.c(3)), N(m2), ite(lt(x, Rat.c(4)), N(m1 + (m2 - m1) * (Rat.c(4) - x)), N(m1)))))
    return out


def rounded(c, v):
    """round(v * 255) with ties to even, as the language's round does"""
    rd = c.it.builtins["round"]
    return c.it.call(rd, [c.it.binop(__import__("ast").Mult(), v, num(255))], {})


@minimum(30)
def c39(ck):
    """randomRGBColor: the three components are three distinct draws, each over exactly [0, 255].  randomHSLColor: starting from the
    symbolic hue set by setCurrentHue and over consecutive calls, hue = (hue + 73) mod 360 and the components are the rounded 255-fold
    HSL formula (written independently, per sextant) of that hue with saturation and lightness one half."""
    def draws(c):
        seen = {}
        for i in range(3):
            x = rgb(c, c.call(CO + ".randomRGBColor"))
            its = c.items(x) if not isinstance(x, Choice) else None
            if its is None:
                c.fail("random colour %d" % i, "not one colour", got=x)
                continue
            for nm, (_, v) in zip(("red", "green", "blue"), its):
                if isinstance(v, Top):
                    c.open("%s of colour %d" % (nm, i), "drawn in a way that is not modelled: " + v.why)
                    continue
                a = v.r.single_atom() if isinstance(v, Num) else None
                A = alg.ATOMS[a] if a is not None else None
                if A is None or A.fn != "rand":
                    c.fail("%s of colour %d" % (nm, i), "is not a single random draw", got=v)
                    continue
                c.eq("%s of colour %d from" % (nm, i), Num(A.args[1], "int"), num(0))
                c.eq("%s of colour %d to" % (nm, i), Num(A.args[2], "int"), num(255))
                if a in seen:
                    c.fail("%s of colour %d" % (nm, i), "shares its draw with " + seen[a], got=v)
                else:
                    c.ob("normal form")
                seen[a] = "%s of colour %d" % (nm, i)
        c.hazards()
    ck.run("random RGB", draws)

    def hue(start, n, nm):
        def go(c):
            h = start
            if h is not None:
                if h.r.const is None:
                    c.require(AND(le(ZERO, r(h)), lt(r(h), Rat.c(360))))
                    c.hints.set(h, 0, 360)
                c.call(CO + ".setCurrentHue", h)
                H = r(h)
            else:
                H = ZERO
            for i in range(n):
                H = mod(H + 73, Rat.c(360))
                x = rgb(c, c.call(CO + ".randomHSLColor"))
                c.eq("colour %d" % (i + 1), x, Tup([rounded(c, v) for v in hsl(H)]))
            c.hazards()
        ck.run(nm, go)
    hue(sym("h"), 1, "any hue")
    hue(None, 12, "from the start")
    for k in (0, 5, 286, 287, 288, 300, 359, 107, 167, 227, 347, 47, 360, 361, 647, 1000, -1, -73, -74, -400):
        hue(num(k), 3, "from hue %d" % k)
    hue(num(Fraction(57, 2)), 2, "from hue 28.5")
    hue(num(Fraction(573, 2)), 2, "from hue 286.5")
    hue(num(Fraction(575, 2)), 2, "from hue 287.5")

    def reset(c):
        c.call(CO + ".setCurrentHue", num(200))
        c.call(CO + ".randomHSLColor")
        c.call(CO + ".setCurrentHue")
        c.eq("after setCurrentHue()", rgb(c, c.call(CO + ".randomHSLColor")), Tup([rounded(c, v) for v in hsl(Rat.c(73))]))
        c.call(CO + ".setCurrentHue", num(10))
        c.call(CO + ".randomRGBColor")
        c.call(CO + ".fromName", string("red"))
        c.eq("other colours in between", rgb(c, c.call(CO + ".randomHSLColor")), Tup([rounded(c, v) for v in hsl(Rat.c(83))]))
        c.call(CO + ".setCurrentHue", hue=num(40))
        c.eq("keyword", rgb(c, c.call(CO + ".randomHSLColor")), Tup([rounded(c, v) for v in hsl(Rat.c(113))]))
        c.hazards()
    ck.run("setting the hue", reset)
