"""Reading SVG path data out of a derived string value and comparing what it draws with given segments.

The string is a value graph: literal text interleaved with number-valued parts.  Each alternative of the graph is tokenised and read by
the SVG path grammar (all of M L H V C S Q T Z, absolute and relative, repeated commands abbreviated); the segments it draws are then
aligned with the expected ones under the alternative's guard."""
import re
from . import alg, bdd, dom
from fractions import Fraction
from .alg import Rat, ZERO, RONE, EvalError
from .bdd import AND, F, T
from .dom import *
from .h import r, N, pt, xy
from .interp import Unsupported
from . import builtins_ as B

NUMBER = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
ARGS = {"M": 2, "L": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "T": 2, "Z": 0}


class Malformed(Exception):
    pass


def strings(c, v, base):
    """string alternatives of a value: [(guard, Str)]"""
    out = []
    for g, s in alts(prune(v, base)):
        g = AND(g, base)
        if g == F:
            continue
        if not isinstance(s, Str):
            out.append((g, s))
            continue
        for h, x in B.expand_str(s, g):
            h = AND(g, h)
            if h == F:
                continue
            out += numbers(x, h)
    return out


def numbers(s, g):
    """split on number parts that are themselves gated"""
    for i, p in enumerate(s.parts):
        if not isinstance(p, str) and p[0] == "v" and isinstance(p[1], Choice):
            out = []
            for h, v in alts(prune(p[1], g)):
                h = AND(g, h)
                if h != F:
                    q = s.parts[:i] + (("v", v) + tuple(p[2:]),) + s.parts[i + 1:]
                    out += numbers(Str(q), h)
            return out
    return [(g, s)]


def tokens(parts):
    out = []      # ("cmd", ch) | ("num", Rat)
    glued = False   # the previous token is a number with nothing after it
    for p in parts:
        if isinstance(p, str):
            i = 0
            while i < len(p):
                ch = p[i]
                if ch in " \t\r\n,":
                    glued = False
                    i += 1
                elif ch.upper() in ARGS:
                    if glued and ch in "eE":
                        raise Malformed("exponent after a number part")
                    out.append(("cmd", ch))
                    glued = False
                    i += 1
                else:
                    m = NUMBER.match(p, i)
                    if not m:
                        raise Malformed("unexpected %r" % p[i:i + 12])
                    if glued and not m.group()[0] in "+-":
                        raise Malformed("two numbers run together")
                    out.append(("num", Rat.c(Fraction(m.group()))))
                    i = m.end()
                    glued = True
        elif p[0] == "v":
            if glued:
                raise Malformed("two numbers run together")
            v, conv, spec = p[1], p[2], p[3]
            if isinstance(spec, str) and spec and not exact_spec(spec):
                raise Malformed("coordinate printed with format %r, which is not exact" % spec)
            if not isinstance(v, Num):
                raise Malformed("%r where a number is required" % (v,))
            out.append(("num", v.r))
            glued = True
        else:
            raise Unsupported("string part")
    return out


def exact_spec(s):
    m = re.fullmatch(r"\.(\d+)g", s)
    return s in ("r", "") or bool(m and int(m.group(1)) >= 17)


def read(parts):
    """-> [subpath], subpath = {"start": point, "segs": [[points]], "closed": bool}"""
    tk = tokens(parts)
    i = 0
    subs, cur, start, last, ctl = [], None, None, None, None
    cmd = None
    while i < len(tk):
        if tk[i][0] == "cmd":
            cmd = tk[i][1]
            i += 1
            first = True
        else:
            if cmd is None or cmd in "Zz":
                raise Malformed("number without a command")
            first = False
        up, rel = cmd.upper(), cmd.islower()
        n = ARGS[up]
        a = tk[i:i + n]
        if len(a) < n or any(t[0] != "num" for t in a):
            raise Malformed("too few numbers after %s" % cmd)
        a = [t[1] for t in a]
        i += n
        if not first and n == 0:
            raise Malformed("number after Z")
        if cur is None and up != "M":
            raise Malformed("path data does not begin with M")
        ox, oy = cur if (rel and cur is not None) else (ZERO, ZERO)
        if up == "M" and first:
            cur = start = (a[0] + ox, a[1] + oy)
            subs.append({"start": cur, "segs": [], "closed": False})
            last = None
            continue
        if up == "Z":
            subs[-1]["closed"] = True
            cur, last = start, None
            continue
        if subs[-1]["closed"]:
            subs.append({"start": cur, "segs": [], "closed": False})
        if up == "H":
            p = [(a[0] + ox, cur[1])]
        elif up == "V":
            p = [(cur[0], a[0] + oy)]
        else:
            p = [(a[k] + ox, a[k + 1] + oy) for k in range(0, n, 2)]
        if up in "ST":
            kind = "C" if up == "S" else "Q"
            q = ctl if last == kind else cur
            p = [(cur[0] + cur[0] - q[0], cur[1] + cur[1] - q[1])] + p
        subs[-1]["segs"].append([cur] + p)
        last = {1: None, 2: "Q", 3: "C"}[len(p)]
        ctl = p[-2] if len(p) > 1 else None
        cur = p[-1]
    return subs


def differs(c, a, b, g):
    """a point of g at which the two numbers differ, or None"""
    if a == b or (a - b).is_zero() or dom.collapses(g, a, b):
        return None
    if not bdd.feasible(g):
        return None
    for p in c.find(g, (a, b), want=6):
        try:
            x, y = alg.evalf(a, p.env, p.memo), alg.evalf(b, p.env, p.memo)
        except (EvalError, ZeroDivisionError):
            continue
        if abs(x - y) > c.ck.tol * (1 + abs(x) + abs(y)):
            return p
    return None


def pdiff(c, p, q, g):
    for a, b in zip(p, q):
        d = differs(c, a, b, g)
        if d is not None:
            return d
    return None


def sdiff(c, s, e, g):
    if len(s) != len(e):
        ps = c.find(g)
        return (ps[0] if ps else None), bool(ps)
    for p, q in zip(s, e):
        d = pdiff(c, p, q, g)
        if d is not None:
            return d, True
    return None, False


def align(c, key, drawn, want, g):
    """drawn segments are the wanted ones, except that zero-length lines may be missing"""
    j = 0
    for i, e in enumerate(want):
        p = None
        if j < len(drawn):
            p, bad = sdiff(c, drawn[j], e, g)
            if not bad:
                j += 1
                c.ob("normal form")
                continue
        if len(e) == 2 and pdiff(c, e[0], e[1], g) is None:
            c.ob("equal on its guard")
            continue
        ps = [p] if p is not None else c.find(g)
        if ps:
            c.fail(key, "segment %d is not drawn as given" % i, point=ps[0], guard=g, got=repr(drawn[j:j + 1]), want=repr(e))
            return False
        c.ob("no point in guard")
    if j < len(drawn):
        ps = c.find(g)
        if ps:
            c.fail(key, "an extra segment is drawn", point=ps[0], guard=g, got=repr(drawn[j]))
            return False
    return True


def draws(c, key, v, want, closed=None, base=None):
    """the path data string v draws exactly the sub-paths want (lists of segments of points as Rat pairs).
    closed: required closing (True/False), None if either will do"""
    base = AND(c.it.live, c.assume) if base is None else base
    for g, s in strings(c, v, base):
        if not bdd.feasible(g):
            c.ob("guard empty")
            continue
        if not isinstance(s, Str):
            ps = c.find(g)
            if ps:
                c.fail(key, "not a string", got=s, point=ps[0], guard=g)
                return False
            continue
        try:
            subs = read(s.parts)
        except Malformed as e:
            ps = c.find(g)
            if ps:
                c.fail(key, "malformed path data: %s" % e, got=s, point=ps[0], guard=g)
                return False
            continue
        if len(subs) != len(want):
            ps = c.find(g)
            if ps:
                c.fail(key, "%d sub-paths are drawn instead of %d" % (len(subs), len(want)), got=s, point=ps[0], guard=g)
                return False
            continue
        for i, (d, w) in enumerate(zip(subs, want)):
            p = pdiff(c, d["start"], w[0][0], g)
            if p is not None:
                c.fail(key, "sub-path %d starts elsewhere" % i, got=s, point=p, guard=g)
                return False
            if closed is not None and d["closed"] != closed:
                ps = c.find(g)
                if ps:
                    c.fail(key, "sub-path %d is %sclosed" % (i, "" if d["closed"] else "not "), got=s, point=ps[0], guard=g)
                    return False
            if not align(c, key, d["segs"], w, g):
                return False
    return True


def path_data(parts):
    """the d attribute of a path element: parts between the quotes"""
    out, inside, q = [], False, None
    for p in parts:
        if isinstance(p, str):
            s = p
            if not inside:
                m = re.search(r"""\bd\s*=\s*(['"])""", s)
                if not m:
                    continue
                q, s, inside = m.group(1), s[m.end():], True
            if q in s:
                out.append(s[:s.index(q)])
                return Str(tuple(x for x in out if not (isinstance(x, str) and not x)))
            out.append(s)
        elif inside:
            out.append(p)
    raise Malformed("no path data")
