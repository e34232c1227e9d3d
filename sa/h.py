"""Helpers shared by the checks: symbolic inputs, shapes, small reference formulas."""
import ast
import os
from fractions import Fraction
from . import alg, bdd, dom, interp
from .alg import Rat, ZERO, RONE, PI
from .bdd import AND, OR, NOT, XOR, F, T
from .dom import *
from .interp import ListObj, DictObj, Inst, Dead, Unsupported, Func, Bound, Builtin, IterObj
from .check import Checker, Case, REPO


def lst(items):
    return Ref(ListObj([[T, x] for x in items]))


def P(name):
    return Tup([sym("x" + name), sym("y" + name)])


def pts(n, pre=""):
    return [P("%s%d" % (pre, i)) for i in range(n)]


def flag(name):
    return BoolV(bdd.opaque(("in", name)))


def r(v):
    """Rat of a number value"""
    if isinstance(v, Num):
        return v.r
    if isinstance(v, Rat):
        return v
    if isinstance(v, (int, Fraction)):
        return Rat.c(v)
    raise Unsupported("number expected, got %r" % (v,))


def N(x):
    return x if isinstance(x, dom.Leaf) or isinstance(x, Choice) else Num(x if isinstance(x, Rat) else Rat.c(x), "real")


def pt(x, y):
    return Tup([N(x), N(y)])


def xy(p):
    return r(p.items[0]), r(p.items[1])


def mn(*xs):
    return mk_lattice("MIN", [(T, x) for x in xs])


def mx(*xs):
    return mk_lattice("MAX", [(T, x) for x in xs])


def AVG(a, b):
    return (a + b) / Rat.c(2)


def lerp(a, b, t):
    return a + (b - a) * t


def sqrt(x):
    return mk_sqrt(x)


def hyp(x, y):
    bdd.note_nonneg(x * x)
    bdd.note_nonneg(y * y)
    bdd.note_sum(x * x + y * y, x * x, y * y)
    return mk_sqrt(x * x + y * y)


_lits = {}


def literals(*files):
    """integer literals occurring in the given source files: shape thresholds worth crossing"""
    out = set()
    for f in files:
        p = os.path.join(REPO, "PathLib", f)
        if p not in _lits:
            s = set()
            for n in ast.walk(interp.parse_file(p)):
                if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                    s.add(abs(n.value))
            _lits[p] = s
        out |= _lits[p]
    return out


def literals_in(files, names):
    """integer literals occurring inside the named functions (and whatever they call by name in these files)"""
    out, todo, seen = set(), set(names), set()
    defs = {}
    for f in files:
        for n in ast.walk(interp.parse_file(os.path.join(REPO, "PathLib", f))):
            if isinstance(n, (ast.FunctionDef,)):
                defs.setdefault(n.name, []).append(n)
    while todo:
        nm = todo.pop()
        if nm in seen:
            continue
        seen.add(nm)
        for d in defs.get(nm, ()):
            for n in ast.walk(d):
                if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                    out.add(abs(n.value))
                elif isinstance(n, ast.Attribute) and n.attr in defs:
                    todo.add(n.attr)
                elif isinstance(n, ast.Name) and n.id in defs:
                    todo.add(n.id)
    return out


def sizes(base, lits, cap=14):
    s = set(base)
    for k in lits:
        for j in (k - 1, k, k + 1):
            if 0 <= j <= cap:
                s.add(j)
    return sorted(s)


def large(lits, cap, hi=140):
    """the literals beyond the sizes tried symbolically, and one more: shapes of these sizes are tried with numbers"""
    return sorted({j for k in lits if cap < k + 1 and k <= hi for j in (k, k + 1) if j > cap})


def numbers(n, seed=1):
    """n different points with small coordinates in no particular order"""
    out, a = [], seed
    for i in range(n):
        a = (a * 1103515245 + 12345) % 2 ** 31
        out.append((Fraction(a // 65536 % 997, 4) - 100 + i * 1000, Fraction(a // 7 % 983, 2) - 170))
    return out


def number_pts(n, seed=1):
    return [Tup([num(a), num(b)]) for a, b in numbers(n, seed)]


def number_chain(n, orders=(1, 2, 3, 1, 1, 2), seed=1, closed=False):
    """n connected segments with numbers for coordinates"""
    ks = [orders[i % len(orders)] for i in range(n)]
    ps, out, at = number_pts(sum(ks) + 1, seed), [], 0
    for k in ks:
        out.append(ps[at:at + k + 1])
        at += k
    if closed:
        out[-1] = out[-1][:-1] + [ps[0]]
    return out


def protect(v, label, seen=None):
    """mark every mutable object reachable from v: writes to it are recorded"""
    seen = seen if seen is not None else set()
    for _, x in alts(v):
        if isinstance(x, Tup):
            for y in x.items:
                protect(y, label, seen)
        elif isinstance(x, Ref):
            o = x.o
            if id(o) in seen:
                continue
            seen.add(id(o))
            o.protected = label
            if isinstance(o, (ListObj, IterObj)):
                for _, y in o.ents:
                    protect(y, label, seen)
            elif isinstance(o, DictObj):
                for e in o.ents.values():
                    protect(e[2], label, seen)
            elif isinstance(o, Inst):
                for y in o.attrs.values():
                    protect(y, label, seen)
    return v


def unmutated(c, key="argument unchanged"):
    """no write to a protected object under a guard that has a point"""
    ok = True
    for w in c.it.writes:
        g, o, what, site = w[0], w[1], w[2], w[3]
        ps = c.find(AND(g, c.assume))
        if ps:
            c.fail(key, "%s is modified (%s) at %s" % (o.protected, what, site), point=ps[0], guard=g, where=site)
            ok = False
            break
    c.it.writes = []
    if ok:
        c.ob("normal form")
    return ok


def snapshot(v, depth=0):
    """immutable picture of a value"""
    if isinstance(v, Choice):
        return Choice(tuple((g, snapshot(x, depth)) for g, x in v.alts))
    if isinstance(v, Tup):
        return Tup([snapshot(x, depth + 1) for x in v.items], v.cls)
    if isinstance(v, Ref) and isinstance(v.o, ListObj):
        n = ListObj([[g, snapshot(x, depth + 1)] for g, x in v.o.ents], v.o.kind)
        return Ref(n)
    return v
