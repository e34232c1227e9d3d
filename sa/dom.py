"""Abstract values.

A value is a leaf, or a `Choice` of leaves under mutually exclusive guards
(the gating function of gated SSA).  Numbers are canonical rationals over
interned atoms; joins of numbers are recognised as lattice minima / maxima and
collapse when the joined forms agree on the joining condition.
"""
from fractions import Fraction
from math import gcd, isqrt
import mpmath
from . import alg, bdd
from .alg import Rat, ATOMS, atom, PI, ZERO, RONE
from .bdd import AND, OR, NOT, F, T


# ------------------------------------------------------------------ leaves

class Leaf:
    __slots__ = ()

    def key(self):
        return id(self)


class Num(Leaf):
    __slots__ = ("r", "kind")

    def __init__(self, r, kind="float"):
        self.r, self.kind = r, kind

    def key(self):
        return ("N", self.r, "dec" if self.kind == "dec" else "n")

    def __repr__(self):
        return alg.show(self.r)


class InfV(Leaf):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def key(self):
        return ("I", self.s)

    def __repr__(self):
        return "inf" if self.s > 0 else "-inf"


class NanV(Leaf):
    __slots__ = ()

    def key(self):
        return "NaN"

    def __repr__(self):
        return "nan"


class BoolV(Leaf):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def key(self):
        return ("B", self.b)

    def __repr__(self):
        return "True" if self.b == T else "False" if self.b == F else "bool(%s)" % bdd.show(self.b)


class NoneT(Leaf):
    __slots__ = ()

    def key(self):
        return "None"

    def __repr__(self):
        return "None"


class Str(Leaf):
    """parts: str | ('v', value, conv, spec) | ('ch', ((guard, Str), ...))"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    @property
    def const(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def key(self):
        return ("S", tuple(p if isinstance(p, str) else _pkey(p) for p in self.parts))

    def __repr__(self):
        out = ""
        for p in self.parts:
            if isinstance(p, str):
                out += p
            elif p[0] == "v":
                out += "{%r}" % (p[1],)
            else:
                out += "{" + "|".join(repr(s) for _, s in p[1]) + "}"
        return "'" + out + "'"


def _pkey(p):
    if p[0] == "v":
        return ("v", vkey(p[1]), p[2], p[3])
    return ("ch", tuple((g, s.key()) for g, s in p[1]))


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return Str(tuple(out))


class Tup(Leaf):
    __slots__ = ("items", "cls")

    def __init__(self, items, cls=None):
        self.items, self.cls = tuple(items), cls

    def key(self):
        return ("T", tuple(vkey(x) for x in self.items), self.cls)

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class Cplx(Leaf):
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def key(self):
        return ("C", self.re, self.im)

    def __repr__(self):
        return "complex(%r, %r)" % (self.re, self.im)


class Ref(Leaf):
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def key(self):
        return ("R", id(self.o))

    def __repr__(self):
        return repr(self.o)


class Top(Leaf):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def key(self):
        return "Top"

    def __repr__(self):
        return "?<%s>" % self.why


class Unbound(Leaf):
    __slots__ = ()

    def key(self):
        return "Unbound"

    def __repr__(self):
        return "unbound"


class TypeV(Leaf):
    """builtin / opaque type object"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ("TY", self.name)

    def __repr__(self):
        return "<type %s>" % self.name


NONE, NAN, UNBOUND = NoneT(), NanV(), Unbound()
INF, NINF = InfV(1), InfV(-1)
TRUE, FALSE = BoolV(T), BoolV(F)


def num(x, kind=None):
    if kind is None:
        kind = "int" if isinstance(x, int) else "float"
    return Num(Rat.c(x), kind)


def sym(name, kind="real", **props):
    return Num(alg.sym(name, **props), kind)


def string(s):
    return Str((s,) if s else ())


def boolv(b):
    return TRUE if b == T else FALSE if b == F else BoolV(b)


# ------------------------------------------------------------------ choices

class Choice:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "{" + "; ".join("%r if %s" % (v, bdd.show(g)) for g, v in self.alts) + "}"


def vkey(v):
    if isinstance(v, Choice):
        return ("CH", frozenset((g, x.key()) for g, x in v.alts))
    return v.key()


def alts(v):
    return v.alts if isinstance(v, Choice) else ((T, v),)


def same(a, b):
    return a is b or vkey(a) == vkey(b)


def prune(v, live):
    """drop alternatives that cannot occur under live"""
    if not isinstance(v, Choice):
        return v
    keep = [(g, x) for g, x in v.alts if AND(g, live) != F]
    if len(keep) > 1:
        k2 = [(g, x) for g, x in keep if bdd.feasible(AND(g, live))]
        if k2:
            keep = k2
    if not keep:
        return v.alts[0][1]
    if len(keep) == 1:
        return keep[0][1]
    if len(keep) == len(v.alts):
        return v
    return Choice(tuple(keep))


def merge(pairs):
    """[(guard, value)] with exclusive guards -> value"""
    flat = []
    for g, v in pairs:
        if g == F:
            continue
        for g2, x in alts(v):
            gg = g if g2 == T else AND(g, g2)
            if gg != F:
                flat.append((gg, x))
    if not flat:
        return UNBOUND
    if len(flat) == 1:
        return flat[0][1]
    groups = {}
    order = []
    for g, x in flat:
        if isinstance(x, BoolV):
            k = "B"
        elif isinstance(x, Tup):
            k = ("T", len(x.items), x.cls)
        else:
            k = x.key()
        if k in groups:
            groups[k].append((g, x))
        else:
            groups[k] = [(g, x)]
            order.append(k)
    out = []
    for k in order:
        mem = groups[k]
        if len(mem) == 1:
            out.append(mem[0])
            continue
        g = OR(*[m[0] for m in mem])
        x0 = mem[0][1]
        if k == "B":
            out.append((g, boolv(OR(*[AND(m[0], m[1].b) for m in mem]))))
        elif isinstance(k, tuple) and k[0] == "T":
            items = [merge([(m[0], m[1].items[i]) for m in mem]) for i in range(len(x0.items))]
            out.append((g, Tup(items, x0.cls)))
        else:
            if isinstance(x0, Num):
                kinds = {m[1].kind for m in mem}
                if len(kinds) > 1:
                    x0 = Num(x0.r, "dec" if "dec" in kinds else "real")
            out.append((g, x0))
    if len(out) == 1:
        return out[0][1]
    nums = [(g, x) for g, x in out if isinstance(x, (Num, InfV)) and getattr(x, "kind", None) != "dec"]
    if len(nums) >= 2:
        out = [(g, x) for g, x in out if not (isinstance(x, (Num, InfV)) and getattr(x, "kind", None) != "dec")]
        out += join_nums(nums)
    if len(out) == 1:
        return out[0][1]
    return Choice(tuple(out))


def ite(g, a, b):
    if g == T:
        return a
    if g == F:
        return b
    if a is b:
        return a
    ng = NOT(g)
    return merge([(g, a), (ng, b)])


def join_nums(ns):
    """merge alternatives that are MIN / MAX of each other or agree on their equality region"""
    ns = list(ns)
    changed = True
    while changed and len(ns) > 1 and len(ns) <= 12:
        changed = False
        for i in range(len(ns)):
            for j in range(i + 1, len(ns)):
                m = join2(ns[i], ns[j])
                if m is not None:
                    rest = [x for k, x in enumerate(ns) if k not in (i, j)]
                    ns = rest + [m]
                    changed = True
                    break
            if changed:
                break
    return ns


def _kind2(a, b):
    if a == b:
        return a
    return "real"


def join2(p, q):
    (g, a), (h, b) = p, q
    if isinstance(a, InfV) or isinstance(b, InfV):
        return join_inf(g, a, h, b)
    u = OR(g, h)
    if collapses(g, a.r, b.r):
        return (u, Num(b.r, _kind2(a.kind, b.kind)))
    if collapses(h, b.r, a.r):
        return (u, Num(a.r, _kind2(a.kind, b.kind)))
    # minimum / maximum
    if len(bdd.support(g)) > 40 or not bdd.worth_comparing(b.r - a.r):
        return None
    lt = gt0(b.r - a.r)          # a < b
    gt = gt0(a.r - b.r)
    kind = _kind2(a.kind, b.kind)
    if lt == T or gt == T:
        return None
    if AND(g, gt) == F and AND(h, lt) == F:
        return (u, Num(mk_lattice("MIN", [(T, a.r), (T, b.r)]), kind))
    if AND(g, lt) == F and AND(h, gt) == F:
        return (u, Num(mk_lattice("MAX", [(T, a.r), (T, b.r)]), kind))
    # conditional minimum: a replaces b when present and smaller
    for (g1, x, g2, y) in ((g, a, h, b), (h, b, g, a)):
        for op, c, o in (("MIN", gt0(y.r - x.r), gt0(x.r - y.r)), ("MAX", gt0(x.r - y.r), gt0(y.r - x.r))):
            if c in (T, F):
                continue
            if AND(g1, NOT(c)) == F:
                # presence condition of x inside u
                pres = bdd.constrain(g1, AND(c, u)) if AND(c, u) != F else F
                if AND(u, pres, c) == g1:
                    return (u, Num(mk_lattice(op, [(T, y.r), (pres, x.r)]), kind))
    return None


def join_inf(g, a, h, b):
    # a conditional minimum whose other side is +-inf: keep as alternatives
    return None


_collapse_cache = {}


def collapses(g, a, b):
    """does a == b hold everywhere on g, by substituting equalities implied by g"""
    k = (g, a, b)
    r = _collapse_cache.get(k)
    if r is not None:
        return r
    r = _collapses(g, a, b)
    _collapse_cache[k] = r
    return r


def _collapses(g, a, b):
    if len(bdd.support(g)) > 60:
        return False
    eqs = [bdd.VARS[v][1] for v, x in bdd.implied_literals(g).items() if x and bdd.VARS[v][0] == "E"]
    if not eqs:
        return False
    d = a - b
    if len(d.n) > 3000:
        return False
    try:
        if not in_span(d.n, eqs) and not reduce_by(d, eqs).is_zero():
            return False
        # the formula kept, b, must make sense all over g
        den = Rat(b.d, alg.ONE)
        if den.const is None and AND(g, eq0(den)) != F:
            den = reduce_by(den, eqs)
            if den.const is None and AND(g, eq0(den)) != F:
                return False
        return True
    except ZeroDivisionError:
        return False


def in_span(n, eqs):
    """polynomial n is a combination of the polynomials eqs with constant coefficients"""
    if sum(len(q) for q in eqs) > 2000:
        return False
    rows = []      # (pivot monomial, polynomial with pivot coefficient 1)

    def reduce(q):
        q = dict(q)
        for m, p in rows:
            c = q.get(m)
            if c:
                for k, v in p.items():
                    w = q.get(k, 0) - c * v
                    if w:
                        q[k] = w
                    else:
                        q.pop(k, None)
        return q
    for e in eqs:
        e = reduce(e)
        if e:
            m = max(e)
            c = Fraction(e[m])
            rows.append((m, {k: Fraction(v) / c for k, v in e.items()}))
    return not reduce(n)


def solve_for(q, avoid=()):
    """poly q == 0 -> (symbol atom id, Rat value) for a symbol occurring linearly with a constant
    coefficient (preferred) or a coefficient free of it"""
    best = None
    for m, c in q.items():
        if len(m) == 1 and m[0][1] == 1:
            s = m[0][0]
            if s in avoid:
                continue
            if any(s in dict(mm) for mm in q if mm != m):
                continue
            inner = any(occurs_in(s, a) for mm in q for a, _ in mm if a != s)
            if inner:
                continue
            score = (ATOMS[s].fn == "sym", s)
            if best is None or score > best[0]:
                best = (score, s, m, c)
    if best is None:
        return None
    _, s, m, c = best
    rest = {mm: x for mm, x in q.items() if mm != m}
    return s, Rat.make(alg.pscale(rest, Fraction(-1) / c), alg.ONE) if rest else ZERO


_occ = {}


def occurs_in(s, a):
    k = (s, a)
    r = _occ.get(k)
    if r is None:
        r = False
        if a == s:
            r = True
        else:
            for x in ATOMS[a].args:
                if isinstance(x, tuple) and len(x) == 2:
                    x = x[1]
                if isinstance(x, Rat) and any(occurs_in(s, b) for b in x.atoms()):
                    r = True
                    break
        _occ[k] = r
    return r


def reduce_by(d, eqs):
    eqs = [q for q in eqs]
    for _ in range(len(eqs)):
        if d.is_zero() or not eqs:
            return d
        pick = None
        for q in eqs:
            sv = solve_for(q)
            if sv is not None:
                pick = (q, sv)
                break
        if pick is None:
            return d
        q, (s, val) = pick
        env = {s: val}
        d = alg.subst(d, env)
        ne = []
        for p in eqs:
            if p is q:
                continue
            r = alg.subst(Rat(p, alg.ONE), env)
            if r.const is None:
                ne.append(r.n)
        eqs = ne
    return d


# ------------------------------------------------------------------ MIN / MAX / KTH atoms

def mk_lattice(op, items):
    """items: [(guard, Rat)] -> Rat"""
    d = {}
    order = []

    def add(g, r):
        if g == F:
            return
        a = r.single_atom()
        if a is not None and ATOMS[a].fn == op:
            for g2, r2 in ATOMS[a].args:
                add(AND(g, g2), r2)
            return
        if r in d:
            d[r] = OR(d[r], g)
        else:
            d[r] = g
            order.append(r)
    for g, r in items:
        add(g, r)
    # drop items dominated by an always-present one
    keep = []
    for r in order:
        dom = False
        for s in order:
            if s is r or d[s] != T:
                continue
            df = r - s
            c = df.const
            if c is not None:
                if (op == "MIN" and c > 0) or (op == "MAX" and c < 0):
                    dom = True
                    break
            elif len(df.n) <= 12:
                sg = known_sign(df)
                if (op == "MIN" and sg in ("+", "0+")) or (op == "MAX" and sg in ("-", "0-")):
                    dom = True
                    break
        if not dom:
            keep.append(r)
    if len(keep) == 1:
        return keep[0]
    args = tuple(sorted(((d[r], r) for r in keep), key=lambda t: (str(sorted(t[1].n.items(), key=str)), t[0])))
    props = {}
    if op == "MAX" and any(g == T and known_sign(r) in ("+", "0+") for g, r in args):
        props["nonneg"] = True
    if op == "MIN" and all(known_sign(r) in ("+", "0+") for g, r in args):
        props["nonneg"] = True
    # MAX{x, -x}
    if op == "MAX" and len(args) == 2 and args[0][0] == T and args[1][0] == T and (args[0][1] + args[1][1]).is_zero():
        props["nonneg"] = True
    if all(is_int(r) for _, r in args):
        props["integer"] = True
    return Rat.atom(atom(op, args, **props))


def is_int(r):
    if r.d != alg.ONE:
        return False
    for m, c in r.n.items():
        if type(c) is not int:
            return False
        for a, _ in m:
            if not ATOMS[a].integer:
                return False
    return True


def known_sign(r):
    c = r.const
    if c is not None:
        return "0" if c == 0 else "+" if c > 0 else "-"
    if gt0(r) == T:
        return "+"
    if gt0(-r) == T:
        return "-"
    if gt0(-r) == F:
        return "0+"
    if gt0(r) == F:
        return "0-"
    return None


def kth(k, items):
    """k-th smallest of guarded items"""
    args = (k,) + tuple(items)
    return Rat.atom(atom("KTH", args))


def _rebuild(a, args):
    f = SMART.get(a.fn)
    if f is not None:
        return f(*args)
    return Rat.atom(atom(a.fn, args, nonneg=a.nonneg, pos=a.pos, integer=a.integer))


alg.REBUILD[0] = _rebuild


def _ev_lat(a, env, memo):
    vals = [alg.evalf(r, env, memo) for g, r in a.args if g == T or bdd.evalb(g, env, memo)]
    if not vals:
        raise alg.EvalError("empty min/max")
    return min(vals) if a.fn == "MIN" else max(vals)


def _ev_kth(a, env, memo):
    vals = sorted(alg.evalf(r, env, memo) for g, r in a.args[1:] if g == T or bdd.evalb(g, env, memo))
    if a.args[0] >= len(vals):
        raise alg.EvalError("kth out of range")
    return vals[a.args[0]]


alg.EVAL_FN["MIN"] = alg.EVAL_FN["MAX"] = _ev_lat
alg.EVAL_FN["KTH"] = _ev_kth


# ------------------------------------------------------------------ sign predicates

_gt = {}
_eq = {}


def _find_lattice(r):
    if r.d != alg.ONE:
        return None
    for m, c in r.n.items():
        if len(m) == 1 and m[0][1] == 1:
            A = ATOMS[m[0][0]]
            if A.fn in ("MIN", "MAX") and len(A.args) <= 24:
                if not any(m[0][0] in dict(mm) for mm in r.n if mm != m):
                    return m, c, A
    return None


def gt0(r):
    v = _gt.get(r)
    if v is None:
        v = _gt0(r)
        _gt[r] = v
    return v


def _gt0(r):
    c = r.const
    if c is not None:
        return T if c > 0 else F
    f = _find_lattice(r)
    if f is not None:
        m, c, A = f
        rest = Rat({k: x for k, x in r.n.items() if k != m}, alg.ONE)
        conj = (A.fn == "MIN") == (c > 0)
        acc = T if conj else F
        for g, x in A.args:
            t = gt0(x * Rat.c(c) + rest)
            if conj:
                acc = AND(acc, OR(NOT(g), t))
            else:
                acc = OR(acc, AND(g, t))
        return acc
    sp = _single_scaled(r)
    if sp is not None:
        c, A = sp
        if A.fn == "atan2":
            y, x = A.args
            if c > 0:
                return OR(gt0(y), AND(eq0(y), gt0(-x)))
            return gt0(-y)
        if A.fn in ("sqrt", "cbrt") and c > 0:
            return gt0(A.args[0])
        if A.fn == "sqrt":
            return F
        if A.fn == "cbrt":
            return gt0(-A.args[0])
        if A.fn == "acos":
            return F if c < 0 else NOT(eq0(A.args[0] - 1))
    return bdd.gt0(r)


def _single_scaled(r):
    if len(r.n) == 1 and r.d == alg.ONE:
        (m, c), = r.n.items()
        if len(m) == 1 and m[0][1] == 1:
            return c, ATOMS[m[0][0]]
    return None


def eq0(r):
    v = _eq.get(r)
    if v is None:
        v = _eq0(r)
        _eq[r] = v
    return v


def _eq0(r):
    c = r.const
    if c is not None:
        return T if c == 0 else F
    if _find_lattice(r) is not None:
        return AND(NOT(gt0(r)), NOT(gt0(-r)))
    sp = _single_scaled(r)
    if sp is not None:
        c, A = sp
        if A.fn == "atan2":
            y, x = A.args
            return AND(eq0(y), NOT(gt0(-x)))
        if A.fn in ("sqrt", "cbrt"):
            return eq0(A.args[0])
    return bdd.eq0(r)


def lt(a, b):
    return gt0(b - a)


def le(a, b):
    return NOT(gt0(a - b))


# ------------------------------------------------------------------ smart constructors on Rats

def mk_sqrt(r):
    """square root of a Rat assumed >= 0"""
    c = r.const
    if c is not None:
        c = Fraction(c)
        if c < 0:
            raise ValueError
        p, q = c.numerator, c.denominator
        # sqrt(p/q) = sqrt(p*q)/q, square part extracted
        n = p * q
        s, k = 1, n
        if isqrt(k) ** 2 == k:
            s, k = isqrt(k), 1
        else:
            f = 2
            while f * f <= k and f < 100000:
                while k % (f * f) == 0:
                    k //= f * f
                    s *= f
                f += 1
        if k == 1 or n == 0:
            return Rat.c(Fraction(s if n else 0, q))
        return Rat.atom(atom("sqrt", (Rat.c(k),), pos=True)) * Rat.c(Fraction(s, q))
    if r.d != alg.ONE:
        dd = Rat(r.d, alg.ONE)
        sd = mk_sqrt_poly_square(dd)
        if sd is not None:
            return mk_sqrt(Rat(r.n, alg.ONE)) / mk_abs(sd)
        return mk_sqrt(Rat(r.n, alg.ONE) * dd) / mk_abs(dd)
    sq = mk_sqrt_poly_square(r)
    if sq is not None:
        return mk_abs(sq)
    q, s = bdd.primitive(r.n)
    m0 = alg.plead(q)
    k = Fraction(r.n[m0]) / q[m0]
    if k < 0:
        q = {m: -c for m, c in q.items()}
        k = -k
    # integer content
    n = k.numerator * k.denominator
    sq_part, rest = 1, n
    f = 2
    while f * f <= rest and f < 1000:
        while rest % (f * f) == 0:
            rest //= f * f
            sq_part *= f
        f += 1
    if isqrt(rest) ** 2 == rest:
        sq_part *= isqrt(rest)
        rest = 1
    rad = Rat({m: c * rest for m, c in q.items()}, alg.ONE)
    a = Rat.atom(atom("sqrt", (rad,), nonneg=True))
    return a * Rat.c(Fraction(sq_part, k.denominator))


def mk_sqrt_poly_square(r):
    if r.d != alg.ONE or len(r.n) > 60:
        return None
    if r.const is not None:
        return None
    q, s = bdd.primitive(r.n)
    m0 = alg.plead(q)
    k = Fraction(r.n[m0]) / q[m0]
    if k < 0:
        return None
    if isqrt(k.numerator) ** 2 != k.numerator or isqrt(k.denominator) ** 2 != k.denominator:
        return None
    if any(e % 2 for _, e in m0):
        return None
    sg, fs = bdd.factors(q)
    if sg < 0 or any(e % 2 for _, e in fs):
        return None
    out = Rat.c(Fraction(isqrt(k.numerator), isqrt(k.denominator)))
    for f, e in fs:
        out = out * (Rat(f, alg.ONE) ** (e // 2))
    return out


def mk_abs(r):
    s = known_sign(r)
    if s in ("+", "0+", "0"):
        return r
    if s in ("-", "0-"):
        return -r
    return mk_lattice("MAX", [(T, r), (T, -r)])


def mk_cbrt(r):
    c = r.const
    if c is not None:
        c = Fraction(c)
        for sgn in (1, -1):
            p = c * sgn
            if p >= 0:
                a = round(p.numerator ** (1 / 3))
                b = round(p.denominator ** (1 / 3))
                for aa in (a - 1, a, a + 1):
                    if aa >= 0 and aa ** 3 == p.numerator and b ** 3 == p.denominator:
                        return Rat.c(Fraction(aa, b) * sgn)
    # odd: canonical sign
    if r.n:
        m0 = alg.plead(r.n)
        if r.n[m0] < 0:
            return -mk_cbrt(-r)
    return Rat.atom(atom("cbrt", (r,), nonneg=known_sign(r) in ("+", "0+")))


def _pi_mult(r):
    """(k, rest): r = k*pi + rest"""
    p = PI().single_atom()
    if r.d == alg.ONE and ((p, 1),) in r.n:
        k = r.n[((p, 1),)]
        rest = Rat({m: c for m, c in r.n.items() if m != ((p, 1),)}, alg.ONE)
        return Fraction(k), rest
    return Fraction(0), r


def _half_angle_tables():
    h = Rat.c(Fraction(1, 2))
    s2 = mk_sqrt(Rat.c(2)) * h
    s3 = mk_sqrt(Rat.c(3)) * h
    return {Fraction(0): ZERO, Fraction(1, 6): h, Fraction(1, 4): s2, Fraction(1, 3): s3, Fraction(1, 2): RONE}


_TAB = None


def mk_sin(r):
    global _TAB
    if _TAB is None:
        _TAB = _half_angle_tables()
    k, rest = _pi_mult(r)
    if rest.is_zero():
        k = k % 2
        sg = 1
        if k >= 1:
            k -= 1
            sg = -1
        if k > Fraction(1, 2):
            k = 1 - k
        v = _TAB.get(k)
        if v is not None:
            return v * sg
        return Rat.atom(atom("sin", (PI() * Rat.c(k),))) * sg
    if k != 0 and k.denominator <= 2:
        j = int(k * 2) % 4
        if j == 0:
            return mk_sin(rest)
        if j == 1:
            return mk_cos(rest)
        if j == 2:
            return -mk_sin(rest)
        return -mk_cos(rest)
    if _lead_neg(r):
        return -mk_sin(-r)
    return Rat.atom(atom("sin", (r,)))


def mk_cos(r):
    k, rest = _pi_mult(r)
    if rest.is_zero():
        return mk_sin(r + PI() * Rat.c(Fraction(1, 2)))
    if k != 0 and k.denominator <= 2:
        j = int(k * 2) % 4
        if j == 0:
            return mk_cos(rest)
        if j == 1:
            return -mk_sin(rest)
        if j == 2:
            return -mk_cos(rest)
        return mk_sin(rest)
    if _lead_neg(r):
        return mk_cos(-r)
    return Rat.atom(atom("cos", (r,)))


def _lead_neg(r):
    return bool(r.n) and r.n[alg.plead(r.n)] < 0


def mk_round(x, n=ZERO):
    c = x.const
    k = int(n.const)
    if c is not None:
        f = Fraction(c)
        s = Fraction(10) ** k
        y = f * s
        fl = y.numerator // y.denominator
        d = y - fl
        if d > Fraction(1, 2) or (d == Fraction(1, 2) and fl % 2):
            fl += 1
        return Rat.c(Fraction(fl) / s)
    if k >= 12:
        return x
    if k >= 0 and is_int(x):
        return x
    return Rat.atom(atom("round", (x, n), integer=k <= 0))


def mk_floor(x):
    c = x.const
    if c is not None:
        f = Fraction(c)
        return Rat.c(f.numerator // f.denominator)
    if is_int(x):
        return x
    # integer part of the constant term
    c0 = x.n.get((), 0) if x.d == alg.ONE else 0
    k = Fraction(c0).numerator // Fraction(c0).denominator
    if k:
        return mk_floor(x - k) + k
    return Rat.atom(atom("floor", (x,), integer=True, nonneg=known_sign(x) in ("+", "0+")))


def mk_trunc(x):
    c = x.const
    if c is not None:
        f = Fraction(c)
        q = abs(f.numerator) // f.denominator
        return Rat.c(q if f >= 0 else -q)
    if is_int(x):
        return x
    if known_sign(x) in ("+", "0+"):
        return mk_floor(x)
    return Rat.atom(atom("trunc", (x,), integer=True))


def mk_atan2(y, x):
    if y.is_zero() and x.const is not None:
        return ZERO if x.const >= 0 else PI()
    # canonical positive scaling of both arguments
    if x.is_zero() and y.const is not None:
        return PI() * Rat.c(Fraction(1, 2) if y.const > 0 else Fraction(-1, 2))
    return Rat.atom(atom("atan2", (y, x)))


def mk_acos(x):
    c = x.const
    if c is not None:
        t = {1: 0, 0: Fraction(1, 2), -1: 1, Fraction(1, 2): Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)}
        if c in t:
            return PI() * Rat.c(t[c])
    return Rat.atom(atom("acos", (x,), nonneg=True))


SMART = {
    "sqrt": lambda r: mk_sqrt(r) if (r.const is None or r.const >= 0) else Rat.atom(atom("sqrt", (r,), nonneg=True)),
    "cbrt": mk_cbrt, "sin": mk_sin, "cos": mk_cos, "round": mk_round, "floor": mk_floor, "trunc": mk_trunc,
    "atan2": mk_atan2, "acos": mk_acos,
    "MIN": lambda *a: mk_lattice("MIN", list(a)), "MAX": lambda *a: mk_lattice("MAX", list(a)),
}
