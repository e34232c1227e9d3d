"""Algebraic abstract domain: rational functions over interned atoms.

An atom is an entry symbol or an uninterpreted function applied to canonical
rationals.  `Rat` is kept in a canonical form (coprime numerator/denominator,
monic denominator, square roots rationalised out of denominators), so equality
in the domain is structural equality.
"""
from fractions import Fraction
from functools import lru_cache
import math
import mpmath

mpmath.mp.dps = 50


class Atom:
    __slots__ = ("id", "fn", "args", "nonneg", "pos", "integer", "noteq")

    def __init__(self, id, fn, args, nonneg=False, pos=False, integer=False):
        self.id, self.fn, self.args = id, fn, args
        self.nonneg, self.pos, self.integer = nonneg or pos, pos, integer


ATOMS = []
_INTERN = {}


def atom(fn, args=(), **props):
    key = (fn, args)
    i = _INTERN.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(Atom(i, fn, args, **props))
        _INTERN[key] = i
    else:
        a = ATOMS[i]
        if props.get("pos"):
            a.pos = a.nonneg = True
        if props.get("nonneg"):
            a.nonneg = True
        if props.get("integer"):
            a.integer = True
    return i


# ---- polynomials: dict {monomial: coeff}; monomial = tuple of (atom, exp) sorted by atom id

def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def pscale(p, k):
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()} if k != 0 else {}


def pconst(p):
    """constant value or None"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def patoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def plead(p):
    # a deterministic leading monomial: total degree, then lexicographic
    return max(p, key=lambda m: (sum(e for _, e in m), tuple((-a, e) for a, e in m)))


ONE = {(): 1}

_RADICAL = {"sqrt": 2, "cbrt": 3, "sin": 2}


def _needs_reduce(p):
    for m in p:
        for a, e in m:
            if e >= 2:
                k = _RADICAL.get(ATOMS[a].fn)
                if k is not None and e >= k:
                    return True
    return False


def _reduce(p):
    """Replace s^2 by its radicand etc.; returns a Rat."""
    total = None
    keep = {}
    for m, c in p.items():
        hit = None
        for a, e in m:
            k = _RADICAL.get(ATOMS[a].fn)
            if k is not None and e >= k:
                hit = (a, e, k)
                break
        if hit is None:
            v = keep.get(m, 0) + c
            if v == 0:
                keep.pop(m, None)
            else:
                keep[m] = v
            continue
        a, e, k = hit
        rest = tuple((x, (y if x != a else e % k)) for x, y in m if not (x == a and e % k == 0))
        A = ATOMS[a]
        if A.fn == "sin":
            co = Rat.atom(atom("cos", A.args))
            base = Rat.c(1) - co * co
        else:
            base = A.args[0]
        term = Rat({rest: c}, ONE) * (base ** (e // k))
        total = term if total is None else total + term
    r = Rat(keep, ONE)
    return r if total is None else r + total


_ring_cache = {}


def _ring(atoms):
    key = tuple(atoms)
    r = _ring_cache.get(key)
    if r is None:
        from sympy.polys.rings import PolyRing
        from sympy import QQ
        r = PolyRing(["a%d" % a for a in key], QQ)
        _ring_cache[key] = r
    return r


def _to_ring(p, R, idx, n):
    from sympy import QQ
    d = {}
    for m, c in p.items():
        ev = [0] * n
        for a, e in m:
            ev[idx[a]] = e
        c = Fraction(c)
        d[tuple(ev)] = QQ(c.numerator, c.denominator)
    return R.from_dict(d)


def _from_ring(el, atoms):
    out = {}
    for ev, c in el.items():
        m = tuple((atoms[i], e) for i, e in enumerate(ev) if e)
        out[m] = _norm(Fraction(int(c.numerator), int(c.denominator)))
    return out


def _cancel(n, d):
    """remove the gcd of n and d (d not constant)"""
    # common monomial
    if len(d) == 1:
        (dm, dc), = d.items()
        g = dict(dm)
        for m in n:
            mm = dict(m)
            for a in list(g):
                e = min(g[a], mm.get(a, 0))
                if e:
                    g[a] = e
                else:
                    del g[a]
            if not g:
                break
        if g:
            def strip(m):
                return tuple((a, e - g.get(a, 0)) for a, e in m if e - g.get(a, 0))
            n = {strip(m): c for m, c in n.items()}
            d = {strip(m): c for m, c in d.items()}
        return n, d
    atoms = sorted(patoms(n) | patoms(d))
    if not (patoms(n) & patoms(d)):
        return n, d
    idx = {a: i for i, a in enumerate(atoms)}
    R = _ring(atoms)
    pn, pd = _to_ring(n, R, idx, len(atoms)), _to_ring(d, R, idx, len(atoms))
    _, qn, qd = pn.cofactors(pd)
    return _from_ring(qn, atoms), _from_ring(qd, atoms)


class Rat:
    __slots__ = ("n", "d", "_h", "_key")

    def __init__(self, n, d=ONE):
        # trusted: use make() for anything unreduced
        self.n, self.d = n, d
        self._h = None
        self._key = None

    # constructors
    @staticmethod
    def c(x):
        if isinstance(x, float):
            if math.isinf(x) or math.isnan(x):
                raise ValueError
            x = Fraction(repr(x))
        elif not isinstance(x, (int, Fraction)):
            x = Fraction(x)
        x = _norm(x)
        return Rat({(): x} if x else {}, ONE)

    @staticmethod
    def atom(i):
        return Rat({((i, 1),): 1}, ONE)

    @staticmethod
    def make(n, d):
        if not n:
            return ZERO
        if _needs_reduce(n) or _needs_reduce(d):
            return _reduce(n) / _reduce(d)
        c = pconst(d)
        if c is not None:
            if c == 1:
                return Rat(n, ONE)
            return Rat({m: _norm(Fraction(x) / c) for m, x in n.items()}, ONE)
        # rationalise one square root out of the denominator
        # (denominators with many square roots are left: equality cross-multiplies, zero tests are by the numerator)
        pa = patoms(d)
        for a in pa if sum(ATOMS[a].fn == "sqrt" for a in pa) <= 2 else ():
            if ATOMS[a].fn == "sqrt":
                A, B = {}, {}
                for m, x in d.items():
                    mm = tuple(t for t in m if t[0] != a)
                    if len(mm) != len(m):
                        B[mm] = x
                    else:
                        A[m] = x
                s = {((a, 1),): 1}
                conj = padd(A, pmul(B, s), -1) if A else pmul(B, s)
                nn, dd = pmul(n, conj), pmul(d, conj)
                if _needs_reduce(nn) or _needs_reduce(dd):
                    dr = _reduce(dd)
                    if not dr.n:
                        break   # degenerate (radicand is a square): leave it
                    return _reduce(nn) / dr
                return Rat.make(nn, dd)
        n, d = _cancel(n, d)
        c = pconst(d)
        if c is not None:
            return Rat({m: _norm(Fraction(x) / c) for m, x in n.items()}, ONE)
        lc = d[plead(d)]
        if lc != 1:
            n = {m: _norm(Fraction(x) / lc) for m, x in n.items()}
            d = {m: _norm(Fraction(x) / lc) for m, x in d.items()}
        return Rat(n, d)

    # identity
    def key(self):
        if self._key is None:
            self._key = (frozenset(self.n.items()), frozenset(self.d.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Rat) and self.n == o.n and self.d == o.d

    def __ne__(self, o):
        return not self == o

    # arithmetic
    def _co(o):
        return o if isinstance(o, Rat) else Rat.c(o)

    def __add__(self, o):
        o = Rat._co(o)
        if self.d == o.d:
            if self.d is ONE or self.d == ONE:
                n = padd(self.n, o.n)
                return Rat(n, ONE)
            return Rat.make(padd(self.n, o.n), self.d)
        return Rat.make(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    __radd__ = __add__

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-Rat._co(o))

    def __rsub__(self, o):
        return Rat._co(o) - self

    def __mul__(self, o):
        o = Rat._co(o)
        n = pmul(self.n, o.n)
        if (self.d is ONE or self.d == ONE) and (o.d is ONE or o.d == ONE):
            if _needs_reduce(n):
                return _reduce(n)
            return Rat(n, ONE)
        return Rat.make(n, pmul(self.d, o.d))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Rat._co(o)
        if not o.n:
            raise ZeroDivisionError
        return Rat.make(pmul(self.n, o.d), pmul(self.d, o.n))

    def __rtruediv__(self, o):
        return Rat._co(o) / self

    def __pow__(self, k):
        if k < 0:
            return Rat.c(1) / (self ** (-k))
        r = Rat.c(1)
        b = self
        while k:
            if k & 1:
                r = r * b
            k >>= 1
            if k:
                b = b * b
        return r

    # inspection
    @property
    def const(self):
        """Fraction/int if constant else None"""
        if self.d == ONE or pconst(self.d) is not None:
            return pconst(self.n)
        return None

    def is_zero(self):
        return not self.n

    def atoms(self):
        return patoms(self.n) | patoms(self.d)

    def single_atom(self):
        if len(self.n) == 1 and self.d == ONE:
            (m, c), = self.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __repr__(self):
        return show(self)


ZERO = Rat({}, ONE)
RONE = Rat.c(1)


def sym(name, **props):
    return Rat.atom(atom("sym", (name,), **props))


def PI():
    return Rat.atom(atom("pi", (), pos=True))


# ---- printing

def show_atom(i):
    a = ATOMS[i]
    if a.fn == "sym":
        return a.args[0]
    if a.fn == "pi":
        return "pi"
    if a.fn in ("MIN", "MAX"):
        return a.fn.lower() + "{" + ", ".join(sorted(show(r) if g == 1 else "(%s if c%d)" % (show(r), g) for g, r in a.args)) + "}"
    return a.fn + "(" + ", ".join(show(x) if isinstance(x, Rat) else str(x) for x in a.args) + ")"


def show_poly(p, lim=12):
    if not p:
        return "0"
    out = []
    for k, (m, c) in enumerate(sorted(p.items(), key=lambda t: (len(t[0]), str(t[0])))):
        if k >= lim:
            out.append("+ ...(%d terms)" % len(p))
            break
        s = "*".join(show_atom(a) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s:
            t = _cs(c)
        elif c == 1:
            t = s
        elif c == -1:
            t = "-" + s
        else:
            t = _cs(c) + "*" + s
        out.append(t if k == 0 or t.startswith("-") else "+ " + t)
    return " ".join(out)


def _cs(c):
    c = Fraction(c)
    if c.denominator == 1:
        return str(c.numerator)
    if c.denominator > 10 ** 6:
        return repr(float(c))
    return "%d/%d" % (c.numerator, c.denominator)


def show(r):
    if r.d == ONE:
        return show_poly(r.n)
    return "(%s)/(%s)" % (show_poly(r.n), show_poly(r.d))


# ---- substitution and numeric evaluation

def rebuild_atom(a, args):
    """re-create an atom after its arguments changed: hook overridden by domain.py for smart constructors"""
    return Rat.atom(atom(a.fn, args, nonneg=a.nonneg, pos=a.pos, integer=a.integer))


REBUILD = [rebuild_atom]


def subst(r, env, memo=None):
    """env: {atom id: Rat}"""
    if memo is None:
        memo = {}

    def at(i):
        v = memo.get(i)
        if v is not None:
            return v
        if i in env:
            v = env[i]
        else:
            a = ATOMS[i]
            if a.fn in ("sym", "pi") or not any(isinstance(x, Rat) or isinstance(x, tuple) for x in a.args):
                v = Rat.atom(i)
            else:
                ch = False
                na = []
                for x in a.args:
                    if isinstance(x, Rat):
                        y = subst(x, env, memo)
                        ch |= y is not x
                        na.append(y)
                    elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], Rat):
                        y = subst(x[1], env, memo)
                        ch |= y is not x[1]
                        na.append((x[0], y))
                    else:
                        na.append(x)
                v = REBUILD[0](a, tuple(na)) if ch else Rat.atom(i)
        memo[i] = v
        return v

    need = r.atoms()
    vals = {i: at(i) for i in need}
    if all(vals[i].single_atom() == i for i in need):
        return r

    def poly(p):
        tot = ZERO
        keep = {}
        for m, c in p.items():
            if all(vals[a].single_atom() == a for a, _ in m):
                keep[m] = c
                continue
            t = Rat.c(c)
            for a, e in m:
                t = t * (vals[a] ** e)
            tot = tot + t
        return tot + Rat(keep, ONE)
    n, d = poly(r.n), poly(r.d)
    if d.is_zero():
        raise ZeroDivisionError
    return n / d


class EvalError(Exception):
    pass


def _h01(*key):
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(h[:8], "big") / 2.0 ** 64


EVAL_FN = {}


def evalf(r, env, memo):
    """numeric value (mpf) of r with symbols from env: {atom id: mpf}; memo shared per point"""
    n = evalp(r.n, env, memo)
    if r.d is ONE or r.d == ONE:
        return n
    d = evalp(r.d, env, memo)
    if d == 0:
        raise EvalError("division by zero")
    return n / d


def evalp(p, env, memo):
    tot = mpmath.mpf(0)
    for m, c in p.items():
        t = mpmath.mpf(c) if isinstance(c, int) else mpmath.mpf(c.numerator) / c.denominator
        for a, e in m:
            v = eval_atom(a, env, memo)
            t = t * (v if e == 1 else v ** e)
        tot += t
    return tot


def eval_atom(i, env, memo):
    v = memo.get(i)
    if v is not None:
        return v
    if i in env:
        v = env[i]
    else:
        a = ATOMS[i]
        if a.fn == "pi":
            v = mpmath.pi + 0
        elif a.fn == "sym":
            v = EVAL_FN["sym"](a)
        else:
            f = EVAL_FN.get(a.fn)
            if f is None:
                vals = [evalf(x, env, memo) if isinstance(x, Rat) else x for x in a.args]
                vals = [mpmath.nstr(x, 25) if isinstance(x, mpmath.mpf) else str(x) for x in vals]
                h = _h01(a.fn, tuple(vals))
                v = mpmath.mpf(h * 4 if a.nonneg else h * 8 - 4)
            else:
                v = f(a, env, memo)
        v = mpmath.mpf(v)
    memo[i] = v
    return v


def _arg(k):
    def g(a, env, memo):
        return evalf(a.args[k], env, memo)
    return g


def _sqrt(a, env, memo):
    x = evalf(a.args[0], env, memo)
    if x < 0:
        if x > -mpmath.mpf(10) ** -35:
            return mpmath.mpf(0)
        raise EvalError("sqrt of negative")
    return mpmath.sqrt(x)


def _cbrt(a, env, memo):
    x = evalf(a.args[0], env, memo)
    return -mpmath.cbrt(-x) if x < 0 else mpmath.cbrt(x)


def _acos(a, env, memo):
    x = evalf(a.args[0], env, memo)
    if abs(x) > 1:
        raise EvalError("acos domain")
    return mpmath.acos(x)


def _asin(a, env, memo):
    x = evalf(a.args[0], env, memo)
    if abs(x) > 1:
        raise EvalError("asin domain")
    return mpmath.asin(x)


def _pow(a, env, memo):
    x, y = evalf(a.args[0], env, memo), evalf(a.args[1], env, memo)
    try:
        v = mpmath.power(x, y)
    except Exception:
        raise EvalError("pow")
    if isinstance(v, mpmath.mpc):
        raise EvalError("pow domain")
    return v


def _log(a, env, memo):
    x = evalf(a.args[0], env, memo)
    if x <= 0:
        raise EvalError("log")
    return mpmath.log(x)


def _round(a, env, memo):
    x = evalf(a.args[0], env, memo)
    n = a.args[1] if len(a.args) > 1 else 0
    n = int(n) if not isinstance(n, Rat) else int(n.const)
    s = mpmath.mpf(10) ** n
    y = x * s
    f = mpmath.floor(y)
    d = y - f
    if d > 0.5 or (d == 0.5 and int(f) % 2 == 1):
        f += 1
    return f / s


EVAL_FN.update({
    "sym": lambda a: (_ for _ in ()).throw(EvalError("unbound symbol %s" % (a.args,))),
    "sqrt": _sqrt, "cbrt": _cbrt, "acos": _acos, "asin": _asin, "pow": _pow, "log": _log, "round": _round,
    "sin": lambda a, e, m: mpmath.sin(evalf(a.args[0], e, m)),
    "cos": lambda a, e, m: mpmath.cos(evalf(a.args[0], e, m)),
    "tan": lambda a, e, m: mpmath.tan(evalf(a.args[0], e, m)),
    "atan": lambda a, e, m: mpmath.atan(evalf(a.args[0], e, m)),
    "exp": lambda a, e, m: mpmath.exp(evalf(a.args[0], e, m)),
    "atan2": lambda a, e, m: mpmath.atan2(evalf(a.args[0], e, m), evalf(a.args[1], e, m)),
    "floor": lambda a, e, m: mpmath.floor(evalf(a.args[0], e, m)),
    "trunc": lambda a, e, m: (lambda x: mpmath.floor(x) if x >= 0 else mpmath.ceil(x))(evalf(a.args[0], e, m)),
})
