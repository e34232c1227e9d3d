"""Concrete points of a guard.

The analysis never runs the analysed code; a reported violation is justified by
a point of the *derived* value graph: an assignment of the symbols that lies in
the guard and on which the derived value and the required value differ.
"""
import random
import time
from fractions import Fraction
import mpmath
from . import alg, bdd
from .alg import Rat, ATOMS, EvalError
from .bdd import F, T, VARS
from .dom import Num, Choice, Tup, Str, Cplx, BoolV, alts, Ref

mpmath.mp.dps = 50
TINY = mpmath.mpf(10) ** -38


def syms_of_rat(r, acc, seen, consts=None):
    for p in (r.n, r.d):
        for m, c in p.items():
            if consts is not None and m == ():
                consts.add(abs(Fraction(c)))
            for a, _ in m:
                syms_of_atom(a, acc, seen, consts)


def syms_of_atom(a, acc, seen, consts=None):
    if a in seen:
        return
    seen.add(a)
    A = ATOMS[a]
    if A.fn == "sym":
        acc.add(a)
        return
    for x in A.args:
        if isinstance(x, tuple) and len(x) == 2:
            if isinstance(x[0], int):
                syms_of_guard(x[0], acc, seen, consts)
            x = x[1]
        if isinstance(x, Rat):
            syms_of_rat(x, acc, seen, consts)


def syms_of_guard(g, acc, seen, consts=None):
    if g in (F, T) or ("g", g) in seen:
        return
    seen.add(("g", g))
    for v in bdd.support(g):
        if ("v", v) in seen:
            continue
        seen.add(("v", v))
        k, q = VARS[v]
        if k != "O":
            for m, c in q.items():
                if consts is not None and m == ():
                    consts.add(abs(Fraction(c)))
                for a, _ in m:
                    syms_of_atom(a, acc, seen, consts)


class Hints:
    """ranges and pools of preferred values for symbols, by atom id"""

    def __init__(self):
        self.range = {}

    def set(self, v, lo, hi):
        a = v.r.single_atom() if isinstance(v, Num) else v
        self.range[a] = (Fraction(lo), Fraction(hi))


def rnd_value(rng, a, hints, consts, style):
    h = hints.range.get(a) if hints else None
    if h is not None:
        lo, hi = h
        k = rng.random()
        if k < 0.08:
            return mpmath.mpf(lo.numerator) / lo.denominator
        if k < 0.16:
            return mpmath.mpf(hi.numerator) / hi.denominator
        f = lo + (hi - lo) * Fraction(rng.randint(1, 63), 64)
        return mpmath.mpf(f.numerator) / f.denominator
    A = ATOMS[a]
    k = rng.random()
    if style == "consts" and consts and k < 0.5:
        c = rng.choice(consts)
        c = c * rng.choice((1, 1, 1, 2, Fraction(1, 2))) + rng.choice((0, 0, 1, -1, Fraction(1, 3)))
        v = mpmath.mpf(c.numerator) / c.denominator
        if rng.random() < 0.5:
            v = -v
    elif style == "unit":
        v = mpmath.mpf(rng.randint(-16, 32)) / 16
    elif style == "int":
        v = mpmath.mpf(rng.randint(-5, 5))
    elif style == "wide":
        v = mpmath.mpf(rng.randint(-9999, 9999)) * mpmath.mpf(10) ** rng.choice((-5, -3, -1, 0, 2, 4, 7))
    else:
        v = mpmath.mpf(rng.randint(-4000, 4000)) / rng.choice((8, 16, 100))
    if A.integer:
        v = mpmath.floor(v)
    if A.pos or A.nonneg:
        v = abs(v)
        if A.pos and v == 0:
            v = mpmath.mpf(1)
    return v


def poly_val(p, env, memo):
    return alg.evalp(p, env, memo)


def scale_of(p, env, memo):
    sc = mpmath.mpf(0)
    for m, c in p.items():
        t = mpmath.mpf(abs(c)) if isinstance(c, int) else abs(mpmath.mpf(c.numerator) / c.denominator)
        for a, e in m:
            t *= abs(alg.eval_atom(a, env, memo)) ** e
        sc += t
    return sc


_psyms = {}


def poly_syms(p):
    k = frozenset(p.items())
    r = _psyms.get(k)
    if r is None:
        acc = set()
        syms_of_rat(Rat(p, alg.ONE), acc, set())
        r = _psyms[k] = sorted(acc)
    return r


def uni_coeffs(p, s, env):
    """coefficients of p as polynomial in symbol s when s occurs only at top level"""
    memo = {}
    out = {}
    for m, c in p.items():
        t = mpmath.mpf(c) if isinstance(c, int) else mpmath.mpf(c.numerator) / c.denominator
        k = 0
        for a, e in m:
            if a == s:
                k = e
            else:
                from .dom import occurs_in
                if occurs_in(s, a):
                    return None
                t *= alg.eval_atom(a, env, memo) ** e
        out[k] = out.get(k, mpmath.mpf(0)) + t
    return out


def solve_uni(p, s, env, rng):
    """a value of s with p == 0"""
    try:
        co = uni_coeffs(p, s, env)
    except EvalError:
        co = None
    if co is not None:
        d = max((k for k, c in co.items() if abs(c) > TINY), default=0)
        if d == 0:
            return None
        if d == 1:
            return -co.get(0, mpmath.mpf(0)) / co[1]
        if d == 2:
            a, b, c = co[2], co.get(1, mpmath.mpf(0)), co.get(0, mpmath.mpf(0))
            D = b * b - 4 * a * c
            if D < 0:
                if D > -TINY * (b * b + abs(4 * a * c)):
                    D = mpmath.mpf(0)
                else:
                    return None
            return (-b + rng.choice((1, -1)) * mpmath.sqrt(D)) / (2 * a)
        try:
            rs = mpmath.polyroots([co.get(k, mpmath.mpf(0)) for k in range(d, -1, -1)], maxsteps=200, extraprec=200)
        except Exception:
            return None
        rs = [mpmath.re(x) for x in rs if abs(mpmath.im(x)) < mpmath.mpf(10) ** -30 * (1 + abs(x))]
        return rng.choice(rs) if rs else None
    # numeric bracketing

    def f(x):
        e = dict(env)
        e[s] = x
        return poly_val(p, e, {})
    x0 = env[s]
    pts = [x0]
    for k in range(12):
        pts.append(x0 + (rng.random() - 0.5) * 10 ** rng.choice((-1, 0, 1, 2)))
    vals = []
    for x in pts:
        try:
            vals.append((mpmath.mpf(x), f(mpmath.mpf(x))))
        except EvalError:
            pass
    vals.sort()
    br = [(a, b) for a, b in zip(vals, vals[1:]) if a[1] * b[1] <= 0]
    if not br:
        return None
    (a, fa), (b, fb) = rng.choice(br)
    for _ in range(170):
        m = (a + b) / 2
        try:
            fm = f(m)
        except EvalError:
            return None
        if fm == 0:
            return m
        if fa * fm < 0:
            b, fb = m, fm
        else:
            a, fa = m, fm
    return (a + b) / 2


def random_cube(g, rng):
    path = []
    n = g
    while n not in (F, T):
        v, h, l = bdd._var[n], bdd._hi[n], bdd._lo[n]
        if h == F:
            b = False
        elif l == F:
            b = True
        else:
            k = VARS[v][0]
            b = rng.random() < (0.25 if k == "E" else 0.5)
        path.append((v, b))
        n = h if b else l
    return path if n == T else None


def repair(path, env, rng, hints, passes=14):
    eqs, ine = [], []
    for v, b in path:
        k, q = VARS[v]
        if k == "E" and b:
            eqs.append(q)
        elif k == "G":
            ine.append(q if b else {m: -c for m, c in q.items()})
        elif k == "E":
            ine.append(None)
    ine = [q for q in ine if q is not None]
    owned = {}
    for ps in range(passes):
        bad = False
        for qi, q in enumerate(eqs):
            memo = {}
            try:
                x = poly_val(q, env, memo)
                if abs(x) <= TINY * scale_of(q, env, memo):
                    continue
            except EvalError:
                pass
            bad = True
            ss = [s for s in poly_syms(q) if owned.get(s, qi) == qi and not ATOMS[s].integer]
            if not ss:
                return False
            rng.shuffle(ss)
            ss.sort(key=lambda s: (owned.get(s) != qi, hints is not None and s in hints.range))
            for s in ss:
                v = solve_uni(q, s, env, rng)
                if v is not None and not ((ATOMS[s].nonneg or ATOMS[s].pos) and v < 0):
                    env[s] = v
                    owned[s] = qi
                    break
            else:
                return False
        for q in ine:
            try:
                x = poly_val(q, env, {})
                if x > 0:
                    continue
            except EvalError:
                pass
            bad = True
            ss = [s for s in poly_syms(q) if s not in owned]
            if not ss:
                continue
            s = rng.choice(ss)
            # move s so that q = positive margin
            marg = Rat.c(Fraction(rng.randint(1, 400), rng.choice((1, 16, 200, 100000))))
            tgt = (Rat(q, alg.ONE) - marg)
            if tgt.const is not None:
                continue
            v = solve_uni(tgt.n, s, env, rng)
            if v is None:
                v = rnd_value(rng, s, hints, None, rng.choice(("unit", "int", "mid", "wide")))
            h = hints.range.get(s) if hints else None
            if h is not None and not (float(h[0]) <= v <= float(h[1])):
                continue
            if ATOMS[s].integer:
                v = mpmath.ceil(v)
            if (ATOMS[s].nonneg and v < 0) or (ATOMS[s].pos and v <= 0):
                continue
            env[s] = v
        if not bad:
            return True
    return False


class Point:
    def __init__(self, env, memo):
        self.env, self.memo = env, memo

    def show(self, limit=30):
        out = {}
        for a, v in sorted(self.env.items()):
            A = ATOMS[a]
            x = float(v)
            out[str(A.args[0])] = int(x) if x == int(x) and abs(x) < 1e15 else x
        return out


STYLES = ("unit", "int", "mid", "consts", "wide")


def points(g, extra=(), hints=None, want=6, seed=1, budget=1.5, consts=()):
    """yield up to `want` points satisfying guard g; extra: Rats whose symbols must be assigned"""
    acc, seen, cs = set(), set(), set(consts)
    syms_of_guard(g, acc, seen, cs)
    for r in extra:
        syms_of_rat(r, acc, seen, cs)
    cs = sorted(c for c in cs if c not in (0,) and c < 10 ** 20)
    syms = sorted(acc)
    rng = random.Random(seed * 7919 + len(syms))
    t0 = time.time()
    n = 0
    tries = 0
    while n < want and time.time() - t0 < budget and tries < 400:
        tries += 1
        style = STYLES[tries % len(STYLES)]
        env = {a: rnd_value(rng, a, hints, cs, style) for a in syms}
        memo = {"salt": rng.randint(0, 10 ** 6)}
        try:
            ok = g == T or bdd.evalb(g, env, memo)
        except (EvalError, ZeroDivisionError):
            ok = False
        if not ok:
            path = random_cube(g, rng)
            if path is None:
                continue
            try:
                if not repair(path, env, rng, hints):
                    if rng.random() < 0.5:
                        continue
                memo = {"salt": rng.randint(0, 10 ** 6)}
                for v, b in path:
                    if VARS[v][0] == "O":
                        memo[("O", v)] = b
                ok = bdd.evalb(g, env, memo)
            except (EvalError, ZeroDivisionError, OverflowError, ValueError):
                ok = False
        if ok:
            n += 1
            yield Point(env, memo)
