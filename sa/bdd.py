"""Guards: reduced ordered BDDs over sign atoms of canonical polynomials.

For every canonical polynomial q two variables exist, E(q) "q == 0" and, tested
only below E(q)=0, G(q) "q > 0".  Opaque predicates get a single variable.
Emptiness of a conjunction is decided in the polyhedra domain (monomials are
treated as dimensions) by Fourier-Motzkin elimination.
"""
from fractions import Fraction
from math import gcd, isqrt
import mpmath
from . import alg
from .alg import Rat, ATOMS, patoms, pconst, plead, pmul

F, T = 0, 1
_var = [10 ** 9, 10 ** 9]
_hi = [None, None]
_lo = [None, None]
_uniq = {}
VARS = []          # var index -> ('E'|'G', poly) or ('O', key)
_varidx = {}
_ite_cache = {}


def _mk(v, hi, lo):
    if hi == lo:
        return hi
    k = (v, hi, lo)
    n = _uniq.get(k)
    if n is None:
        n = len(_var)
        _var.append(v)
        _hi.append(hi)
        _lo.append(lo)
        _uniq[k] = n
    return n


def ite(f, g, h):
    if f == T:
        return g
    if f == F:
        return h
    if g == h:
        return g
    if g == T and h == F:
        return f
    k = (f, g, h)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    v = min(_var[f], _var[g], _var[h])

    def co(x, b):
        if _var[x] != v:
            return x
        return _hi[x] if b else _lo[x]
    r = _mk(v, ite(co(f, 1), co(g, 1), co(h, 1)), ite(co(f, 0), co(g, 0), co(h, 0)))
    _ite_cache[k] = r
    return r


def AND(*xs):
    r = T
    for x in xs:
        r = ite(r, x, F)
        if r == F:
            return F
    return r


def OR(*xs):
    r = F
    for x in xs:
        r = ite(r, T, x)
        if r == T:
            return T
    return r


def NOT(x):
    return ite(x, F, T)


def XOR(a, b):
    return ite(a, NOT(b), b)


def IMPLIES(a, b):
    return ite(a, b, T) == T


def constrain(f, c):
    """a simple function agreeing with f on c (Coudert-Madre restrict)"""
    if c == T or c == F or f in (F, T):
        return f
    k = (f, c)
    r = _restrict_cache.get(k)
    if r is not None:
        return r
    vf, vc = _var[f], _var[c]
    if vc < vf:
        r = constrain(f, OR(_hi[c], _lo[c]))
    elif vf < vc:
        r = _mk(vf, constrain(_hi[f], c), constrain(_lo[f], c))
    elif _hi[c] == F:
        r = constrain(_lo[f], _lo[c])
    elif _lo[c] == F:
        r = constrain(_hi[f], _hi[c])
    else:
        r = _mk(vf, constrain(_hi[f], _hi[c]), constrain(_lo[f], _lo[c]))
    _restrict_cache[k] = r
    return r


_restrict_cache = {}


def _newvar(desc, key):
    i = _varidx.get(key)
    if i is None:
        i = len(VARS)
        VARS.append(desc)
        _varidx[key] = i
    return i


def opaque(key):
    i = _newvar(("O", key), ("O", key))
    return _mk(i, T, F)


# ---- canonical polynomials

def primitive(p):
    """(canonical poly with integer coprime coefficients and positive leading coefficient, sign)"""
    den = 1
    for c in p.values():
        if type(c) is Fraction:
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = gcd(g, int(c * den))
    lead = p[plead(p)]
    s = 1 if lead > 0 else -1
    q = {m: int(c * den) // g * s for m, c in p.items()}
    return q, s


_factor_cache = {}
SEEN = set()       # canonical polynomials whose sign or zero was asked for


def worth_comparing(r, small=12):
    """could the sign of r already decide a guard?  (small ones are always asked)"""
    if len(r.n) <= small and len(r.d) <= small:
        return True
    return frozenset(primitive(r.n)[0].items()) in SEEN




def _irreducible(q):
    """a cheap sufficient test for q without monomial content: in some variable, of degree one with a single monomial as coefficient, or of
    degree two with constant leading coefficient and without rational root for some values of the others"""
    deg, lead, many = {}, {}, set()
    for m, c in q.items():
        for a, e in m:
            if e > deg.get(a, 0):
                deg[a], lead[a] = e, (c if len(m) == 1 else None)
                many.discard(a)
            elif e == deg[a]:
                lead[a] = None
                many.add(a)
    if any(e == 1 and a not in many for a, e in deg.items()):
        return True
    for a in deg:
        if deg[a] > 2 or lead[a] is None:
            continue
        if deg[a] == 1:
            return True
        for k in (3, 11):
            val = {b: (7 * k + 13 * i * i + 5 * i) % 101 - 50 for i, b in enumerate(sorted(deg))}
            B = C = 0
            for m, c in q.items():
                d = 0
                for b, e in m:
                    if b == a:
                        d = e
                    else:
                        c = c * val[b] ** e
                if d == 1:
                    B += c
                elif d == 0:
                    C += c
            disc = B * B - 4 * lead[a] * C
            if disc < 0 or isqrt(disc) ** 2 != disc:
                return True
        return False
    return False


def factors(p):
    """p -> (sign of constant, [(canonical factor, multiplicity)])"""
    key = frozenset(p.items())
    r = _factor_cache.get(key)
    if r is not None:
        return r
    q, s = primitive(p)
    SEEN.add(frozenset(q.items()))
    # monomial content
    common = None
    for m in q:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    fs = []
    if common:
        q = {tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0)): c for m, c in q.items()}
        for a, e in sorted(common.items()):
            fs.append(({((a, 1),): 1}, e))
    if not (len(q) == 1 and () in q):
        deg = max(sum(e for _, e in m) for m in q)
        if 1 < len(q) <= 80 and deg >= 2 and len(patoms(q)) <= 14 and not _irreducible(q):
            atoms = sorted(patoms(q))
            idx = {a: i for i, a in enumerate(atoms)}
            R = alg._ring(atoms)
            el = alg._to_ring(q, R, idx, len(atoms))
            try:
                if len(q) <= 40 and len(atoms) <= 9:
                    c, lst = el.factor_list()
                else:
                    c, lst = el.sqf_list()
                for f, e in lst:
                    ff, fsgn = primitive(alg._from_ring(f, atoms))
                    if fsgn < 0 and e % 2:
                        s = -s
                    fs.append((ff, e))
                if c < 0:
                    s = -s
            except Exception:
                fs.append((q, 1))
        else:
            fs.append((q, 1))
    r = (s, fs)
    _factor_cache[key] = r
    return r


NONNEG = {}   # canonical poly key -> +1 (known >= 0) or -1 (known <= 0)


def note_nonneg(r):
    """record that Rat r is >= 0 everywhere it is defined"""
    if r.const is not None or r.d != alg.ONE or len(r.n) > 400:
        return
    q, sg = primitive(r.n)
    NONNEG[frozenset(q.items())] = sg


def _poly_sign_fact(q):
    """'+' known > 0, '0+' known >= 0, '-','0-' or None, for canonical q"""
    k = NONNEG.get(frozenset(q.items()))
    if k is not None:
        return "0+" if k > 0 else "0-"
    ok, strict = True, False
    for m, c in q.items():
        mono = True
        pos = True
        for a, e in m:
            A = ATOMS[a]
            if A.pos:
                continue
            pos = False
            if e % 2 and not A.nonneg:
                mono = False
                break
        if not mono or c < 0:
            ok = False
            break
        if pos:
            strict = True
    if ok:
        return "+" if strict else "0+"
    return None


SUMS = {}     # canonical poly key -> (Rat, Rat): a sum of two values that are never negative


def note_sum(r, x, y):
    """record r == x + y with x, y >= 0: zero exactly when both are"""
    note_nonneg(r)
    if r.const is not None or r.d != alg.ONE or len(r.n) > 400 or not (x.d == alg.ONE and y.d == alg.ONE):
        return
    q, sg = primitive(r.n)
    k = frozenset(q.items())
    if sg > 0 and k not in SUMS and k not in _asked:
        SUMS[k] = (x, y)


_asked = set()


def _E(q):
    f = _poly_sign_fact(q)
    if f in ("+", "-"):
        return F
    k = frozenset(q.items())
    s = SUMS.get(k)
    if s is not None:
        return AND(eq0(s[0]), eq0(s[1]))
    _asked.add(k)
    i = _newvar(("E", q), ("E", k))
    _newvar(("G", q), ("G", k))
    return _mk(i, T, F)


def _G(q):
    """literal q > 0 (assuming q != 0 is tested together)"""
    f = _poly_sign_fact(q)
    if f == "+":
        return T
    k = frozenset(q.items())
    if k in SUMS:
        return NOT(_E(q))
    i = _newvar(("E", q), ("E", k))
    j = _newvar(("G", q), ("G", k))
    if f == "0+":
        return _mk(i, F, T)
    if f == "0-":
        return F
    return _mk(i, F, _mk(j, T, F))


_eq_cache = {}
_gt_cache = {}


def eq0(r):
    c = r.const
    if c is not None:
        return T if c == 0 else F
    k = r.key()
    v = _eq_cache.get(k)
    if v is None:
        _, fs = factors(r.n)
        v = OR(*[_E(q) for q, _ in fs])
        _eq_cache[k] = v
    return v


def gt0(r):
    c = r.const
    if c is not None:
        return T if c > 0 else F
    k = r.key()
    v = _gt_cache.get(k)
    if v is not None:
        return v
    s, fs = factors(r.n)
    nz = T
    neg = T if s < 0 else F
    for q, e in fs:
        nz = AND(nz, NOT(_E(q)))
        if e % 2:
            neg = XOR(neg, NOT(_G(q)))
    if r.d != alg.ONE:
        s2, fs2 = factors(r.d)
        if s2 < 0:
            neg = NOT(neg)
        for q, e in fs2:
            if e % 2:
                neg = XOR(neg, NOT(_G(q)))
    v = AND(nz, NOT(neg))
    _gt_cache[k] = v
    return v


# ---- cubes, emptiness

def cubes(b, limit=100000):
    """all paths to T as lists of (var, bool)"""
    out = []
    stack = [(b, ())]
    while stack:
        n, path = stack.pop()
        if n == F:
            continue
        if n == T:
            out.append(path)
            if len(out) >= limit:
                return out
            continue
        stack.append((_lo[n], path + ((_var[n], False),)))
        stack.append((_hi[n], path + ((_var[n], True),)))
    return out


def _mono_facts(m):
    """sign fact of a monomial used as a dimension"""
    for a, e in m:
        if e % 2 and not ATOMS[a].nonneg:
            return False
    return True


def linear_system(path):
    """cube -> (equalities, inequalities [(poly, strict)]) meaning p==0, p>=0/p>0"""
    eqs, ine = [], []
    for v, b in path:
        k, q = VARS[v]
        if k == "E" and b:
            eqs.append(q)
        elif k == "G":
            ine.append((q if b else {m: -c for m, c in q.items()}, True))
    return eqs, ine


def fm_empty(eqs, ine, cap=240):
    """True when the linearised system has no solution (sound: True means really empty)"""
    rows = []
    monos = set()
    for p in eqs:
        monos.update(p)
    for p, _ in ine:
        monos.update(p)
    monos.discard(())
    eqs = [dict(p) for p in eqs]
    ine = [(dict(p), s) for p, s in ine]
    extra = set()
    for m in list(monos):
        if _mono_facts(m):
            ine.append(({m: 1}, all(ATOMS[a].pos for a, _ in m)))
        if len(m) == 1 and m[0][1] == 1:
            A = ATOMS[m[0][0]]
            if A.fn in ("MIN", "MAX"):
                for g, r in A.args:
                    if g == T and r.d == alg.ONE:
                        p = dict(r.n)
                        p[m] = p.get(m, 0) - 1
                        if p[m] == 0:
                            del p[m]
                        if A.fn == "MAX":
                            p = {k: -c for k, c in p.items()}
                        ine.append((p, False))
    # Gaussian elimination of equalities
    while eqs:
        p = eqs.pop()
        vs = [m for m in p if m != ()]
        if not vs:
            if p.get((), 0) != 0:
                return True
            continue
        m0 = vs[0]
        c0 = p[m0]

        def elim(q):
            k = q.get(m0)
            if k is None:
                return q
            return alg.padd(q, p, -Fraction(k) / c0)
        eqs = [elim(q) for q in eqs]
        ine = [(elim(q), s) for q, s in ine]
    rows = [(q, s) for q, s in ine]
    for _ in range(60):
        vs = {}
        nr = []
        for q, s in rows:
            nv = [m for m in q if m != ()]
            if not nv:
                c = q.get((), 0)
                if c < 0 or (s and c == 0):
                    return True
                continue
            nr.append((q, s))
            for m in nv:
                t = vs.setdefault(m, [0, 0])
                t[0 if q[m] > 0 else 1] += 1
        rows = nr
        if not rows:
            return False
        m0 = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        if vs[m0][0] * vs[m0][1] + len(rows) > cap:
            return False
        pos = [(q, s) for q, s in rows if q.get(m0, 0) > 0]
        neg = [(q, s) for q, s in rows if q.get(m0, 0) < 0]
        rows = [(q, s) for q, s in rows if m0 not in q]
        for q1, s1 in pos:
            for q2, s2 in neg:
                k = Fraction(q1[m0]) / -q2[m0]
                rows.append((alg.padd(q1, q2, k), s1 or s2))
    return False


_feas_cache = {}
_cube_cache = {}


def cube_feasible(path):
    r = _cube_cache.get(path)
    if r is None:
        eqs, ine = linear_system(path)
        r = True
        if len(eqs) + len(ine) >= 1:
            r = not fm_empty(eqs, ine)
        _cube_cache[path] = r
    return r


def feasible(b, limit=64):
    if b == F:
        return False
    if b == T:
        return True
    r = _feas_cache.get(b)
    if r is None:
        cs = cubes(b, limit + 1)
        if len(cs) > limit:
            r = True
        else:
            r = any(cube_feasible(c) for c in cs)
        _feas_cache[b] = r
    return r


def implied_literals(b):
    """variables with the same value on every path of b: {var: bool}"""
    memo = {}

    def go(n):
        # returns dict of forced literals or None if unsatisfiable
        if n == F:
            return None
        if n == T:
            return {}
        if n in memo:
            return memo[n]
        h, l = go(_hi[n]), go(_lo[n])
        v = _var[n]
        if h is None:
            r = dict(l)
            r[v] = False
        elif l is None:
            r = dict(h)
            r[v] = True
        else:
            r = {k: x for k, x in h.items() if l.get(k) == x}
        memo[n] = r
        return r
    return go(b) or {}


def support(b):
    seen, out = set(), set()
    st = [b]
    while st:
        n = st.pop()
        if n in (F, T) or n in seen:
            continue
        seen.add(n)
        out.add(_var[n])
        st += [_hi[n], _lo[n]]
    return out


OPAQUE_EVAL = [None]


def evalb(b, env, memo):
    """truth of guard b at a numeric point"""
    while b not in (F, T):
        k, q = VARS[_var[b]]
        if k == "O":
            key = ("O", _var[b])
            v = memo.get(key)
            if v is None:
                v = OPAQUE_EVAL[0](q, env, memo) if OPAQUE_EVAL[0] else None
                if v is None:
                    v = env.get(("O", q))
                if v is None:
                    v = alg._h01("O", q, memo.get("salt")) < 0.5
                memo[key] = v
        else:
            key = ("S", _var[b] if k == "E" else _var[b] - 1)
            x = memo.get(key)
            if x is None:
                x = alg.evalp(q, env, memo)
                # scale-aware zero test
                sc = mpmath.mpf(0)
                for m, c in q.items():
                    t = mpmath.mpf(abs(c))
                    for a, e in m:
                        t *= abs(alg.eval_atom(a, env, memo)) ** e
                    sc += t
                if abs(x) <= sc * mpmath.mpf(10) ** -38:
                    x = mpmath.mpf(0)
                elif abs(x) <= sc * mpmath.mpf(10) ** -18:
                    raise alg.EvalError("too close to zero to tell")
                memo[key] = x
            v = (x == 0) if k == "E" else (x > 0)
        b = _hi[b] if v else _lo[b]
    return b == T


def show(b, limit=4):
    if b == T:
        return "always"
    if b == F:
        return "never"
    out = []
    cs = cubes(b, limit + 1)
    for c in cs[:limit]:
        parts = []
        es = {v: x for v, x in c}
        for v, x in c:
            k, q = VARS[v]
            if k == "O":
                parts.append(("" if x else "not ") + str(q)[:80])
            elif k == "E":
                if x:
                    parts.append(alg.show_poly(q) + " == 0")
                elif v + 1 not in es:
                    parts.append(alg.show_poly(q) + " != 0")
            else:
                parts.append(alg.show_poly(q) + (" > 0" if x else " < 0"))
        out.append(" and ".join(parts))
    if len(cs) > limit:
        out.append("...")
    return " or ".join("(%s)" % o for o in out) if len(out) > 1 else out[0]
