"""C34-C37: matrix inversion, products, Bernstein basis, least squares curve fitting."""
from math import comb
from ..h import *
from .transform import minimum

CF = "PathLib.CurveFitting."
MI = "PathLib.MatrixInversion.matrixInvert"


def M_(name, rows, cols):
    return [[sym("%s%d%d" % (name, i, j)) for j in range(cols)] for i in range(rows)]


def mv(m):
    return lst([lst([x if not isinstance(x, (int, Fraction)) else num(x) for x in row]) for row in m])


def rr(m):
    return [[r(x) for x in row] for row in m]     # r() takes numbers too


def mul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), ZERO) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(c) for c in zip(*a)]


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    acc = ZERO
    for j in range(n):
        if m[0][j].const is not None and m[0][j].const == 0:
            continue
        t = m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
        acc = acc + t if j % 2 == 0 else acc - t
    return acc


def adj_inverse(m):
    """inverse of a matrix of Rats by cofactors"""
    n = len(m)
    if all(x.const is not None for row in m for x in row):
        a = [[Fraction(x.const) for x in row] + [Fraction(i == j) for j in range(n)] for i, row in enumerate(m)]
        for i in range(n):
            p = next(k for k in range(i, n) if a[k][i] != 0)
            a[i], a[p] = a[p], a[i]
            a[i] = [x / a[i][i] for x in a[i]]
            for k in range(n):
                if k != i and a[k][i] != 0:
                    a[k] = [x - a[k][i] * y for x, y in zip(a[k], a[i])]
        return [[Rat.c(x) for x in row[n:]] for row in a]
    d = det(m)
    if n == 1:
        return [[RONE / d]]
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            mn_ = [rw[:i] + rw[i + 1:] for k, rw in enumerate(m) if k != j]
            x = det(mn_)
            row.append((x if (i + j) % 2 == 0 else -x) / d)
        out.append(row)
    return out


def rank_full(m):
    """whether a matrix of numbers has an inverse, by elimination"""
    a = [[Fraction(x) for x in row] for row in m]
    for i in range(len(a)):
        p = next((k for k in range(i, len(a)) if a[k][i] != 0), None)
        if p is None:
            return False
        a[i], a[p] = a[p], a[i]
        for k in range(i + 1, len(a)):
            f = a[k][i] / a[i][i]
            a[k] = [x - f * y for x, y in zip(a[k], a[i])]
    return True


def vals(m):
    return lst([lst([N(x) for x in row]) for row in m])


def invert_case(c, key, m):
    """inverse exactly where the determinant is not zero, None where it is"""
    R = rr(m)
    n = len(m)
    arg = protect(mv(m), "the matrix")
    res = c.call(MI, arg)
    d = det(R)
    sing = eq0(d)
    isnone = OR(*[g for g, v in alts(prune(res, c.it.live)) if isinstance(v, NoneT)])
    c.true(key + " None iff singular", NOT(XOR(AND(c.it.live, isnone), AND(c.it.live, sing))))
    live = c.it.live
    c.it.live = AND(live, NOT(sing), NOT(isnone))
    if c.it.live != F:
        res = prune(res, c.it.live)
        want = adj_inverse(R)
        c.eq(key + " inverse", res, vals(want))
    c.it.live = live
    c.hazards(key + " completes")
    unmutated(c)


@minimum(30)
def c34(ck):
    """matrixInvert over gated alternatives (one per pivot pattern): fully symbolic 1x1..3x3, structured symbolic 4x4 and 5x5, constant
    matrices, non-square shapes.  The None alternative must be exactly the guard det == 0; every other alternative must equal the
    cofactor inverse as rational normal forms; no write reaches the argument."""
    for n in (1, 2):
        ck.run("symbolic %dx%d" % (n, n), lambda c, n=n: invert_case(c, "M", M_("m", n, n)))

    # every 3x3 matrix falls in one of these shapes (a11 zero or not, which rows below can replace it, second pivot zero or not)
    v = {k: sym(k) for k in "abcdefghi"}
    beta = sym("beta")
    nz = lambda *xs: AND(*[NOT(eq0(r(x))) for x in xs])
    minor2 = r(v["a"]) * r(v["e"]) - r(v["b"]) * r(v["d"])
    ab, db = N(r(v["a"]) * r(beta)), N(r(v["d"]) * r(beta))
    three = [("leading minors not zero", "abcdefghi", {}, AND(nz(v["a"]), NOT(eq0(minor2)))),
             ("second pivot zero", "abcdefghi", {"b": ab, "e": db}, nz(v["a"])),
             ("first exchange with row 2", "abcdefghi", {"a": 0}, nz(v["d"], v["b"])),
             ("first exchange with row 2, second pivot zero", "abcdefghi", {"a": 0, "b": 0}, nz(v["d"])),
             ("first exchange with row 3", "abcdefghi", {"a": 0, "d": 0}, nz(v["g"], v["e"])),
             ("first exchange with row 3, second pivot zero", "abcdefghi", {"a": 0, "d": 0, "e": 0}, nz(v["g"])),
             ("first column zero", "abcdefghi", {"a": 0, "d": 0, "g": 0}, T)]
    for nm, ks, sub, g in three:
        def p3(c, sub=sub, g=g):
            e = [sub.get(k, v[k]) for k in "abcdefghi"]
            c.require(g)
            invert_case(c, "M", [e[:3], e[3:6], e[6:]])
        ck.run("symbolic 3x3, " + nm, p3)
    s = lambda k: sym(k)
    Z = [("upper 4x4", [[s("a"), 1, 2, 3], [0, s("b"), 4, 5], [0, 0, s("d"), 6], [0, 0, 0, s("e")]]),
         ("lower 4x4", [[s("a"), 0, 0, 0], [1, s("b"), 0, 0], [2, 4, s("d"), 0], [3, 5, 6, s("e")]]),
         ("anti-diagonal 4x4", [[0, 0, 0, s("a")], [0, 0, s("b"), 1], [0, s("d"), 2, 3], [s("e"), 4, 5, 6]]),
         ("cyclic 4x4", [[0, s("a"), 0, 0], [0, 0, s("b"), 0], [0, 0, 0, s("d")], [s("e"), 0, 0, 0]]),
         ("one unknown 4x4", [[2, 1, 0, 3], [4, s("a"), 1, 0], [0, 5, 3, 1], [1, 0, 2, 2]]),
         ("late exchange 4x4", [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, s("a"), s("b")], [0, 0, s("d"), s("e")]]),
         ("bordered 5x5", [[0, 1, 0, 0, s("a")], [1, 0, 0, 0, s("b")], [0, 0, 0, 1, 2], [0, 0, 1, 0, 3], [s("d"), 0, 0, 0, 1]]),
         ("cyclic 5x5", [[0, 1, 0, 0, 0], [0, 0, s("a"), 0, 0], [0, 0, 0, 1, 0], [0, 0, 0, 0, s("b")], [1, 0, 0, 0, 0]]),
         ("constants", [[1, 2, 3], [4, 5, 6], [7, 8, 10]]), ("singular constants", [[1, 2, 3], [4, 5, 6], [7, 8, 9]]),
         ("singular late", [[1, 2, 3, 4], [0, 1, 1, 1], [0, 0, 0, 2], [0, 0, 0, 3]]),
         ("zero", [[0, 0], [0, 0]]), ("identity", [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]),
         ("exchange", [[0, 1], [1, 0]]), ("exchange last", [[0, 2, 1], [0, 1, 3], [5, 0, 0]]),
         ("tiny pivots", [[Fraction(1, 10 ** 12), 1], [1, 1]]), ("big", [[10 ** 12, 1], [1, 10 ** -12 if False else Fraction(1, 10 ** 12)]]),
         ("permuted 6x6", [[1 if j == (3 * i + 2) % 7 % 6 else 0 for j in range(6)] for i in range(6)])]
    for nm, m in Z:
        ck.run(nm, lambda c, m=m: invert_case(c, "M", m))

    def nonsquare(c):
        for a, b in [(1, 2), (2, 1), (2, 3), (3, 2), (1, 3), (4, 3)]:
            arg = protect(mv(M_("m", a, b)), "the matrix")
            c.eq("%dx%d" % (a, b), c.call(MI, arg), NONE)
        c.hazards()
        unmutated(c)
    ck.run("non-square", nonsquare)

    def big(c):
        lits = literals_in(["MatrixInversion.py"], ["matrixInvert"])
        for n in sorted({6, 7, 8, 9, 12} | set(large(lits, 5, 30))):
            rows = [[(i * i * 3 + i * j * 7 + j * j * 5 + (i ^ j)) % 13 - 6 for j in range(n)] for i in range(n)]
            holes = [[0 if (i + 2 * j) % 3 == 0 and i <= j else x for j, x in enumerate(rw)] for i, rw in enumerate(rows)]
            late = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
            late[n - 1], late[n - 2] = late[n - 2], late[n - 1]
            far = [[1 if (i + 1) % n == j else 0 for j in range(n)] for i in range(n)]
            sing = [list(rw) for rw in rows]
            sing[n - 1] = [x - y for x, y in zip(rows[0], rows[1])]
            col = [rw[:n - 1] + [rw[0] + rw[1]] for rw in rows]
            for nm, m in (("dense", rows), ("with zeros", holes), ("exchange at the end", late), ("cyclic", far), ("singular", sing), ("dependent columns", col)):
                c.reset()
                arg = protect(mv(m), "the matrix")
                c.eq("%s %dx%d" % (nm, n, n), c.call(MI, arg), vals(adj_inverse(rr(m))) if rank_full(m) else NONE)
                c.hazards()
                unmutated(c)
    ck.run("larger matrices of numbers", big)

    def twice(c):
        m = M_("m", 2, 2)
        R = rr(m)
        c.it.live = NOT(eq0(det(R)))
        res = c.call(MI, mv(m))
        isnone = OR(*[g for g, v in alts(prune(res, c.it.live)) if isinstance(v, NoneT)])
        if AND(c.it.live, isnone) == F:
            back = c.call(MI, prune(res, c.it.live))
            c.eq("inverse of the inverse", back, vals(R))
        c.hazards()
    ck.run("inverse twice", twice)


@minimum(60)
def c35(ck):
    """multiply, transpose, row and col for symbolic entries of every conformable shape up to the size bound: entries are the stated
    sums as normal forms, shapes agree, no write reaches an argument."""
    lits = literals_in(["CurveFitting.py"], ["multiply", "transpose", "row", "col"])
    ns = [n for n in sizes([1, 2, 3, 4], lits, 5) if n >= 1]

    def prod(c):
        for a in ns:
            for k in ns:
                for b in ns:
                    if sorted((a, k, b))[1] > 3 and not ck.thorough:
                        continue
                    A, B_ = M_("a", a, k), M_("b", k, b)
                    pa, pb = protect(mv(A), "the left matrix"), protect(mv(B_), "the right matrix")
                    c.eq("%dx%d * %dx%d" % (a, k, k, b), c.call(CF + "multiply", pa, pb), vals(mul(rr(A), rr(B_))))
        A = M_("a", 2, 2)
        p = protect(mv(A), "the matrix")
        c.eq("square of a matrix", c.call(CF + "multiply", p, p), vals(mul(rr(A), rr(A))))
        Z = [[0, 1], [2, 0]]
        c.eq("zeros and ones", c.call(CF + "multiply", mv(Z), mv(A)), vals(mul([[Rat.c(x) for x in y] for y in Z], rr(A))))
        c.hazards()
        unmutated(c)
    ck.run("products", prod)

    def tp(c):
        for a in ns:
            for b in ns:
                A = M_("a", a, b)
                p = protect(mv(A), "the matrix")
                c.eq("transpose %dx%d" % (a, b), c.call(CF + "transpose", p), vals(tr(rr(A))))
                for i in range(a):
                    c.eq("row %d" % i, c.call(CF + "row", p, num(i)), lst(A[i]))
                for j in range(b):
                    c.eq("col %d" % j, c.call(CF + "col", p, num(j)), lst([A[i][j] for i in range(a)]))
        c.hazards()
        unmutated(c)
    ck.run("transpose, row, col", tp)

    def big(c):
        def grid(a, b, k):
            return [[(i * 7 + j * 13 + i * j * k) % 11 - 5 for j in range(b)] for i in range(a)]
        F_ = lambda m: [[Rat.c(x) for x in y] for y in m]
        for n in large(lits, 5, 60) or [6, 9, 20]:
            for a, b in ((n, 2), (2, n), (n, n) if n <= 12 else (n, 3)):
                A = grid(a, b, 1)
                B_ = grid(b, 3, 2)
                tag = "%dx%d" % (a, b)
                c.eq("transpose " + tag, c.call(CF + "transpose", mv(A)), vals(tr(F_(A))))
                c.eq("product %s * %dx3" % (tag, b), c.call(CF + "multiply", mv(A), mv(B_)), vals(mul(F_(A), F_(B_))))
                for i in (0, a // 2, a - 1):
                    c.eq("row %d of %s" % (i, tag), c.call(CF + "row", mv(A), num(i)), lst([num(x) for x in A[i]]))
                for j in (0, b // 2, b - 1):
                    c.eq("col %d of %s" % (j, tag), c.call(CF + "col", mv(A), num(j)), lst([num(A[i][j]) for i in range(a)]))
            c.hazards()
    ck.run("many rows or columns", big)


def basis(n):
    k = n - 1
    return [[comb(k, c) * comb(k - c, rw - c) * (-1) ** (rw - c) if rw >= c else 0 for c in range(n)] for rw in range(n)]


@minimum(100)
def c36(ck):
    """binomial(n, k) derived for all 0 <= k <= n up to the bound and for several request orders on one table (ascending, descending, one
    far request first, interleaved with basisMatrix); basisMatrix(n) for n up to the bound equals the Bernstein coefficients."""
    top = 26 if ck.thorough else 18

    def seq(order):
        def go(c):
            for n in order:
                for k in range(n + 1):
                    c.eq("binomial(%d,%d)" % (n, k), c.call(CF + "binomial", num(n), num(k)), num(comb(n, k)))
            c.hazards()
        return go
    ck.run("ascending", seq(range(top)))
    ck.run("descending", seq(range(top - 1, -1, -1)))
    ck.run("far first", seq([top + 4, 0, 7, 6, 8, 1, 3, 9, 12, 11, 2, 10, 4, 5, 13]))
    ck.run("repeated", seq([3, 3, 9, 3, 9, 9, 7, 10, 7, 0, 8]))
    lits = literals_in(["CurveFitting.py"], ["binomial"])

    for n in large(lits, top + 4, 90) or [60]:
        ks = sorted({0, 1, 2, n // 3, n // 2, n // 2 + 1, n - n // 3, n - 1, n})
        for at in range(0, len(ks), 2):
            # another number of the row is the first one asked for
            def far(c, n=n, ks=ks[at:] + ks[:at]):
                for k in ks:
                    c.eq("binomial(%d,%d)" % (n, k), c.call(CF + "binomial", num(n), num(k)), num(comb(n, k)))
                c.hazards()
            ck.run("row %d, first %d" % (n, ks[at]), far)

    def mats(c):
        for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 5, 2]:
            c.eq("basisMatrix(%d)" % n, c.call(CF + "basisMatrix", num(n)), vals([[Rat.c(x) for x in y] for y in basis(n)]))
            c.eq("binomial after", c.call(CF + "binomial", num(n), num(n // 2)), num(comb(n, n // 2)))
        c.hazards()
    ck.run("basis matrices", mats)

    def bern(c):
        # sum_r M[r][c] t^r is the Bernstein polynomial
        t = r(sym("t"))
        for n in (2, 3, 4, 5):
            m = c.call(CF + "basisMatrix", num(n))
            rows = [c.it.entries(x) for _, x in c.it.entries(m)]
            for j in range(n):
                acc = ZERO
                for i in range(n):
                    acc = acc + r(rows[i][j][1]) * t ** i
                c.eq("column %d of %d" % (j, n), N(acc), N(t ** j * (RONE - t) ** (n - 1 - j) * comb(n - 1, j)))
        c.hazards()
    ck.run("columns as polynomials", bern)


def fit_want(P, M, S, n):
    """M^-1 (T'T)^-1 T' P with Rats"""
    Tt = [[s ** i for s in S] for i in range(n)]
    T_ = tr(Tt)
    step = mul(adj_inverse(M), mul(adj_inverse(mul(Tt, T_)), Tt))
    return mul(step, [[p[0]] for p in P]), mul(step, [[p[1]] for p in P])


@minimum(60)
def c37(ck):
    """computeTimeValues for symbolic points (cumulative chord lengths over the total, on the guard total > 0; evenly spaced when not
    polygonal); bestFit for symbolic points with symbolic or constant bases and times, square and overdetermined, equals
    M^-1 (T'T)^-1 T' P; fit() returns its points, its own basis and times, and the coefficients for them."""
    lits = literals_in(["CurveFitting.py"], ["computeTimeValues", "bestFit", "fit", "formTMatrix", "raiseRowPower"])
    ns = [n for n in sizes([2, 3, 4, 5], lits, 7) if n >= 2]

    def times(c):
        for n in ns:
            ps = pts(n)
            q = [xy(p) for p in ps]
            d = [hyp(a[0] - b[0], a[1] - b[1]) for a, b in zip(q, q[1:])]
            cum = [ZERO]
            for x in d:
                cum.append(cum[-1] + x)
            c.it.live = OR(*[NOT(AND(eq0(a[0] - b[0]), eq0(a[1] - b[1]))) for a, b in zip(q, q[1:])])
            arg = protect(lst(ps), "the points")
            want = lst([N(x / cum[-1]) for x in cum])
            c.eq("polygonal %d" % n, c.call(CF + "computeTimeValues", arg), want)
            c.eq("polygonal %d, n given" % n, c.call(CF + "computeTimeValues", arg, num(n)), want)
            c.eq("polygonal %d, keywords" % n, c.call(CF + "computeTimeValues", arg, n=num(n), polygonal=TRUE), want)
            c.hazards("completes where the points differ")
            c.it.live = T
            ev = lst([num(Fraction(i, n - 1)) for i in range(n)])
            c.eq("uniform %d" % n, c.call(CF + "computeTimeValues", arg, polygonal=FALSE), ev)
            c.eq("uniform %d, n given" % n, c.call(CF + "computeTimeValues", arg, num(n), FALSE), ev)
            c.hazards()
        unmutated(c)
    ck.run("time values", times)

    def big(c):
        for n in sorted({8, 9} | set(large(lits, 7) or [20])):
            # steps of 3 4 5 triangles: the chord lengths are whole numbers
            ks = [i * i % 5 + (i % 3 == 0) for i in range(1, n)]
            ps, cum = [(0, 0)], [0]
            for i, k in enumerate(ks):
                dx, dy = ((3, 4), (-4, 3), (5, 0), (0, -5), (4, -3))[i % 5]
                ps.append((ps[-1][0] + dx * k, ps[-1][1] + dy * k))
                cum.append(cum[-1] + 5 * k)
            arg = lst([Tup([num(a), num(b)]) for a, b in ps])
            c.eq("polygonal, %d points" % n, c.call(CF + "computeTimeValues", arg), lst([num(Fraction(x, cum[-1])) for x in cum]))
            c.eq("uniform, %d points" % n, c.call(CF + "computeTimeValues", arg, polygonal=FALSE), lst([num(Fraction(i, n - 1)) for i in range(n)]))
            c.hazards()
    ck.run("many points", big)

    def tables(c):
        s = [sym("s%d" % i) for i in range(4)]
        S = [r(x) for x in s]
        a = protect(lst(s), "the times")
        for n in (None, 1, 2, 3, 4, 5):
            res = c.call(CF + "formTMatrix", a, *([num(n)] if n else []))
            m = [[x ** i for x in S] for i in range(n or 4)]
            c.eq("formTMatrix n=%s" % n, res, Tup([vals(m), vals(tr(m))]))
        ps = pts(3)
        for v in (0, 1):
            c.eq("point values column", c.call(CF + "getPointValuesColumn", protect(lst(ps), "the points"), num(v)), vals([[xy(p)[v]] for p in ps]))
        c.eq("dist", c.call(CF + "dist", ps[0], ps[1]), N(hyp(xy(ps[0])[0] - xy(ps[1])[0], xy(ps[0])[1] - xy(ps[1])[1])))
        c.hazards()
        unmutated(c)
    ck.run("time power matrices", tables)

    def bf(n, kn, S, M, nm):
        def go(c):
            ps = pts(n)
            P_ = [xy(p) for p in ps]
            s = S if S else [sym("s%d" % i) for i in range(n)]
            m = M if M else M_("m", kn, kn)
            Sr = [r(x) if isinstance(x, Num) else Rat.c(x) for x in s]
            Mr = [[r(x) if isinstance(x, Num) else Rat.c(x) for x in y] for y in m]
            Tt = [[x ** i for x in Sr] for i in range(kn)]
            c.it.live = AND(NOT(eq0(det(Mr))), *[NOT(eq0(a - b)) for i, a in enumerate(Sr) for b in Sr[:i]])
            if not M and kn > 2:      # C34 covers the exchanges
                c.it.live = AND(c.it.live, NOT(eq0(Mr[0][0])), NOT(eq0(Mr[0][0] * Mr[1][1] - Mr[0][1] * Mr[1][0])))
            args = [protect(lst(ps), "the points"), protect(mv(m), "the basis"), protect(lst([x if isinstance(x, Num) else num(x) for x in s]), "the times")]
            wx, wy = fit_want(P_, Mr, Sr, kn)
            want = Tup([vals(wx), vals(wy)])
            if n == kn:
                c.eq("bestFit", c.call(CF + "bestFit", *args), want)
            c.eq("bestFit, n given", c.call(CF + "bestFit", *(args + [num(kn)])), want)
            c.hazards("completes", base=c.it.live)
            unmutated(c)
        ck.run("best fit " + nm, go)
    fr = Fraction
    bf(2, 2, None, None, "symbolic basis and times, 2 points")
    bf(3, 3, [fr(0), fr(1, 3), fr(1)], None, "symbolic basis, 3 points")
    bf(3, 3, [fr(0), fr(1, 4), fr(1)], basis(3), "Bernstein basis, 3 points")
    bf(4, 4, [fr(0), fr(1, 5), fr(1, 2), fr(1)], basis(4), "Bernstein basis, 4 points")
    bf(5, 5, [fr(0), fr(1, 5), fr(1, 2), fr(3, 5), fr(1)], basis(5), "Bernstein basis, 5 points")
    bf(4, 3, [fr(0), fr(1, 5), fr(1, 2), fr(1)], basis(3), "overdetermined, 4 points for order 2")
    bf(5, 2, [fr(0), fr(1, 5), fr(1, 2), fr(3, 4), fr(1)], basis(2), "overdetermined, 5 points for order 1")
    bf(6, 4, [fr(0), fr(1, 8), fr(1, 3), fr(1, 2), fr(3, 4), fr(1)], basis(4), "overdetermined, 6 points for order 3")

    def fits(c):
        for n in (2, 3, 4, 5, 7, 8, 9):
            ps = pts(n)
            P_ = [xy(p) for p in ps]
            S = [Rat.c(Fraction(i, n - 1)) for i in range(n)]
            arg = protect(lst(ps), "the points")
            wx, wy = fit_want(P_, [[Rat.c(x) for x in y] for y in basis(n)], S, n)
            want = Tup([lst(ps), vals([[Rat.c(x) for x in y] for y in basis(n)]), lst([N(x) for x in S]), Tup([vals(wx), vals(wy)])])
            c.eq("uniform fit of %d points" % n, c.call(CF + "fit", arg, FALSE), want)
            c.eq("uniform fit of %d points, keyword" % n, c.call(CF + "fit", arg, polygonal=FALSE), want)
        for pl in [[(0, 0), (3, 4)], [(0, 0), (3, 4), (3, 9)], [(1, 2), (1, 5), (5, 8), (10, 20)], [(0, 0), (3, 4), (0, 8), (5, 8), (5, 9)]]:
            n = len(pl)
            cum = [ZERO]
            for a, b in zip(pl, pl[1:]):
                cum.append(cum[-1] + hyp(Rat.c(a[0] - b[0]), Rat.c(a[1] - b[1])))
            S = [x / cum[-1] for x in cum]
            wx, wy = fit_want([(Rat.c(a), Rat.c(b)) for a, b in pl], [[Rat.c(x) for x in y] for y in basis(n)], S, n)
            arg = lst([Tup([num(a), num(b)]) for a, b in pl])
            want = Tup([arg, vals([[Rat.c(x) for x in y] for y in basis(n)]), lst([N(x) for x in S]), Tup([vals(wx), vals(wy)])])
            c.eq("polygonal fit of %s" % (pl,), c.call(CF + "fit", arg), want)
        c.hazards()
        unmutated(c)
    ck.run("fits", fits)
