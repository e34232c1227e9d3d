"""Models of the Python builtins and standard modules used by the analysed code."""
import ast
import os
from fractions import Fraction
from . import alg, bdd, dom
from .alg import Rat, ZERO, RONE, PI, atom, ATOMS
from .bdd import AND, OR, NOT, F, T
from .dom import *
from . import interp as I

Ref_, ListObj, DictObj, IterObj, Inst = Ref, I.ListObj, I.DictObj, I.IterObj, I.Inst


# ------------------------------------------------------------------ exceptions

def _mk_exc():
    exc = {}

    def d(name, *bases):
        exc[name] = I.Cls(name, [exc[b] for b in bases], {}, name)
    OBJECT = I.Cls("object", [], {}, "object")
    exc["object"] = OBJECT
    d("BaseException", "object")
    for n, b in [("Exception", "BaseException"), ("ArithmeticError", "Exception"), ("ZeroDivisionError", "ArithmeticError"),
                 ("OverflowError", "ArithmeticError"), ("FloatingPointError", "ArithmeticError"), ("ValueError", "Exception"),
                 ("TypeError", "Exception"), ("LookupError", "Exception"), ("IndexError", "LookupError"),
                 ("KeyError", "LookupError"), ("AttributeError", "Exception"), ("RuntimeError", "Exception"),
                 ("NotImplementedError", "RuntimeError"), ("RecursionError", "RuntimeError"), ("StopIteration", "Exception"),
                 ("AssertionError", "Exception"), ("NameError", "Exception"), ("UnboundLocalError", "NameError"),
                 ("ImportError", "Exception"), ("ModuleNotFoundError", "ImportError"), ("OSError", "Exception"),
                 ("KeyboardInterrupt", "BaseException"), ("SystemExit", "BaseException"), ("Warning", "Exception"),
                 ("DeprecationWarning", "Warning"), ("UserWarning", "Warning"), ("GeneratorExit", "BaseException"),
                 ("MemoryError", "Exception"), ("BufferError", "Exception"), ("UnicodeError", "ValueError"),
                 ("DecimalException", "ArithmeticError"), ("InvalidOperation", "DecimalException")]:
        d(n, b)
    return exc


EXC = _mk_exc()
OBJECT = EXC.pop("object")


class RangeV(Leaf):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c     # Num values, c const int

    def key(self):
        return ("range", self.a.r, self.b.r, self.c)

    def __repr__(self):
        return "range(%r, %r, %r)" % (self.a, self.b, self.c)


class CtxV(Leaf):
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


MAXRANGE = 24


def _ci(it, v):
    """constant integer of a Num or None"""
    if isinstance(v, Num):
        c = v.r.const
        if c is not None and Fraction(c).denominator == 1:
            return int(c)
    if isinstance(v, BoolV) and v.b in (T, F):
        return 1 if v.b == T else 0
    return None


def range_entries(it, v):
    a, b = _ci(it, v.a), _ci(it, v.b)
    if a is not None and b is not None:
        r = range(a, b, v.c)
        if len(r) > 20000:
            raise I.Unsupported("very long range")
        return [(T, num(i)) for i in r]
    if a is not None:
        out = []
        for k in range(MAXRANGE):
            i = a + k * v.c
            g = gt0(v.b.r - i) if v.c > 0 else gt0(Rat.c(i) - v.b.r)
            out.append((g, num(i)))
        it.tops.append((AND(it.live, gt0(v.b.r - (a + MAXRANGE * v.c))), "symbolic range", it.where()))
        return out
    raise I.Unsupported("range with symbolic start")


def range_item(it, v, i):
    a, b, k = _ci(it, v.a), _ci(it, v.b), it.const_index(i)
    if a is None or b is None or k is None:
        raise I.Unsupported("symbolic range index")
    r = range(a, b, v.c)
    if not -len(r) <= k < len(r):
        it.raise_(T, "IndexError", "range index")
    return num(r[k])


# ------------------------------------------------------------------ arithmetic

def _k2(a, b):
    if a == b:
        return a
    if "dec" in (a, b):
        return "dec"
    if "float" in (a, b):
        return "float"
    return "real"


def _isnn(r):
    q, s = bdd.primitive(r.n) if r.n else ({}, 1)
    return known_sign(r) in ("+", "0+", "0")


def num_binop(it, op, a, b):
    x, y = a.r, b.r
    ka, kb = a.kind, b.kind
    if (ka == "dec") != (kb == "dec"):
        other = kb if ka == "dec" else ka
        if other in ("float", "real"):
            it.raise_(T, "TypeError", "unsupported operand types: Decimal and float")
    if it.decimal_op is not None and "dec" in (ka, kb):
        it.decimal_op(it)
    t = type(op)
    if t is ast.Add:
        r = x + y
        if x.const is None and y.const is None and len(r.n) > 1 and r.d == alg.ONE and _isnn(x) and _isnn(y):
            bdd.note_sum(r, x, y)
        return Num(r, _k2(ka, kb))
    if t is ast.Sub:
        return Num(x - y, _k2(ka, kb))
    if t is ast.Mult:
        r = x * y
        if x == y and x.const is None and len(x.n) > 1 and r.d == alg.ONE:
            bdd.note_nonneg(r)
        return Num(r, _k2(ka, kb))
    if t is ast.Div:
        it.raise_(eq0(y), "ZeroDivisionError" if ka != "dec" else "ZeroDivisionError", "division by zero")
        k = _k2(ka, kb)
        return Num(x / y, "float" if k in ("int", "real") else k)
    if t is ast.FloorDiv or t is ast.Mod:
        it.raise_(eq0(y), "ZeroDivisionError", "integer division by zero")
        q = mk_floor(x / y)
        if t is ast.FloorDiv:
            return Num(q, _k2(ka, kb))
        return Num(x - q * y, _k2(ka, kb))
    if t is ast.Pow:
        return num_pow(it, a, b)
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift):
        ca, cb = _ci(it, a), _ci(it, b)
        if ca is not None and cb is not None:
            f = {ast.BitAnd: lambda: ca & cb, ast.BitOr: lambda: ca | cb, ast.BitXor: lambda: ca ^ cb,
                 ast.LShift: lambda: ca << cb, ast.RShift: lambda: ca >> cb}[t]
            return num(f())
        if t is ast.BitAnd and cb == 1:
            return Num(x - mk_floor(x * Rat.c(Fraction(1, 2))) * 2, "int")
        if t is ast.LShift and cb is not None:
            return Num(x * (2 ** cb), "int")
        if t is ast.RShift and cb is not None:
            return Num(mk_floor(x * Rat.c(Fraction(1, 2 ** cb))), "int")
        return it.top("bit operation")
    raise I.Unsupported("operator %s" % t.__name__)


def num_pow(it, a, b, func=False):
    x, y = a.r, b.r
    c = y.const
    k = _k2(a.kind, b.kind)
    if func:
        k = "float"
    if c is None:
        if x.const is not None and x.const == 1:
            return Num(RONE, k)
        it.raise_(NOT(OR(gt0(x), eq0(x))), "ValueError", "pow domain")
        return Num(Rat.atom(atom("pow", (x, y), nonneg=True)), k)
    c = Fraction(c)
    if c.denominator == 1:
        e = int(c)
        if e < 0:
            it.raise_(eq0(x), "ValueError" if func else "ZeroDivisionError", "0 to a negative power")
            return Num(x ** e, "float" if k != "dec" else k)
        r = x ** e
        if e and e % 2 == 0 and x.const is None and len(x.n) > 1 and r.d == alg.ONE:
            bdd.note_nonneg(r)
        return Num(r, k)
    if c.denominator == 2:
        neg = gt0(-x)
        if func:
            it.raise_(neg, "ValueError", "math domain error")
        elif neg != F and AND(it.live, neg) != F:
            L = it.live
            it.live = AND(L, NOT(neg))
            if it.live == F:
                it.live = L
                return it.top("complex power")
            v = Num(sqrt_of(x) ** c.numerator, "float")
            it.live = L
            return merge([(NOT(neg), v), (neg, Top("complex power"))])
        return Num(sqrt_of(x) ** c.numerator, k if k == "dec" else "float")
    if c.denominator == 3:
        neg = gt0(-x)
        if func:
            it.raise_(neg, "ValueError", "math domain error")
            return Num(mk_cbrt(x) ** c.numerator, "float")
        if AND(it.live, neg) != F and bdd.feasible(AND(it.live, neg)):
            return merge([(NOT(neg), Num(mk_cbrt(x) ** c.numerator, "float")), (neg, Top("complex power"))])
        return Num(mk_cbrt(x) ** c.numerator, "float")
    it.raise_(gt0(-x), "ValueError", "math domain error")
    return Num(Rat.atom(atom("pow", (x, y), nonneg=True)), "float")


def sqrt_of(x):
    c = x.const
    if c is not None and c < 0:
        return ZERO
    return mk_sqrt(x)


def _tonum(v):
    if isinstance(v, BoolV):
        return v
    return v


def binop(it, op, a, b, inplace):
    t = type(op)
    if isinstance(a, BoolV) and isinstance(b, BoolV) and t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        f = {ast.BitAnd: AND, ast.BitOr: OR, ast.BitXor: bdd.XOR}[t]
        return boolv(f(a.b, b.b))
    if isinstance(a, BoolV) and isinstance(b, (BoolV, Num, InfV, Cplx)):
        return it.binop(op, ite(a.b, num(1), num(0)), b)
    if isinstance(b, BoolV) and isinstance(a, (Num, InfV, Cplx)):
        return it.binop(op, a, ite(b.b, num(1), num(0)))
    if isinstance(a, Top) or isinstance(b, Top):
        return it.top("arithmetic on unknown: " + (a.why if isinstance(a, Top) else b.why))
    if isinstance(a, NanV) or isinstance(b, NanV):
        if isinstance(a, (Num, NanV, InfV)) and isinstance(b, (Num, NanV, InfV)):
            return NAN
    if isinstance(a, InfV) or isinstance(b, InfV):
        return inf_binop(it, t, a, b)
    if isinstance(a, Cplx) or isinstance(b, Cplx):
        return cplx_binop(it, t, a, b)
    if isinstance(a, Str) and t is ast.Add and isinstance(b, Str):
        return mkstr(a.parts + b.parts)
    if isinstance(a, Str) and t is ast.Mult or isinstance(b, Str) and t is ast.Mult:
        s, n = (a, b) if isinstance(a, Str) else (b, a)
        k = _ci(it, n)
        if k is not None:
            return mkstr(s.parts * max(k, 0))
    if isinstance(a, Str) and t is ast.Mod:
        return percent_format(it, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and t is ast.Add:
        return Tup(a.items + b.items)
    if t is ast.Add and isseq(a) and isseq(b):
        ka, kb = seqkind(a), seqkind(b)
        if ka != kb:
            it.raise_(T, "TypeError", "can only concatenate %s to %s" % (kb, ka))
        if inplace and ka == "list":
            list_extend(it, a.o, b)
            return a
        ents = it.entries(a) + it.entries(b)
        if ka == "tuple":
            return it.tuple_of(ents)
        return Ref(ListObj([[g, x] for g, x in ents], ka))
    if t is ast.Mult and (isseq(a) or isseq(b)):
        s, n = (a, b) if isseq(a) else (b, a)
        k = _ci(it, n)
        if k is None:
            raise I.Unsupported("sequence repetition by symbolic count")
        ents = it.entries(s) * max(k, 0)
        if seqkind(s) == "tuple":
            return it.tuple_of(ents)
        return Ref(ListObj([[g, x] for g, x in ents], "list"))
    for x, y, pre in ((a, b, "__"), (b, a, "__r")):
        if isinstance(x, Ref) and isinstance(x.o, Inst):
            nm = OPNAMES.get(t)
            c, m = x.o.cls.lookup(pre + nm + "__")
            if m is not None:
                return it.call(it.bind(m, x, x.o.cls), [y], {})
    if isinstance(a, Ref) and isinstance(a.o, ListObj) and a.o.kind == "set" and isinstance(b, Ref) and isinstance(b.o, ListObj):
        if t is ast.BitOr:
            return make_set(it, it.entries(a) + it.entries(b))
        if t in (ast.BitAnd, ast.Sub):
            out = []
            for g, x in it.entries(a):
                c = it.contains(x, b)
                out.append((AND(g, c if t is ast.BitAnd else NOT(c)), x))
            return make_set(it, out)
    if isinstance(a, Ref) and isinstance(a.o, DictObj) and isinstance(b, Ref) and isinstance(b.o, DictObj) and t is ast.BitOr:
        d = DictObj({k: list(e) for k, e in a.o.ents.items()})
        for k, e in b.o.ents.items():
            if k in d.ents:
                d.ents[k] = [OR(e[0], d.ents[k][0]), e[1], ite(e[0], e[2], d.ents[k][2])]
            else:
                d.ents[k] = list(e)
        return Ref(d)
    if isinstance(a, (TypeV, I.Cls, NoneT)) and t is ast.BitOr:
        if isinstance(b, (TypeV, I.Cls, NoneT, Str)):
            return Tup([x for p in (a, b) for x in (p.items if isinstance(p, Tup) else (p,))])
    if isinstance(a, Tup) and t is ast.BitOr and isinstance(b, (TypeV, I.Cls, NoneT)):
        return Tup(a.items + (b,))
    if isinstance(a, I.Opaque) or isinstance(b, I.Opaque):
        return I.Opaque("expr")
    it.raise_(T, "TypeError", "unsupported operand types for %s: %r and %r" % (t.__name__, a, b))


OPNAMES = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
           ast.Pow: "pow", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.MatMult: "matmul",
           ast.LShift: "lshift", ast.RShift: "rshift"}


def isseq(v):
    return isinstance(v, Tup) or (isinstance(v, Ref) and isinstance(v.o, ListObj) and v.o.kind in ("list", "tuple", "deque"))


def seqkind(v):
    return "tuple" if isinstance(v, Tup) else v.o.kind


def inf_binop(it, t, a, b):
    def sgn(v):
        return v.s if isinstance(v, InfV) else None
    if not isinstance(a, (Num, InfV)) or not isinstance(b, (Num, InfV)):
        it.raise_(T, "TypeError", "unsupported operand types")
    if t in (ast.Add, ast.Sub):
        sa, sb = sgn(a), sgn(b)
        if sb is not None and t is ast.Sub:
            sb = -sb
        if sa is not None and sb is not None:
            return InfV(sa) if sa == sb else NAN
        return InfV(sa if sa is not None else sb)
    if t in (ast.Mult,):
        i, o = (a, b) if isinstance(a, InfV) else (b, a)
        if isinstance(o, InfV):
            return InfV(i.s * o.s)
        p, z = gt0(o.r), eq0(o.r)
        return merge([(p, InfV(i.s)), (z, NAN), (AND(NOT(p), NOT(z)), InfV(-i.s))])
    if t is ast.Div:
        if isinstance(b, InfV):
            return NAN if isinstance(a, InfV) else num(0.0)
        it.raise_(eq0(b.r), "ZeroDivisionError", "division by zero")
        p = gt0(b.r)
        return merge([(p, InfV(a.s)), (NOT(p), InfV(-a.s))])
    return it.top("arithmetic on infinity")


def cplx_binop(it, t, a, b):
    def parts(v):
        if isinstance(v, Cplx):
            return v.re, v.im
        if isinstance(v, Num):
            return v, num(0)
        it.raise_(T, "TypeError", "unsupported operand types")
    ar, ai = parts(a)
    br, bi = parts(b)
    o = it.binop
    if t in (ast.Add, ast.Sub):
        return Cplx(o(t(), ar, br), o(t(), ai, bi))
    M, A, S, D = ast.Mult(), ast.Add(), ast.Sub(), ast.Div()
    if t is ast.Mult:
        return Cplx(o(S, o(M, ar, br), o(M, ai, bi)), o(A, o(M, ar, bi), o(M, ai, br)))
    if t is ast.Div:
        n = o(A, o(M, br, br), o(M, bi, bi))
        re = o(A, o(M, ar, br), o(M, ai, bi))
        im = o(S, o(M, ai, br), o(M, ar, bi))
        return Cplx(o(D, re, n), o(D, im, n))
    return it.top("complex operation")


def unop(it, op, v):
    if isinstance(v, Choice):
        return it.lift(lambda x: unop(it, op, x), v)
    if isinstance(v, BoolV):
        v = ite(v.b, num(1), num(0))
        return unop(it, op, v) if isinstance(v, Choice) else unop(it, op, v)
    if isinstance(op, ast.USub):
        if isinstance(v, Num):
            return Num(-v.r, v.kind)
        if isinstance(v, InfV):
            return InfV(-v.s)
        if isinstance(v, NanV):
            return v
        if isinstance(v, Cplx):
            return Cplx(unop(it, op, v.re), unop(it, op, v.im))
    if isinstance(op, ast.UAdd) and isinstance(v, (Num, InfV, NanV, Cplx)):
        return v
    if isinstance(op, ast.Invert) and _ci(it, v) is not None:
        return num(~_ci(it, v))
    if isinstance(v, Top):
        return it.top("arithmetic on unknown: " + v.why)
    if isinstance(v, I.Opaque):
        return v
    if isinstance(v, Ref) and isinstance(v.o, Inst):
        nm = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(op)]
        c, m = v.o.cls.lookup(nm)
        if m is not None:
            return it.call(it.bind(m, v, v.o.cls), [], {})
    it.raise_(T, "TypeError", "bad operand type for unary operator: %r" % (v,))


# ------------------------------------------------------------------ strings

def str_equal(it, a, b):
    """guard under which two abstract strings are equal"""
    pa, pb = [p for p in a.parts], [p for p in b.parts]
    if any(not isinstance(p, str) and p[0] == "ch" for p in pa + pb):
        acc = F
        for g, x in expand_str(a, it.live):
            for h, y in expand_str(b, it.live):
                gg = AND(g, h)
                if gg != F:
                    acc = OR(acc, AND(gg, str_equal2(it, x, y)))
        return acc
    return str_equal2(it, a, b)


def str_equal2(it, a, b):
    if a.key() == b.key():
        return T
    if a.const is not None and b.const is not None:
        return F
    syms = [p for p in a.parts + b.parts if not isinstance(p, str) and p[0] == "sym"]
    if syms:
        if len(a.parts) == 1 and len(b.parts) == 1 and (a.const is not None or b.const is not None):
            s = syms[0]
            c = a.const if a.const is not None else b.const
            low = s[2].get("lower") if isinstance(s[2], dict) else None
            pr = dict(s[3])
            if pr.get("fresh"):
                return F
            if pr.get("lower") is not None and c.lower() != pr["lower"]:
                return F
        return bdd.opaque(("streq", a.key(), b.key()))
    if len(a.parts) == len(b.parts) and all(
            (isinstance(x, str) and x == y) or (not isinstance(x, str) and not isinstance(y, str)) for x, y in zip(a.parts, b.parts)):
        acc = T
        for x, y in zip(a.parts, b.parts):
            if not isinstance(x, str):
                acc = AND(acc, it.equal(x[1], y[1]))
        return acc
    if a.const == "" or b.const == "":
        return F
    return bdd.opaque(("streq", a.key(), b.key()))


def expand_str(s, live, limit=4000):
    """Str -> [(guard, Str without choices)]"""
    out = [(T, ())]
    for p in s.parts:
        if not isinstance(p, str) and p[0] == "ch":
            no = []
            for g, acc in out:
                for h, x in p[1]:
                    gg = AND(g, h)
                    if gg == F or AND(gg, live) == F:
                        continue
                    for k, y in expand_str(x, live):
                        g3 = AND(gg, k)
                        if g3 != F and AND(g3, live) != F:
                            no.append((g3, acc + y.parts))
            out = no
            if len(out) > 40:
                out = [(g, x) for g, x in out if bdd.feasible(AND(g, live))]
            if len(out) > limit:
                raise I.Unsupported("too many string alternatives")
        else:
            out = [(g, acc + (p,)) for g, acc in out]
    return [(g, mkstr(acc)) for g, acc in out]


def format_parts(it, v, conv, spec):
    """parts of str(v)"""
    if isinstance(v, Choice):
        v = prune(v, it.live)
    if isinstance(v, Str) and conv in (-1, 115):
        if not spec:
            return list(v.parts)
        if v.const is not None and spec != "?":
            return [format(v.const, spec)]
        return [("v", v, conv, spec)]
    if isinstance(v, Choice):
        if all(isinstance(x, (Num, InfV, NanV)) for _, x in v.alts):
            return [("v", v, conv, spec)]
        al = []
        for g, x in v.alts:
            al.append((g, mkstr(format_parts(it, x, conv, spec))))
        return [("ch", tuple(al))]
    if isinstance(v, Num):
        c = v.r.const
        if c is not None and v.kind == "int" and not spec:
            return [str(int(c))]
        return [("v", v, conv, spec)]
    if isinstance(v, BoolV):
        if v.b in (T, F):
            return ["True" if v.b == T else "False"]
        return [("ch", ((v.b, string("True")), (NOT(v.b), string("False"))))]
    if isinstance(v, NoneT):
        return ["None"]
    if isinstance(v, Str):
        if v.const is not None:
            return [repr(v.const)]
        return ["'"] + list(v.parts) + ["'"]
    if isinstance(v, Tup) and (v.cls is None or not v.cls.lookup("__str__")[1]):
        out = ["("]
        for i, x in enumerate(v.items):
            if i:
                out.append(", ")
            out.extend(format_parts(it, x, 114, ""))
        out.append(",)" if len(v.items) == 1 else ")")
        return out
    if isinstance(v, Ref) and isinstance(v.o, ListObj):
        e = it.entries(v)
        if all(g == T for g, _ in e):
            o, c = {"list": "[]", "tuple": "()", "set": "{}"}.get(v.o.kind, "[]")
            out = [o]
            for i, (_, x) in enumerate(e):
                if i:
                    out.append(", ")
                out.extend(format_parts(it, x, 114, ""))
            return out + [c]
        return [("v", v, conv, spec)]
    if isinstance(v, Ref) and isinstance(v.o, Inst):
        for nm in (("__str__", "__repr__") if conv in (-1, 115) else ("__repr__",)):
            c, m = v.o.cls.lookup(nm)
            if m is not None:
                r = it.call(it.bind(m, v, v.o.cls), [], {})
                if isinstance(r, Str):
                    return list(r.parts)
                if isinstance(r, Choice):
                    return [("ch", tuple((g, x) for g, x in r.alts))]
        if any(c.name == "BaseException" for c in v.o.cls.mro):
            a = v.o.attrs.get("args")
            if isinstance(a, Tup) and len(a.items) == 1:
                return format_parts(it, a.items[0], -1, "")
        return [("v", v, conv, spec)]
    return [("v", v, conv, spec)]


def to_str(it, v):
    if isinstance(v, Str):
        return v
    return mkstr(format_parts(it, v, -1, ""))


def percent_format(it, s, v):
    if s.const is None:
        raise I.Unsupported("% formatting of an abstract string")
    import re
    args = list(v.items) if isinstance(v, Tup) else [v]
    parts = []
    pos = 0
    i = 0
    for m in re.finditer(r"%(%|[-+ #0]*\d*(?:\.\d+)?([sdrfgi]))", s.const):
        parts.append(s.const[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            parts.append("%")
            continue
        spec = m.group(1)
        if spec in ("s", "d", "i"):
            parts.extend(format_parts(it, args[i], -1, ""))
        elif spec == "r":
            parts.extend(format_parts(it, args[i], 114, ""))
        else:
            parts.append(("v", args[i], -1, "%" + spec))
        i += 1
    parts.append(s.const[pos:])
    return mkstr(parts)


def str_join(it, sep, iterable):
    e = it.entries(iterable)
    parts = []
    anyg = any(g != T for g, _ in e)
    if anyg and not (sep.const == ""):
        # separators depend on which items are present
        ch = None
        prev = F     # some earlier item is present
        for g, x in e:
            x = to_join(it, x)
            if prev != F:
                both = AND(g, prev)
                parts.append(("ch", ((both, sep), (NOT(both), string("")))) if both != T else None)
                if parts[-1] is None:
                    parts.pop()
                    parts.extend(sep.parts)
            if g == T:
                parts.extend(x.parts)
            else:
                parts.append(("ch", ((g, x), (NOT(g), string("")))))
            prev = OR(prev, g)
        return mkstr(parts)
    for i, (g, x) in enumerate(e):
        if i and sep.parts:
            parts.extend(sep.parts)
        x = to_join(it, x)
        if g == T:
            parts.extend(x.parts)
        else:
            parts.append(("ch", ((g, x), (NOT(g), string("")))))
    return mkstr(parts)


def to_join(it, x):
    x = prune(x, it.live)
    if isinstance(x, Str):
        return x
    if isinstance(x, Choice):
        bad = OR(*[g for g, y in x.alts if not isinstance(y, Str)])
        it.raise_(bad, "TypeError", "sequence item: expected str instance")
        return Str((("ch", tuple((g, y) for g, y in x.alts if isinstance(y, Str))),))
    if isinstance(x, (Top, I.Opaque)):
        return Str((("v", x, -1, ""),))
    it.raise_(T, "TypeError", "sequence item: expected str instance, %r found" % (x,))


def sym_string(name, **props):
    """an abstract string with known properties"""
    return Str((("sym", string(name), 0, tuple(sorted(props.items()))),))


def str_attr(it, v, name):
    c = v.const
    sp = None
    if len(v.parts) == 1 and not isinstance(v.parts[0], str) and v.parts[0][0] == "sym":
        sp = dict(v.parts[0][3])

    def method(f):
        return I.Builtin("str." + name, lambda it, a, k: f(*a, **k))
    if name == "join":
        return method(lambda x: str_join(it, v, x))
    if name == "format":
        return method(lambda *a, **k: str_format(it, v, a, k))
    if sp is not None:
        if name in ("lower", "casefold"):
            return method(lambda: string(sp["lower"]) if sp.get("lower") is not None else v)
        if name == "upper":
            return method(lambda: string(sp["lower"].upper()) if sp.get("lower") is not None else v)
        if name in ("title", "capitalize"):
            return method(lambda: string(getattr(sp["lower"], name)()) if sp.get("lower") is not None else v)
        if name == "isalpha":
            return method(lambda: boolv(T if sp.get("alpha") else F))
        if name in ("isalnum", "isascii", "isidentifier", "islower", "isupper", "istitle"):
            return method(lambda: boolv(bdd.opaque(("strpred", name, v.key()))))
        if name == "strip":
            return method(lambda *a: v)
        if name == "replace":
            return method(lambda *a: v if sp.get("alpha") and a[0].const and not a[0].const.isalpha() else it.top("str.replace"))
    if c is not None:
        def go(*a, **k):
            ca = []
            for x in a:
                if isinstance(x, Str) and x.const is not None:
                    ca.append(x.const)
                elif _ci(it, x) is not None:
                    ca.append(_ci(it, x))
                elif isinstance(x, NoneT):
                    ca.append(None)
                elif isinstance(x, Tup):
                    ca.append(tuple(y.const for y in x.items))
                else:
                    return it.top("str.%s" % name)
            try:
                r = getattr(c, name)(*ca)
            except (ValueError, TypeError) as e:
                it.raise_(T, type(e).__name__, str(e))
            return from_py(r)
        if hasattr("", name):
            return method(go)
        return None
    if name in ("startswith", "endswith") and v.parts:
        p = v.parts[0] if name == "startswith" else v.parts[-1]

        def sw(x):
            if isinstance(p, str) and x.const is not None and len(x.const) <= len(p):
                return boolv(T if getattr(p, name)(x.const) else F)
            return it.top("str." + name)
        return method(sw)
    if name in ("strip", "rstrip", "lstrip"):
        def st(*a):
            parts = list(v.parts)
            ch = a[0].const if a else None
            if name != "rstrip" and isinstance(parts[0], str):
                parts[0] = parts[0].lstrip(ch)
            if name != "lstrip" and isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip(ch)
            return mkstr(parts)
        return method(st)
    if hasattr("", name):
        return method(lambda *a, **k: it.top("str." + name))
    return None


def str_format(it, v, a, k):
    if v.const is None:
        raise I.Unsupported("format of abstract string")
    import string as S
    parts = []
    auto = 0
    for lit, field, spec, conv in S.Formatter().parse(v.const):
        parts.append(lit)
        if field is None:
            continue
        if field == "":
            x = a[auto]
            auto += 1
        elif field.isdigit():
            x = a[int(field)]
        elif field in k:
            x = k[field]
        else:
            import re
            m = re.match(r"(\w*)\[(\d+)\]$", field)
            if m:
                base = (a[int(m.group(1))] if m.group(1).isdigit() else k[m.group(1)] if m.group(1) else a[auto])
                if not m.group(1):
                    auto += 1
                x = it.getitem(base, num(int(m.group(2))))
            else:
                raise I.Unsupported("format field %s" % field)
        parts.extend(format_parts(it, x, ord(conv) if conv else -1, spec or ""))
    return mkstr(parts)


def from_py(r):
    if isinstance(r, bool):
        return TRUE if r else FALSE
    if isinstance(r, (int, float)):
        return num(r)
    if isinstance(r, str):
        return string(r)
    if r is None:
        return NONE
    if isinstance(r, list):
        return Ref(ListObj([[T, from_py(x)] for x in r]))
    if isinstance(r, tuple):
        return Tup([from_py(x) for x in r])
    return Top("python value")


# ------------------------------------------------------------------ lists etc.

def make_set(it, ents):
    out = []
    for g, x in ents:
        dup = F
        for h, y in out:
            dup = OR(dup, AND(h, it.equal(x, y)))
        gg = AND(g, NOT(dup))
        if gg != F and AND(gg, it.live) != F:
            out.append([gg, x])
    return Ref(ListObj(out, "set"))


def list_append(it, o, x):
    it.note_write(o, "append")
    o.ents.append([it.relguard(o.birth) if it.live != o.birth else T, x])


def list_extend(it, o, v):
    e = it.entries(v)
    it.note_write(o, "extend")
    b = T if it.live == o.birth else it.relguard(o.birth)
    for g, x in e:
        gg = AND(b, g)
        if gg != F:
            o.ents.append([gg, x])


def list_insert(it, o, i, x):
    k = _ci(it, i)
    if k is None:
        raise I.Unsupported("insert at a symbolic position")
    it.note_write(o, "insert")
    b = T if it.live == o.birth else it.relguard(o.birth)
    n = len(o.ents)
    if k == 0 or n == 0:
        o.ents.insert(0, [b, x])
        return
    if all(e[0] == T for e in o.ents):
        o.ents.insert(k, [b, x])
        return
    if k < 0:
        raise I.Unsupported("insert at negative position of conditional list")
    # insert after the first k present entries: place a guarded copy at every possible slot
    cnt = [T] + [F] * k
    out = []
    placed = F
    for e in o.ents:
        g0 = cnt[k]
        pos = AND(g0, NOT(placed))
        if pos != F:
            out.append([AND(b, pos), x])
            placed = OR(placed, pos)
        out.append(e)
        g = e[0]
        cnt = [OR(AND(NOT(g), cnt[j]), AND(g, cnt[j - 1]) if j else F) for j in range(k + 1)]
    if NOT(placed) != F:
        out.append([AND(b, NOT(placed)), x])
    o.ents = out


def list_pop(it, o, i=None):
    k = -1 if i is None else _ci(it, i)
    if k is None:
        raise I.Unsupported("pop at a symbolic position")
    sel = it.select(o.ents, k)
    ok = OR(*[g for g, _ in sel])
    it.raise_(NOT(ok), "IndexError", "pop from empty list")
    it.note_write(o, "pop")
    v = prune(merge([(g, o.ents[j][1]) for g, j in sel]), it.live)
    for g, j in sel:
        e = o.ents[j]
        o.ents[j] = [AND(e[0], NOT(AND(it.live, g))) if not (it.live == o.birth and g == T) else F, e[1]]
    o.ents = [e for e in o.ents if e[0] != F]
    return v


def list_index(it, v, x, *rest):
    e = it.entries(v)
    if rest:
        raise I.Unsupported("index with bounds")
    rg = I.rank_guards(e, len(e))
    none = T
    pairs = []
    for k, (g, y) in enumerate(e):
        hit = AND(none, g, it.equal(y, x))
        none = AND(none, NOT(hit))
        for j, r in enumerate(rg[k]):
            gg = AND(hit, r)
            if gg != F:
                pairs.append((gg, num(j)))
        if none == F:
            break
    it.raise_(none, "ValueError", "value is not in list")
    return prune(merge(pairs), it.live)


def list_remove(it, o, x):
    none = T
    hits = []
    for j, (g, y) in enumerate(o.ents):
        hit = AND(none, g, it.equal(y, x))
        if hit != F:
            hits.append((hit, j))
        none = AND(none, NOT(hit))
    it.raise_(none, "ValueError", "list.remove(x): x not in list")
    it.note_write(o, "remove")
    for h, j in hits:
        o.ents[j] = [AND(o.ents[j][0], NOT(AND(it.live, h))), o.ents[j][1]]
    o.ents = [e for e in o.ents if e[0] != F]


def list_count(it, v, x):
    acc = num(0)
    for g, y in it.entries(v):
        h = AND(g, it.equal(y, x))
        acc = it.binop(ast.Add(), acc, ite(h, num(1), num(0)))
    return acc


def obj_attr(it, v, name):
    o = v.o

    def method(f, what=None):
        return I.Builtin("%s.%s" % (getattr(o, "kind", type(o).__name__), name), lambda it, a, k: _none(f(*a, **k)))
    if isinstance(o, ListObj):
        k = o.kind
        if name == "index":
            return method(lambda x, *r: list_index(it, v, x, *r))
        if name == "count":
            return method(lambda x: list_count(it, v, x))
        if name == "__iter__":
            return method(lambda: Ref(IterObj(it.entries(v))))
        if name == "__len__":
            return method(lambda: length(it, v))
        if name == "__getitem__":
            return method(lambda i: it.getitem(v, i))
        if name == "__contains__":
            return method(lambda x: boolv(it.contains(x, v)))
        if name == "copy":
            return method(lambda: Ref(ListObj([list(e) for e in map(list, it.entries(v))], k)))
        if k in ("list", "deque"):
            m = {"append": lambda x: list_append(it, o, x), "extend": lambda x: list_extend(it, o, x),
                 "insert": lambda i, x: list_insert(it, o, i, x), "pop": lambda i=None: list_pop(it, o, i),
                 "remove": lambda x: list_remove(it, o, x), "clear": lambda: list_clear(it, o),
                 "reverse": lambda: list_reverse(it, o), "sort": lambda key=NONE, reverse=FALSE: list_sort(it, v, key, reverse),
                 "appendleft": lambda x: list_insert(it, o, num(0), x), "popleft": lambda: list_pop(it, o, num(0)),
                 "__setitem__": lambda i, x: it.setitem(v, i, x), "__delitem__": lambda i: it.delitem(v, i)}.get(name)
            if m is not None:
                return method(m)
        if k == "set":
            if name == "add":
                def add(x):
                    dup = it.contains(x, v)
                    it.note_write(o, "add")
                    g = AND(it.live, NOT(dup))
                    if g != F:
                        o.ents.append([g, x])
                return method(add)
            if name in ("union", "update"):
                def un(*xs):
                    e = it.entries(v)
                    for x in xs:
                        e = e + it.entries(x)
                    r = make_set(it, e)
                    if name == "update":
                        it.note_write(o, "update")
                        o.ents = r.o.ents
                        return NONE
                    return r
                return method(un)
            if name in ("discard", "remove"):
                def disc(x):
                    it.note_write(o, "discard")
                    o.ents = [[AND(g, NOT(AND(it.live, it.equal(y, x)))), y] for g, y in o.ents]
                    o.ents = [e for e in o.ents if e[0] != F]
                return method(disc)
        if k == "deque":
            import collections
            if hasattr(collections.deque, name):
                raise I.Unsupported("deque." + name)
        unmodelled(k, name)
        it.raise_(T, "AttributeError", "%s object has no attribute %s" % (k, name))
    if isinstance(o, DictObj):
        def get(k, d=NONE):
            f = it.dict_find(o, k) if not isinstance(k, Choice) else None
            if f is None:
                return it.lift(lambda x: get(x, d), k)
            ok = OR(*[g for g, _ in f]) if f else F
            return prune(merge([(g, e[2]) for g, e in f] + [(NOT(ok), d)]), it.live)

        def setdefault(k, d=NONE):
            f = it.dict_find(o, k)
            ok = OR(*[g for g, _ in f]) if f else F
            miss = AND(it.live, NOT(ok))
            if miss != F:
                L = it.live
                it.live = miss
                it.setitem(v, k, d)
                it.live = L
            return it.dict_get(o, k)

        def pop(k, *d):
            f = it.dict_find(o, k)
            ok = OR(*[g for g, _ in f]) if f else F
            if not d:
                it.raise_(NOT(ok), "KeyError", "key")
            r = merge([(g, e[2]) for g, e in f] + ([(NOT(ok), d[0])] if d else []))
            it.note_write(o, "pop")
            for g, e in f:
                e[0] = AND(e[0], NOT(AND(it.live, g)))
            for hk in [hk for hk, e in o.ents.items() if e[0] == F]:
                del o.ents[hk]
            return prune(r, it.live)

        def update(*a, **k):
            for x in a:
                if isinstance(x, Ref) and isinstance(x.o, DictObj):
                    for e in list(x.o.ents.values()):
                        L = it.live
                        it.live = AND(L, e[0])
                        if it.live != F:
                            it.setitem(v, e[1], e[2])
                        it.live = L
                else:
                    for g, p in it.entries(x):
                        t = it.unpack(p, 2)
                        it.setitem(v, t.items[0], t.items[1])
            for n, x in k.items():
                it.setitem(v, string(n), x)
        m = {"get": get, "keys": lambda: Ref(ListObj([[e[0], e[1]] for e in o.ents.values()], "set")),
             "values": lambda: Ref(ListObj([[e[0], e[2]] for e in o.ents.values()], "list")),
             "items": lambda: Ref(ListObj([[e[0], Tup([e[1], e[2]])] for e in o.ents.values()], "list")),
             "setdefault": setdefault, "pop": pop, "update": update,
             "copy": lambda: Ref(DictObj({k: list(e) for k, e in o.ents.items()})),
             "clear": lambda: dict_clear(it, o), "__contains__": lambda k: boolv(it.contains(k, v)),
             "__getitem__": lambda k: it.dict_get(o, k)}.get(name)
        if m is not None:
            return method(m)
        unmodelled("dict", name)
        it.raise_(T, "AttributeError", "dict object has no attribute %s" % name)
    if isinstance(o, IterObj):
        if name == "__next__":
            return method(lambda: b_next(it, [v], {}))
        if name == "__iter__":
            return method(lambda: v)
        if name in ("send", "close", "throw"):
            return method(lambda *a: NONE)
        unmodelled("iterator", name)
        it.raise_(T, "AttributeError", "iterator has no attribute %s" % name)
    raise I.Unsupported("attribute %s of %r" % (name, v))


def _none(r):
    return NONE if r is None else r


def dict_clear(it, o):
    it.note_write(o, "clear")
    nl = NOT(it.live)
    for k in list(o.ents):
        o.ents[k][0] = AND(o.ents[k][0], nl)
        if o.ents[k][0] == F or it.live == o.birth:
            del o.ents[k]


def list_clear(it, o):
    it.note_write(o, "clear")
    if it.live == o.birth:
        o.ents = []
        return
    nl = NOT(it.live)
    o.ents = [[AND(g, nl), x] for g, x in o.ents if AND(g, nl) != F]


def replace_content(it, o, ents):
    """under the current guard the list's content becomes ents"""
    if it.live == o.birth or it.live == T:
        o.ents = [[g, x] for g, x in ents]
        return
    L = it.live
    nl = NOT(L)
    new = [[AND(g, L), x] for g, x in ents]
    old = [[AND(g, nl), x] for g, x in o.ents if AND(g, nl) != F]
    if len(new) == len(old) == len(o.ents) and all(a[0] == T for a in o.ents) and all(g == T for g, _ in ents):
        o.ents = [[T, ite(L, x, e[1])] for (g, x), e in zip(ents, o.ents)]
        return
    o.ents = [e for e in new if e[0] != F] + old


def list_reverse(it, o):
    it.note_write(o, "reverse")
    replace_content(it, o, list(reversed([(g, x) for g, x in o.ents])))


def list_sort(it, v, key, reverse):
    r = b_sorted(it, [v], {"key": key, "reverse": reverse})
    it.note_write(v.o, "sort")
    replace_content(it, v.o, [(g, x) for g, x in r.o.ents])


def slice_bounds(it, sl, n):
    def c(v):
        if isinstance(v, NoneT):
            return None
        k = _ci(it, v)
        if k is None:
            raise I.Unsupported("symbolic slice bound")
        return k
    return slice(c(sl.a), c(sl.b), c(sl.c))


def get_slice(it, o, sl):
    if any(isinstance(x, Choice) for x in (sl.a, sl.b, sl.c)):
        return it.lift(lambda a, b, c: get_slice(it, o, I.SliceV(a, b, c)), sl.a, sl.b, sl.c)
    if isinstance(o, Str):
        if o.const is not None:
            return string(o.const[slice_bounds(it, sl, 0)])
        s = slice_bounds(it, sl, 0)
        if s.step is None and s.start in (None, 0) and s.stop is None:
            return o
        if s.step is None and s.stop is None and s.start > 0 and o.parts and isinstance(o.parts[0], str) and len(o.parts[0]) >= s.start:
            return mkstr((o.parts[0][s.start:],) + o.parts[1:])
        if s.step is None and s.start in (None, 0) and s.stop is not None and s.stop < 0 and isinstance(o.parts[-1], str) \
                and len(o.parts[-1]) >= -s.stop:
            return mkstr(o.parts[:-1] + (o.parts[-1][:s.stop],))
        return it.top("slice of abstract string")
    if isinstance(o, RangeV):
        a, b = _ci(it, o.a), _ci(it, o.b)
        r = range(a, b, o.c)[slice_bounds(it, sl, 0)]
        return RangeV(num(r.start), num(r.stop), r.step)
    if not isseq(o):
        it.raise_(T, "TypeError", "object is not sliceable")
    e = it.entries(o)
    s = slice_bounds(it, sl, len(e))
    if all(g == T for g, _ in e):
        r = e[s]
    else:
        r = guarded_slice(e, s)
    if seqkind(o) == "tuple":
        return it.tuple_of(r)
    return Ref(ListObj([[g, x] for g, x in r]))


def guarded_slice(e, s):
    if s.step not in (None, 1):
        if s.step == -1 and s.start is None and s.stop is None:
            return list(reversed(e))
        raise I.Unsupported("slice step on a conditional list")
    r = list(e)
    if s.stop is not None and s.stop < 0:
        # drop the last |stop| present entries
        rev = list(reversed(r))
        k = -s.stop
        rg = I.rank_guards(rev, k - 1)
        r = [(AND(g, NOT(OR(*x))), v) for (g, v), x in zip(rev, rg)]
        r.reverse()
        stop = None
    else:
        stop = s.stop
    if s.start is not None and s.start < 0:
        rev = list(reversed(r))
        rg = I.rank_guards(rev, -s.start - 1)
        r = [(OR(*x), v) for (g, v), x in zip(rev, rg)]
        r.reverse()
        start = 0
    else:
        start = s.start or 0
    if start or stop is not None:
        base = list(e) if (s.start is None or s.start >= 0) else r
        if s.stop is not None and s.stop < 0:
            rg = I.rank_guards(list(e), start - 1) if start else None
        top = max(start, stop or 0)
        rg = I.rank_guards(list(e), top)
        out = []
        for (g, v), x in zip(r, rg):
            gg = g
            if start:
                gg = AND(gg, NOT(OR(*x[:start])))
            if stop is not None:
                gg = AND(gg, OR(*x[:stop]) if stop else F)
            out.append((gg, v))
        r = out
    return [(g, v) for g, v in r if g != F]


def set_slice(it, ob, sl, val):
    e = [(g, x) for g, x in ob.ents]
    s = slice_bounds(it, sl, len(e))
    new = it.entries(val)
    it.note_write(ob, "slice")
    if s.start is None and s.stop is None and s.step is None:
        replace_content(it, ob, new)
        return
    if any(g != T for g, _ in e) or s.step not in (None, 1):
        raise I.Unsupported("slice assignment on a conditional list")
    e[s] = new
    replace_content(it, ob, e)


def del_slice(it, ob, sl):
    e = it.entries(Ref(ob))
    s = slice_bounds(it, sl, len(e))
    it.note_write(ob, "slice")
    if all(g == T for g, _ in e):
        del e[s]
        replace_content(it, ob, e)
        return
    keep = guarded_slice(e, s)
    raise I.Unsupported("slice deletion on a conditional list")


def length(it, v):
    if isinstance(v, Choice):
        return it.lift(lambda x: length(it, x), v)
    if isinstance(v, Tup):
        return num(len(v.items))
    if isinstance(v, Str):
        if v.const is not None:
            return num(len(v.const))
        return it.top("length of abstract string")
    if isinstance(v, RangeV):
        return num(len(range_entries(it, v))) if _ci(it, v.b) is not None else Num(v.b.r - v.a.r, "int")
    if isinstance(v, Ref):
        if isinstance(v.o, Inst):
            c, m = v.o.cls.lookup("__len__")
            if m is None:
                it.raise_(T, "TypeError", "object has no len()")
            return it.call(it.bind(m, v, v.o.cls), [], {})
        if isinstance(v.o, IterObj):
            it.raise_(T, "TypeError", "iterator has no len()")
        e = it.entries(v)
        if all(g == T for g, _ in e):
            return num(len(e))
        cg = I.count_guards(e)
        return prune(merge([(g, num(n)) for n, g in enumerate(cg) if g != F]), it.live)
    if isinstance(v, Top):
        return it.top("length of unknown")
    it.raise_(T, "TypeError", "%r has no len()" % (v,))


def leaf_attr(it, v, name):
    def method(f):
        return I.Builtin(name, lambda it, a, k: _none(f(*a, **k)))
    if isinstance(v, Str):
        return str_attr(it, v, name)
    if isinstance(v, Num):
        if v.kind == "dec":
            return dec_attr(it, v, name)
        if name == "real":
            return v
        if name == "imag":
            return num(0)
        if name == "is_integer":
            return method(lambda: boolv(eq0(v.r - mk_floor(v.r))))
        if name == "conjugate":
            return method(lambda: v)
        unmodelled("float", name)
        unmodelled("int", name)
        return None
    if isinstance(v, Cplx):
        if name == "real":
            return v.re
        if name == "imag":
            return v.im
        if name == "conjugate":
            return method(lambda: Cplx(v.re, unop(it, ast.USub(), v.im)))
        unmodelled("complex", name)
        return None
    if isinstance(v, Tup):
        if v.cls is not None:
            for i, (n, _) in enumerate(v.cls.fields):
                if n == name:
                    return v.items[i]
            c, m = v.cls.lookup(name)
            if m is not None:
                if isinstance(m, I.Prop):
                    return it.call(m.fget, [v], {})
                return it.bind(m, v, v.cls)
            if name == "_replace":
                def rep(**k):
                    return Tup([k.get(n, v.items[i]) for i, (n, _) in enumerate(v.cls.fields)], v.cls)
                return method(rep)
            if name == "_asdict":
                def asdict():
                    d = Ref(DictObj({}))
                    for i, (n, _) in enumerate(v.cls.fields):
                        it.setitem(d, string(n), v.items[i])
                    return d
                return method(asdict)
            if name == "_fields":
                return Tup([string(n) for n, _ in v.cls.fields])
        if name == "index":
            return method(lambda x: list_index(it, v, x))
        if name == "count":
            return method(lambda x: list_count(it, v, x))
        if name == "__iter__":
            return method(lambda: Ref(IterObj(it.entries(v))))
        if name == "__len__":
            return method(lambda: num(len(v.items)))
        if name == "__getitem__":
            return method(lambda i: it.getitem(v, i))
        unmodelled("tuple", name)
        return None
    if isinstance(v, TypeV):
        return type_attr(it, v, name)
    if isinstance(v, I.Func):
        if name in ("__name__", "__qualname__"):
            return string(v.name)
        if name == "__doc__":
            return NONE
        if name in v.attrs:
            return v.attrs[name]
        if name == "cache_clear":
            return method(lambda: v.memo.clear() if v.memo is not None else None)
        return None
    if isinstance(v, I.Bound):
        if name == "__self__":
            return v.selfv
        if name == "__func__":
            return v.func
        return leaf_attr(it, v.func, name)
    if isinstance(v, I.Builtin):
        if name in ("__name__", "__qualname__"):
            return string(v.name)
        h = BUILTIN_ATTR.get((v.name, name))
        if h is not None:
            return I.Builtin(v.name + "." + name, h)
        return None
    if isinstance(v, I.Prop):
        if name == "setter":
            return method(lambda f: I.Prop(v.fget, f, v.fdel))
        if name == "getter":
            return method(lambda f: I.Prop(f, v.fset, v.fdel))
        if name == "deleter":
            return method(lambda f: I.Prop(v.fget, v.fset, f))
        if name == "fget":
            return v.fget
        return None
    if isinstance(v, RangeV):
        if name == "start":
            return v.a
        if name == "stop":
            return v.b
        if name == "step":
            return num(v.c)
        if name == "__iter__":
            return method(lambda: Ref(IterObj(it.entries(v))))
    if isinstance(v, NoneT):
        return None
    return None


def type_attr(it, v, name):
    if name in ("__name__", "__qualname__"):
        return string(v.name)
    if v.name in ("str", "list", "dict", "tuple", "set", "float", "int", "Decimal") or True:
        h = TYPE_STATIC.get((v.name, name))
        if h is not None:
            return I.Builtin(v.name + "." + name, h)
        if v.name in ("str", "list", "dict", "tuple", "set", "Decimal", "deque", "float", "int", "complex"):
            return I.Builtin(v.name + "." + name, lambda it, a, k: it.call(it.getattr(a[0], name), a[1:], k))
    return TypeV(v.name + "." + name)


def dict_fromkeys(it, a, k):
    d = Ref(DictObj({}))
    val = a[1] if len(a) > 1 else k.get("value", NONE)
    for g, x in it.entries(a[0]):
        L = it.live
        it.live = AND(L, g)
        if it.live != F:
            it.setitem(d, x, val)
        it.live = L
    return d


TYPE_STATIC = {("dict", "fromkeys"): dict_fromkeys}
BUILTIN_ATTR = {}


def dec_attr(it, v, name):
    def method(f):
        return I.Builtin("Decimal." + name, lambda it, a, k: _none(f(*a, **k)))

    def todec(x):
        if isinstance(x, Num):
            if x.kind in ("float", "real"):
                it.raise_(T, "TypeError", "conversion from float to Decimal is not supported")
            return Num(x.r, "dec")
        return x
    if name == "sqrt":
        def sq(*a):
            if it.decimal_op is not None:
                it.decimal_op(it)
            it.raise_(gt0(-v.r), "InvalidOperation", "sqrt(-x)")
            return Num(sqrt_of(v.r), "dec")
        return method(sq)
    if name == "fma":
        def fma(x, y, *a):
            x, y = todec(x), todec(y)
            return it.binop(ast.Add(), it.binop(ast.Mult(), v, x), y)
        return method(fma)
    if name in ("normalize", "copy_abs"):
        return method(lambda *a: v if name == "normalize" else Num(mk_abs(v.r), "dec"))
    if name == "quantize":
        return method(lambda *a, **k: it.top("Decimal.quantize"))
    if name in ("is_nan", "is_infinite"):
        return method(lambda: FALSE)
    if name == "is_zero":
        return method(lambda: boolv(eq0(v.r)))
    if name == "ln":
        return method(lambda: it.top("ln"))
    return None


# ------------------------------------------------------------------ builtin functions

def guarded_nums(ents):
    """flatten entries of numeric values into (guard, Num/InfV/NanV/other)"""
    out = []
    for g, v in ents:
        for h, x in alts(v):
            gg = AND(g, h)
            if gg != F:
                out.append((gg, x))
    return out


def b_minmax(op):
    def f(it, args, kwargs):
        key = kwargs.get("key", NONE)
        default = kwargs.get("default")
        if len(args) == 1:
            ents = it.entries(args[0])
        else:
            ents = [(x.g, x.v) if isinstance(x, I.GuardedArg) else (T, x) for x in args]
        return minmax(it, op, ents, key, default)
    return f


def minmax(it, op, ents, key=NONE, default=None):
    ents = I.ents_simplify(ents, it.live)
    if not ents:
        if default is not None:
            return default
        it.raise_(T, "ValueError", "%s() arg is an empty sequence" % op.lower())
    anyp = OR(*[g for g, _ in ents])
    if default is None:
        it.raise_(NOT(anyp), "ValueError", "%s() arg is an empty sequence" % op.lower())
    ents = [(g, ite(v.b, num(1), num(0))) if isinstance(v, BoolV) and len(ents) > 1 else (g, v) for g, v in ents]
    if len(ents) == 1:
        return ents[0][1] if default is None else ite(anyp, ents[0][1], default)
    gn = guarded_nums([(g, prune(v, it.live)) for g, v in ents])
    gn = [(g, v) for g, v in gn if AND(g, it.live) != F]
    if isinstance(key, NoneT) and all(isinstance(x, (Num, InfV)) for _, x in gn):
        r = lattice_of(it, op, gn)
    elif isinstance(key, NoneT) and any(isinstance(x, NanV) for _, x in gn) and all(isinstance(x, (Num, InfV, NanV)) for _, x in gn):
        bad = OR(*[g for g, x in gn if isinstance(x, NanV)])
        fine = [(g, x) for g, x in gn if not isinstance(x, NanV)]
        if AND(it.live, NOT(bad)) == F or not fine:
            return it.top("min/max of nan")
        r = lattice_of(it, op, [(AND(g, NOT(bad)), x) for g, x in fine if AND(g, NOT(bad)) != F])
        r = merge([(NOT(bad), r), (bad, Top("min/max of nan"))])
    else:
        # generic left fold: an element replaces the best so far when strictly smaller / larger
        best = None
        bk = None
        have = F
        for g, x in ents:
            k = x if isinstance(key, NoneT) else it.call(key, [x], {})
            if best is None:
                best, bk, have = x, k, g
                continue
            L = it.live
            c = it.less(k, bk) if op == "MIN" else it.less(bk, k)
            take = AND(g, OR(NOT(have), c))
            best = ite(take, x, best)
            bk = ite(take, k, bk)
            have = OR(have, g)
        r = best
    if default is not None and NOT(anyp) != F:
        r = merge([(anyp, r), (NOT(anyp), default)])
    return prune(r, it.live)


def lattice_of(it, op, gn):
    """minimum / maximum of guarded numbers, some guard always holding"""
    inf_in = [(g, x) for g, x in gn if isinstance(x, InfV)]
    fin = [(g, x) for g, x in gn if isinstance(x, Num)]
    dom_s = -1 if op == "MIN" else 1
    kinds = {x.kind for _, x in fin}
    kind = kinds.pop() if len(kinds) == 1 else "real"
    domg = OR(*[g for g, x in inf_in if x.s == dom_s]) if inf_in else F
    pres = OR(*[g for g, _ in fin]) if fin else F
    out = []
    if domg != F:
        out.append((domg, InfV(dom_s)))
    rest = NOT(domg)
    if fin and AND(rest, pres) != F:
        items = []
        for g, x in fin:
            if AND(it.live, NOT(g)) == F:
                g = T
            items.append((g, x.r))
        u = AND(rest, pres)
        items = [(T if bdd.IMPLIES(AND(u, it.live), g) else g, r) for g, r in items]
        out.append((u, Num(mk_lattice(op, items), kind)))
    non = AND(rest, NOT(pres))
    if non != F and AND(non, it.live) != F:
        out.append((non, InfV(-dom_s)))
    return merge(out)


def b_sorted(it, args, kwargs):
    ents = it.entries(args[0])
    key = kwargs.get("key", NONE)
    rev = kwargs.get("reverse", FALSE)
    rv = it.truth(rev)
    if rv not in (T, F):
        raise I.Unsupported("symbolic reverse flag")
    ents = [(g, prune(v, it.live)) for g, v in ents]
    if isinstance(key, NoneT):
        keyed = [(g, v, v) for g, v in ents]
    else:
        keyed = []
        for g, v in ents:
            L = it.live
            it.live = AND(L, g)
            if it.live == F:
                it.live = L
                continue
            try:
                k = it.call(key, [v], {})
            except I.Dead:
                it.live = AND(L, NOT(g))
                continue
            it.live = OR(it.live, AND(L, NOT(g)))
            keyed.append((g, v, k))
    r = sort_entries(it, keyed, rv == T, isinstance(key, NoneT))
    return Ref(ListObj([[g, v] for g, v in r]))


def sort_entries(it, keyed, reverse, plain):
    if len(keyed) <= 1:
        return [(g, v) for g, v, _ in keyed]

    def cv(k):
        if isinstance(k, Num) and k.r.const is not None:
            return ("n", Fraction(k.r.const))
        if isinstance(k, Str) and k.const is not None:
            return ("s", k.const)
        if isinstance(k, Tup):
            t = [cv(x) for x in k.items]
            return None if any(x is None for x in t) else ("t", tuple(t))
        return None
    ck = [cv(k) for _, _, k in keyed]
    if all(c is not None for c in ck):
        idx = sorted(range(len(keyed)), key=lambda i: ck[i], reverse=reverse)
        return [(keyed[i][0], keyed[i][1]) for i in idx]
    flat = []
    numeric = plain
    for g, v, _ in keyed:
        for h, x in alts(v):
            gg = AND(g, h)
            if gg == F or AND(gg, it.live) == F:
                continue
            if not isinstance(x, Num):
                numeric = False
            flat.append((gg, x))
    if numeric:
        flat = [(g, x) for g, x in flat if bdd.feasible(AND(g, it.live))]
        srt = known_order(it, keyed, flat)
        if srt is not None:
            return srt[::-1] if reverse else srt
        # exclusive alternatives of one entry count once
        n_max = len(keyed)
        pres = [(g, None) for g, _, _ in keyed]
        cg = I.count_guards(pres)
        at_least = []
        for k in range(n_max):
            at_least.append(OR(*cg[k + 1:]) if k + 1 < len(cg) else F)
        items = tuple(sorted(((g, x.r) for g, x in flat), key=lambda t: (str(sorted(t[1].n.items(), key=str)), t[0])))
        # merge equal rats
        kinds = {x.kind for _, x in flat}
        kind = kinds.pop() if len(kinds) == 1 else "real"
        allT = all(g == T for g, _ in items)
        out = []
        for k in range(n_max):
            if at_least[k] == F:
                continue
            if k == 0:
                r = mk_lattice("MIN", list(items))
            elif allT and k == n_max - 1:
                r = mk_lattice("MAX", list(items))
            else:
                r = kth(k, items)
            out.append((at_least[k], Num(r, kind)))
        if reverse:
            out.reverse()
        return out
    # general stable sort by ranks
    n = len(keyed)
    if n > 6:
        raise I.Unsupported("sorting %d symbolic records" % n)
    before = {}
    for i in range(n):
        for j in range(i + 1, n):
            lt = it.less(keyed[j][2], keyed[i][2]) if not reverse else it.less(keyed[i][2], keyed[j][2])
            # j goes before i when strictly smaller
            before[(j, i)] = lt
            before[(i, j)] = NOT(lt)
    out = []
    ranks = []
    for i in range(n):
        cnt = [T]
        for j in range(n):
            if j == i:
                continue
            p = AND(keyed[j][0], before[(j, i)])
            c2 = cnt + [F]
            cnt = [OR(AND(NOT(p), c2[q]), AND(p, c2[q - 1]) if q else F) for q in range(len(c2))]
        ranks.append(cnt)
    for r in range(n):
        pairs = [(AND(keyed[i][0], ranks[i][r]), keyed[i][1]) for i in range(n)]
        pairs = [(g, v) for g, v in pairs if g != F and AND(g, it.live) != F]
        g = OR(*[p[0] for p in pairs]) if pairs else F
        if g == F:
            continue
        out.append((T if bdd.IMPLIES(it.live, g) else g, merge(pairs)))
    return out


def known_order(it, keyed, flat):
    """the entries in order when every comparison between them is already decided"""
    if len(flat) > 14 or len(flat) != len(keyed):
        return None
    out = []
    for e in flat:
        lo, hi = 0, len(out)
        pos = None
        # insert after every entry not greater; all comparisons must be decided
        for i, f in enumerate(out):
            d = e[1].r - f[1].r
            lt = dom.gt0(-d)
            if lt == T or bdd.IMPLIES(AND(it.live, e[0], f[0]), lt):
                pos = i if pos is None else pos
            elif lt == F or AND(it.live, e[0], f[0], lt) == F:
                if pos is not None and not (AND(it.live, e[0], f[0]) == F):
                    return None
            else:
                return None
        out.insert(len(out) if pos is None else pos, e)
    return out


def b_next(it, args, kwargs):
    v = args[0]
    if isinstance(v, Choice):
        return it.lift(lambda x: b_next(it, [x] + args[1:], kwargs), v)
    if not (isinstance(v, Ref) and isinstance(v.o, IterObj)):
        if isinstance(v, Ref) and isinstance(v.o, Inst):
            return it.call(it.getattr(v, "__next__"), [], {})
        it.raise_(T, "TypeError", "object is not an iterator")
    o = v.o
    ents = [[g, x] for g, x in o.ents]
    sel = it.select(ents, 0)
    ok = OR(*[g for g, _ in sel])
    if len(args) < 2:
        it.raise_(NOT(ok), "StopIteration", "")
    pairs = [(g, ents[j][1]) for g, j in sel]
    for g, j in sel:
        ents[j][0] = AND(ents[j][0], NOT(AND(it.live, g))) if not (it.live == o.birth and g == T) else F
    o.ents = [(e[0], e[1]) for e in ents if e[0] != F]
    if len(args) > 1 and NOT(ok) != F:
        pairs.append((NOT(ok), args[1]))
    return prune(merge(pairs), it.live)


def b_range(it, args, kwargs):
    def go(*a):
        for x in a:
            if isinstance(x, Num) and x.kind in ("float", "dec"):
                it.raise_(T, "TypeError", "'float' object cannot be interpreted as an integer")
            if isinstance(x, Top):
                return it.top("range of unknown")
            if not isinstance(x, (Num, BoolV)):
                it.raise_(T, "TypeError", "range() argument")
        a = [ite(x.b, num(1), num(0)) if isinstance(x, BoolV) else x for x in a]
        if len(a) == 1:
            return RangeV(num(0), a[0], 1)
        if len(a) == 2:
            return RangeV(a[0], a[1], 1)
        st = _ci(it, a[2])
        if st is None:
            raise I.Unsupported("symbolic range step")
        if st == 0:
            it.raise_(T, "ValueError", "range() arg 3 must not be zero")
        return RangeV(a[0], a[1], st)
    return it.lift(go, *args)


def seq_list(it, v):
    return Ref(ListObj([[g, x] for g, x in it.entries(v)]))


def b_enumerate(it, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get("start", num(0))
    e = it.entries(args[0])
    out = []
    cnt = [T]
    if all(g == T for g, _ in e):
        for i, (g, x) in enumerate(e):
            out.append((T, Tup([it.binop(ast.Add(), start, num(i)), x])))
    else:
        rg = I.rank_guards(e, len(e))
        for k, (g, x) in enumerate(e):
            idx = merge([(r, num(j)) for j, r in enumerate(rg[k]) if r != F])
            out.append((g, Tup([it.binop(ast.Add(), idx, start), x])))
    return Ref(IterObj(out))


def b_zip(it, args, kwargs):
    es = []
    for a in args:
        if isinstance(a, I.Ref) and isinstance(a.o, I.Inst) and getattr(a.o, "infinite", None):
            es.append(a.o)
        else:
            es.append(it.entries(a))
    lens = [len(e) for e in es if isinstance(e, list)]
    if not lens:
        return Ref(IterObj([]))
    if all(g == T for e in es if isinstance(e, list) for g, _ in e):
        n = min(lens)
        if "strict" in kwargs and it.truth(kwargs["strict"]) == T and len(set(lens)) > 1:
            it.raise_(T, "ValueError", "zip() arguments have different lengths")
        out = []
        for i in range(n):
            out.append((T, Tup([e[i][1] if isinstance(e, list) else e.infinite(i) for e in es])))
        return Ref(IterObj(out))
    n = min(lens)
    rgs = [I.rank_guards(e, n) if isinstance(e, list) else None for e in es]
    out = []
    for i in range(n):
        items = []
        g = T
        for e, rg in zip(es, rgs):
            if rg is None:
                items.append(e.infinite(i))
                continue
            pairs = [(rg[k][i], e[k][1]) for k in range(len(e)) if rg[k][i] != F]
            g = AND(g, OR(*[p[0] for p in pairs]) if pairs else F)
            items.append(merge(pairs))
        if g != F and AND(g, it.live) != F:
            out.append((g, Tup(items)))
    return Ref(IterObj(out))


def under(it, g, f):
    """run f with the live guard restricted to g, restoring the complement afterwards"""
    L = it.live
    Lg = AND(L, g)
    if Lg == F or not bdd.feasible(Lg):
        return None
    rest = AND(L, NOT(g))
    it.live = Lg
    try:
        r = f()
    except I.Dead:
        it.live = rest
        return None
    it.live = OR(it.live, rest)
    return r


def b_map(it, args, kwargs):
    f = args[0]
    if len(args) == 2:
        out = []
        for g, x in it.entries(args[1]):
            r = under(it, g, lambda: it.call(f, [x], {}))
            if r is not None:
                out.append((g, r))
            if it.live == F:
                raise I.Dead()
        return Ref(IterObj(out))
    z = b_zip(it, args[1:], {})
    out = []
    for g, t in z.o.ents:
        r = under(it, g, lambda: it.call(f, list(t.items), {}))
        if r is not None:
            out.append((g, r))
    if it.live == F:
        raise I.Dead()
    return Ref(IterObj(out))


def b_filter(it, args, kwargs):
    f = args[0]
    out = []
    for g, x in it.entries(args[1]):
        if isinstance(f, NoneT):
            r = under(it, g, lambda: boolv(it.truth(x)))
        else:
            r = under(it, g, lambda: boolv(it.truth(it.call(f, [x], {}))))
        if r is None:
            continue
        gg = AND(g, r.b)
        if gg != F:
            x2 = x
            if isinstance(x, Choice):
                x2 = prune(x, AND(it.live, gg))
            out.append((gg, x2))
    return Ref(IterObj(out))


def b_sum(it, args, kwargs):
    acc = args[1] if len(args) > 1 else kwargs.get("start", num(0))
    for g, x in it.entries(args[0]):
        if g == T:
            acc = it.binop(ast.Add(), acc, x)
        else:
            acc = merge([(g, it.binop(ast.Add(), acc, x)), (NOT(g), acc)])
    return acc


def b_abs(it, args, kwargs):
    def go(v):
        if isinstance(v, Num):
            return Num(mk_abs(v.r), v.kind)
        if isinstance(v, InfV):
            return INF
        if isinstance(v, NanV):
            return v
        if isinstance(v, BoolV):
            return ite(v.b, num(1), num(0))
        if isinstance(v, Cplx):
            return hypot(it, [v.re, v.im])
        if isinstance(v, Top):
            return it.top("abs of unknown")
        if isinstance(v, Ref) and isinstance(v.o, Inst):
            return it.call(it.getattr(v, "__abs__"), [], {})
        it.raise_(T, "TypeError", "bad operand type for abs(): %r" % (v,))
    return it.lift(go, args[0])


def b_round(it, args, kwargs):
    nd = args[1] if len(args) > 1 else kwargs.get("ndigits", NONE)

    def go(v, n):
        if isinstance(v, BoolV):
            v = ite(v.b, num(1), num(0))
        if isinstance(v, Num):
            if isinstance(n, NoneT):
                return Num(mk_round(v.r), "int")
            k = _ci(it, n)
            if k is None:
                return it.top("round to symbolic digits")
            if v.r.const is not None and k >= 12 and v.kind != "dec":
                return v if v.kind != "int" else v
            return Num(mk_round(v.r, Rat.c(k)), v.kind)
        if isinstance(v, NanV) or isinstance(v, InfV):
            if isinstance(n, NoneT):
                it.raise_(T, "ValueError" if isinstance(v, NanV) else "OverflowError", "cannot convert")
            return v
        if isinstance(v, Top):
            return it.top("round of unknown")
        it.raise_(T, "TypeError", "round()")
    return it.lift(go, args[0], nd)


def b_int(it, args, kwargs):
    if not args:
        return num(0)

    def go(v):
        if isinstance(v, Num):
            if v.kind == "int":
                return v
            return Num(mk_trunc(v.r), "int")
        if isinstance(v, BoolV):
            return ite(v.b, num(1), num(0))
        if isinstance(v, Str) and v.const is not None:
            try:
                return num(int(v.const, *( [_ci(it, args[1])] if len(args) > 1 else [])))
            except ValueError as e:
                it.raise_(T, "ValueError", str(e))
        if isinstance(v, (InfV, NanV)):
            it.raise_(T, "OverflowError" if isinstance(v, InfV) else "ValueError", "cannot convert")
        if isinstance(v, Top):
            return it.top("int of unknown")
        it.raise_(T, "TypeError", "int() argument")
    return it.lift(go, args[0])


def b_float(it, args, kwargs):
    if not args:
        return num(0.0)

    def go(v):
        if isinstance(v, Num):
            return Num(v.r, "float")
        if isinstance(v, BoolV):
            r = ite(v.b, num(1.0), num(0.0))
            return r
        if isinstance(v, (InfV, NanV)):
            return v
        if isinstance(v, Str) and v.const is not None:
            try:
                x = float(v.const)
            except ValueError as e:
                it.raise_(T, "ValueError", str(e))
            if x != x:
                return NAN
            if x in (float("inf"), float("-inf")):
                return INF if x > 0 else NINF
            return Num(Rat.c(Fraction(v.const.strip())), "float")
        if isinstance(v, Str):
            return Top("float of abstract string")
        if isinstance(v, Top):
            return it.top("float of unknown")
        it.raise_(T, "TypeError", "float() argument must be a string or a real number: %r" % (v,))
    return it.lift(go, args[0])


def b_bool(it, args, kwargs):
    return boolv(it.truth(args[0])) if args else FALSE


def b_str(it, args, kwargs):
    return to_str(it, prune(args[0], it.live)) if args else string("")


def b_repr(it, args, kwargs):
    return mkstr(format_parts(it, prune(args[0], it.live), 114, ""))


def b_list(it, args, kwargs):
    return seq_list(it, args[0]) if args else Ref(ListObj([]))


def b_tuple(it, args, kwargs):
    if not args:
        return Tup(())
    if isinstance(args[0], Tup) and args[0].cls is None:
        return args[0]
    return it.tuple_of(it.entries(args[0]))


def b_set(it, args, kwargs):
    return make_set(it, it.entries(args[0])) if args else Ref(ListObj([], "set"))


def b_dict(it, args, kwargs):
    d = Ref(DictObj())
    if args:
        src = args[0]
        if isinstance(src, Ref) and isinstance(src.o, DictObj):
            d.o.ents = {k: list(e) for k, e in src.o.ents.items()}
        else:
            for g, p in it.entries(src):
                t = it.unpack(p, 2)
                hk = it.hkey(t.items[0])
                if hk in d.o.ents:
                    e = d.o.ents[hk]
                    d.o.ents[hk] = [OR(g, e[0]), e[1], ite(g, t.items[1], e[2])]
                else:
                    d.o.ents[hk] = [g, t.items[0], t.items[1]]
    for k, v in kwargs.items():
        d.o.ents[("s", k)] = [T, string(k), v]
    return d


def type_of(it, v):
    if isinstance(v, BoolV):
        return TypeV("bool")
    if isinstance(v, Num):
        if v.kind == "dec":
            return TypeV("Decimal")
        if v.kind in ("int", "float"):
            return TypeV(v.kind)
        g = bdd.opaque(("isint", v.r))
        return merge([(g, TypeV("int")), (NOT(g), TypeV("float"))])
    if isinstance(v, (InfV, NanV)):
        return TypeV("float")
    if isinstance(v, Str):
        return TypeV("str")
    if isinstance(v, NoneT):
        return TypeV("NoneType")
    if isinstance(v, Tup):
        return v.cls or TypeV("tuple")
    if isinstance(v, Cplx):
        return TypeV("complex")
    if isinstance(v, RangeV):
        return TypeV("range")
    if isinstance(v, Ref):
        o = v.o
        if isinstance(o, Inst):
            return o.cls
        if isinstance(o, ListObj):
            return TypeV(o.kind)
        if isinstance(o, DictObj):
            return TypeV("dict")
        return TypeV("iterator")
    if isinstance(v, I.Func):
        return TypeV("function")
    if isinstance(v, I.Bound):
        return TypeV("method" if isinstance(v.func, I.Func) else "builtin_function_or_method")
    if isinstance(v, I.Builtin):
        return TypeV("builtin_function_or_method")
    if isinstance(v, (I.Cls, TypeV)):
        return TypeV("type")
    if isinstance(v, I.Mod):
        return TypeV("module")
    if isinstance(v, I.Opaque):
        return I.Opaque("type(%s)" % v.name)
    return it.top("type of unknown")


ABSTRACT = {
    "Sequence": {"list", "tuple", "str", "range", "deque"}, "Iterable": {"list", "tuple", "str", "range", "dict", "set", "iterator", "deque"},
    "Callable": {"function", "method", "builtin_function_or_method", "type"}, "Mapping": {"dict"}, "Number": {"int", "float", "complex", "Decimal", "bool"},
    "Real": {"int", "float", "bool"}, "Integral": {"int", "bool"}, "Collection": {"list", "tuple", "str", "range", "dict", "set"},
    "MutableSequence": {"list", "deque"}, "Hashable": {"tuple", "str", "int", "float"}, "Sized": {"list", "tuple", "str", "range", "dict", "set"},
    "Iterator": {"iterator"}, "Generator": {"iterator"}, "Complex": {"int", "float", "complex", "bool"}, "Rational": {"int", "bool"},
    "Set": {"set"}, "object": None,
}


def b_isinstance(it, args, kwargs):
    def go(v):
        return boolv(inst_check(it, v, args[1]))
    return it.lift(go, args[0])


def inst_check(it, v, t):
    if isinstance(t, Choice):
        return OR(*[AND(g, inst_check(it, v, x)) for g, x in t.alts])
    if isinstance(t, Tup):
        return OR(*[inst_check(it, v, x) for x in t.items])
    if isinstance(t, Ref) and isinstance(t.o, ListObj):
        return OR(*[inst_check(it, v, x) for _, x in t.o.ents])
    if isinstance(v, Top):
        it.fresh += 1
        return bdd.opaque(("top", it.fresh))
    if isinstance(t, NoneT):
        return T if isinstance(v, NoneT) else F
    if isinstance(t, I.Cls):
        if t is OBJECT:
            return T
        if isinstance(v, Ref) and isinstance(v.o, Inst):
            return T if t in v.o.cls.mro else F
        if isinstance(v, Tup) and v.cls is not None:
            return T if t in v.cls.mro else F
        return F
    if isinstance(t, TypeV):
        if isinstance(v, I.Opaque):
            return F
        ty = type_of(it, v)
        acc = F
        for g, x in alts(ty):
            nm = x.name if isinstance(x, TypeV) else None
            want = t.name.rpartition(".")[2]
            ok = nm == want or (nm == "bool" and want == "int")
            if want in ABSTRACT:
                s = ABSTRACT[want]
                ok = s is None or nm in s
                if nm is None and want == "Callable":
                    ok = x.lookup("__call__")[1] is not None
                if nm is None and want == "Iterable":
                    ok = x.lookup("__iter__")[1] is not None
            if want in ("FunctionType", "LambdaType"):
                ok = nm == "function"
            if want == "MethodType":
                ok = nm == "method"
            if want in ("BuiltinFunctionType", "BuiltinMethodType"):
                ok = nm == "builtin_function_or_method"
            if want == "frozenset":
                ok = nm == "set" and False
            if nm is None and isinstance(x, I.Cls) and want == "tuple" and x.kind == "namedtuple":
                ok = True
            if ok:
                acc = OR(acc, g)
        return acc
    if isinstance(t, (I.Opaque, I.Builtin, I.Func)):
        return F
    raise I.Unsupported("isinstance with %r" % (t,))


def b_issubclass(it, args, kwargs):
    a, t = args
    if isinstance(t, Tup):
        return boolv(T if any(b_issubclass(it, [a, x], {}).b == T for x in t.items) else F)
    if isinstance(a, I.Cls) and isinstance(t, I.Cls):
        return boolv(T if t in a.mro or t is OBJECT else F)
    if isinstance(a, TypeV) and isinstance(t, TypeV):
        return boolv(T if a.name == t.name or (a.name, t.name) == ("bool", "int") else F)
    return FALSE


def b_type(it, args, kwargs):
    if len(args) != 1:
        raise I.Unsupported("dynamic class creation")
    return it.lift(lambda v: type_of(it, v), args[0])


def b_getattr(it, args, kwargs):
    nm = args[1].const if isinstance(args[1], Str) else None
    if nm is None:
        return it.lift(lambda n: b_getattr(it, [args[0], n] + list(args[2:]), {}), args[1]) if isinstance(args[1], Choice) else it.top("getattr")
    if len(args) > 2:
        return it.getattr(args[0], nm, args[2])
    return it.getattr(args[0], nm)


def b_setattr(it, args, kwargs):
    if isinstance(args[1], Choice):
        it.lift(lambda n: (it.setattr(args[0], n.const, args[2]), NONE)[1], args[1])
        return NONE
    it.setattr(args[0], args[1].const, args[2])
    return NONE


_MISSING = I.Opaque("<missing>")


def b_hasattr(it, args, kwargs):
    nm = args[1].const

    def go(v):
        if isinstance(v, Ref) and isinstance(v.o, Inst):
            c, m = v.o.cls.lookup(nm)
            if m is not None:
                return TRUE
            if nm in v.o.attrs:
                x = v.o.attrs[nm]
                return boolv(OR(*[g for g, y in alts(x) if not isinstance(y, Unbound)]))
            return FALSE
        it.exc.append([])
        L = it.live
        try:
            it.getattr(v, nm)
            r = TRUE
        except I.Dead:
            r = FALSE
        it.exc.pop()
        it.live = L
        return r
    return it.lift(go, args[0])


def b_any(it, args, kwargs):
    acc = F
    for g, x in it.entries(args[0]):
        acc = OR(acc, AND(g, it.truth(x)))
    return boolv(acc)


def b_all(it, args, kwargs):
    acc = T
    for g, x in it.entries(args[0]):
        acc = AND(acc, OR(NOT(g), it.truth(x)))
    return boolv(acc)


def b_iter(it, args, kwargs):
    v = args[0]
    if isinstance(v, Ref) and isinstance(v.o, IterObj):
        return v
    if isinstance(v, Ref) and isinstance(v.o, Inst):
        c, m = v.o.cls.lookup("__iter__")
        if m is not None:
            return it.call(it.bind(m, v, v.o.cls), [], {})
    return Ref(IterObj(it.entries(v)))


def b_reversed(it, args, kwargs):
    v = args[0]
    if isinstance(v, Ref) and isinstance(v.o, IterObj):
        it.raise_(T, "TypeError", "iterator is not reversible")
    return Ref(IterObj(list(reversed(it.entries(v)))))


def b_len(it, args, kwargs):
    return length(it, args[0])


def b_divmod(it, args, kwargs):
    return Tup([it.binop(ast.FloorDiv(), args[0], args[1]), it.binop(ast.Mod(), args[0], args[1])])


def b_pow(it, args, kwargs):
    return it.binop(ast.Pow(), args[0], args[1])


def b_complex(it, args, kwargs):
    def go(a, b):
        if isinstance(a, Cplx):
            return a
        return Cplx(a, b)
    return it.lift(go, args[0] if args else num(0), args[1] if len(args) > 1 else num(0))


def b_callable(it, args, kwargs):
    def go(v):
        if isinstance(v, Ref):
            return boolv(T if isinstance(v.o, Inst) and v.o.cls.lookup("__call__")[1] is not None else F)
        return boolv(T if isinstance(v, (I.Func, I.Bound, I.Builtin, I.Cls, TypeV, I.Opaque)) else F)
    return it.lift(go, args[0])


def b_property(it, args, kwargs):
    a = list(args) + [None] * 3
    return I.Prop(a[0] or kwargs.get("fget"), a[1] or kwargs.get("fset"))


def b_format(it, args, kwargs):
    spec = args[1].const if len(args) > 1 else ""
    return mkstr(format_parts(it, prune(args[0], it.live), -1, spec))


def b_slice(it, args, kwargs):
    a = list(args)
    if len(a) == 1:
        return I.SliceV(NONE, a[0], NONE)
    return I.SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)


def b_super(it, args, kwargs):
    return I.Super(args[0], args[1])


def b_vars(it, args, kwargs):
    return it.top("vars()")


def b_id(it, args, kwargs):
    v = args[0]
    if isinstance(v, Ref):
        return num(v.o.n + 10 ** 9)
    return it.top("id()")


def b_hash(it, args, kwargs):
    return it.top("hash()")


def make_builtins(it):
    B = I.Builtin
    d = {}
    for n, f in [("len", b_len), ("range", b_range), ("enumerate", b_enumerate), ("zip", b_zip), ("map", b_map), ("filter", b_filter),
                 ("sorted", b_sorted), ("reversed", b_reversed), ("min", b_minmax("MIN")), ("max", b_minmax("MAX")), ("sum", b_sum),
                 ("abs", b_abs), ("round", b_round), ("isinstance", b_isinstance), ("issubclass", b_issubclass),
                 ("getattr", b_getattr), ("setattr", b_setattr), ("hasattr", b_hasattr), ("any", b_any), ("all", b_all),
                 ("iter", b_iter), ("next", b_next), ("callable", b_callable), ("divmod", b_divmod), ("pow", b_pow),
                 ("repr", b_repr), ("format", b_format), ("super", b_super), ("vars", b_vars), ("id", b_id), ("hash", b_hash),
                 ("property", b_property), ("slice", b_slice),
                 ("staticmethod", lambda it, a, k: I.StaticM(a[0])), ("classmethod", lambda it, a, k: I.ClassM(a[0])),
                 ("print", lambda it, a, k: NONE), ("chr", lambda it, a, k: string(chr(_ci(it, a[0])))),
                 ("ord", lambda it, a, k: num(ord(a[0].const)))]:
        d[n] = B(n, f)
    for n in TYPECALL:
        if "." not in n and n not in ("Decimal", "NoneType"):
            d[n] = TypeV(n)
    d["object"] = OBJECT
    for n, c in EXC.items():
        d[n] = c
    d["NotImplemented"] = I.Opaque("NotImplemented")
    d["Ellipsis"] = TypeV("...")
    d["__name__"] = string("PathLib")
    d["__debug__"] = TRUE
    return d


TYPECALL = {
    "int": b_int, "float": b_float, "bool": b_bool, "str": b_str, "list": b_list, "tuple": b_tuple, "set": b_set,
    "frozenset": b_set, "dict": b_dict, "type": b_type, "complex": b_complex,
}


def as_base(it, v):
    if isinstance(v, I.Cls):
        return v
    if isinstance(v, TypeV):
        if v.name == "NamedTuple":
            c = I.Cls("NamedTuple", [OBJECT], {}, "NamedTuple")
            c.kind = "namedtuple-base"
            return c
        if v.name in ("Generic", "Protocol", "ABC", "object", "tuple", "list", "dict", "str", "int", "float") or "." in v.name:
            if v.name in ("tuple", "list", "dict", "str", "int", "float"):
                raise I.Unsupported("subclass of builtin %s" % v.name)
            return OBJECT
        return OBJECT
    if isinstance(v, I.Opaque):
        c = I.Cls(v.name, [OBJECT], {}, v.name)
        c.opaque = True
        return c
    raise I.Unsupported("base class %r" % (v,))


def funcs_in(v):
    if isinstance(v, I.Func):
        return [v]
    if isinstance(v, (I.StaticM, I.ClassM)):
        return funcs_in(v.f)
    if isinstance(v, I.Prop):
        return [f for x in (v.fget, v.fset) if x is not None for f in funcs_in(x)]
    return []


def make_enum(it, cls):
    for k, v in list(cls.attrs.items()):
        if k.startswith("_") or isinstance(v, (I.Func, I.StaticM, I.ClassM, I.Prop)):
            continue
        if cls.intenum:
            continue
        o = Inst(cls, {"value": v, "name": string(k)})
        cls.attrs[k] = Ref(o)


def class_entries(it, v):
    return [(T, x) for x in v.attrs.values() if isinstance(x, Ref) and isinstance(x.o, Inst) and x.o.cls is v]


# ------------------------------------------------------------------ modules

def fn(name, f):
    return I.Builtin(name, f)


def hypot(it, xs):
    acc = None
    for x in xs:
        if isinstance(x, BoolV):
            x = ite(x.b, num(1), num(0))
        if isinstance(x, Top):
            return it.top("hypot of unknown")
        if isinstance(x, InfV):
            return INF
        if isinstance(x, NanV):
            return NAN
        if not isinstance(x, Num):
            it.raise_(T, "TypeError", "must be real number")
        s = Num(x.r * x.r, "float")
        if x.r.const is None:
            bdd.note_nonneg(s.r)
        if acc is None:
            acc = s
        else:
            t = acc.r + s.r
            bdd.note_sum(t, acc.r, s.r)
            acc = Num(t, "float")
    if acc is None:
        return num(0.0)
    return Num(mk_sqrt(acc.r), "float")


def real1(f):
    """lift a function of one real number"""
    def g(it, args, kwargs):
        def go(v):
            if isinstance(v, BoolV):
                v = ite(v.b, num(1), num(0))
                if isinstance(v, Choice):
                    return it.lift(go, v)
            if isinstance(v, Num):
                return f(it, v)
            if isinstance(v, (InfV, NanV)):
                return f(it, v)
            if isinstance(v, Top):
                return it.top("math on unknown: " + v.why)
            if isinstance(v, Ref) and isinstance(v.o, Inst) and v.o.cls.lookup("__float__")[1] is not None:
                return go(it.call(it.getattr(v, "__float__"), [], {}))
            it.raise_(T, "TypeError", "must be real number, not %r" % (v,))
        return it.lift(go, *args)
    return g


def m_sqrt(it, v):
    if isinstance(v, InfV):
        if v.s < 0:
            it.raise_(T, "ValueError", "math domain error")
        return v
    if isinstance(v, NanV):
        return v
    it.raise_(gt0(-v.r), "ValueError", "math domain error")
    return Num(sqrt_of(v.r), "float")


def simple(f, nan=True):
    def g(it, v):
        if not isinstance(v, Num):
            return NAN if nan else it.top("math of non-finite")
        return Num(f(v.r), "float")
    return g


def trig(which):
    def f(it, v):
        if not isinstance(v, Num):
            if isinstance(v, InfV):
                it.raise_(T, "ValueError", "math domain error")
            return NAN
        r = v.r
        # cos / sin of +-atan2(y, x): rational in the hypotenuse
        if len(r.n) == 1 and r.d == alg.ONE:
            (m, c), = r.n.items()
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                A = ATOMS[m[0][0]]
                if A.fn == "atan2":
                    y, x = A.args
                    h2 = x * x + y * y
                    bdd.note_nonneg(x * x)
                    bdd.note_nonneg(y * y)
                    bdd.note_sum(h2, x * x, y * y)
                    z = AND(eq0(x), eq0(y))
                    h = mk_sqrt(h2)
                    if which == "cos":
                        return ite(z, num(1.0), Num(x / h, "float"))
                    if which == "sin":
                        return ite(z, num(0.0), Num(y / h * Rat.c(c), "float"))
                if A.fn == "acos" and c in (1, -1):
                    x = A.args[0]
                    if which == "cos":
                        return Num(x, "float")
                    if which == "sin":
                        return Num(mk_sqrt(Rat.c(1) - x * x) * Rat.c(c), "float")
        if which == "sin":
            return Num(mk_sin(r), "float")
        if which == "cos":
            return Num(mk_cos(r), "float")
        cr = mk_cos(r)
        return Num(mk_sin(r) / cr, "float") if not cr.is_zero() else it.top("tan")
    return f


def m_atan2(it, args, kwargs):
    def go(y, x):
        y, x = [ite(v.b, num(1), num(0)) if isinstance(v, BoolV) else v for v in (y, x)]
        if isinstance(y, Num) and isinstance(x, Num):
            return Num(mk_atan2(y.r, x.r), "float")
        if isinstance(y, Top) or isinstance(x, Top):
            return it.top("atan2 of unknown")
        if isinstance(y, (Num, InfV)) and isinstance(x, (Num, InfV)):
            if isinstance(y, InfV) and isinstance(x, Num):
                return Num(PI() * Rat.c(Fraction(y.s, 2)), "float")
            return it.top("atan2 of infinity")
        if isinstance(y, NanV) or isinstance(x, NanV):
            return NAN
        it.raise_(T, "TypeError", "must be real number")
    return it.lift(go, *args)


def m_acos(it, v):
    if not isinstance(v, Num):
        if isinstance(v, InfV):
            it.raise_(T, "ValueError", "math domain error")
        return NAN
    it.raise_(OR(gt0(v.r - 1), gt0(-v.r - 1)), "ValueError", "math domain error")
    it.hooks.setdefault("acos", []).append((it.live, v.r, it.where()))
    return Num(mk_acos(v.r), "float")


def m_asin(it, v):
    it.raise_(OR(gt0(v.r - 1), gt0(-v.r - 1)), "ValueError", "math domain error")
    return Num(Rat.atom(atom("asin", (v.r,))), "float")


def m_pow(it, args, kwargs):
    def go(a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            return num_pow(it, a, b, True)
        if isinstance(a, Top) or isinstance(b, Top):
            return it.top("pow of unknown")
        if isinstance(a, NanV) or isinstance(b, NanV):
            return NAN
        return it.top("pow")
    return it.lift(go, *args)


def m_floor(it, v):
    if not isinstance(v, Num):
        it.raise_(T, "ValueError", "cannot convert")
    return Num(mk_floor(v.r), "int")


def m_ceil(it, v):
    if not isinstance(v, Num):
        it.raise_(T, "ValueError", "cannot convert")
    return Num(-mk_floor(-v.r), "int")


def m_trunc(it, v):
    return Num(mk_trunc(v.r), "int")


def m_copysign(it, args, kwargs):
    def go(a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            m = mk_abs(a.r)
            return ite(gt0(-b.r), Num(-m, "float"), Num(m, "float"))
        return it.top("copysign")
    return it.lift(go, *args)


def m_isclose(it, args, kwargs):
    rel = kwargs.get("rel_tol", num(1e-09))
    ab = kwargs.get("abs_tol", num(0.0))

    def go(a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            d = mk_abs(a.r - b.r)
            t = mk_lattice("MAX", [(T, rel.r * mk_lattice("MAX", [(T, mk_abs(a.r)), (T, mk_abs(b.r))])), (T, ab.r)])
            return boolv(le(d, t))
        if isinstance(a, InfV) and isinstance(b, InfV):
            return boolv(T if a.s == b.s else F)
        return FALSE
    return it.lift(go, args[0], args[1])


def m_dist(it, args, kwargs):
    a, b = it.fixed_items(args[0]), it.fixed_items(args[1])
    ds = [it.binop(ast.Sub(), x, y) for x, y in zip(a, b)]
    return it.lift(lambda *xs: hypot(it, xs), *ds)


def m_comb(it, args, kwargs):
    import math
    n, k = _ci(it, args[0]), _ci(it, args[1])
    if n is None or k is None:
        return it.top("comb of symbolic")
    if n < 0 or k < 0:
        it.raise_(T, "ValueError", "comb")
    return num(math.comb(n, k))


def m_factorial(it, args, kwargs):
    import math
    n = _ci(it, args[0])
    if n is None:
        return it.top("factorial")
    return num(math.factorial(n))


def m_prod(it, args, kwargs):
    acc = kwargs.get("start", num(1))
    for g, x in it.entries(args[0]):
        y = it.binop(ast.Mult(), acc, x)
        acc = y if g == T else ite(g, y, acc)
    return acc


def m_gcd(it, args, kwargs):
    import math
    c = [_ci(it, a) for a in args]
    return num(math.gcd(*c)) if None not in c else it.top("gcd")


def m_sumprod(it, args, kwargs):
    z = b_zip(it, args, {})
    acc = num(0)
    for g, t in z.o.ents:
        acc = it.binop(ast.Add(), acc, it.binop(ast.Mult(), *t.items))
    return acc


def m_cbrt(it, v):
    return Num(mk_cbrt(v.r), "float") if isinstance(v, Num) else v


def math_module():
    half = {}
    ns = {
        "pi": Num(PI(), "float"), "tau": Num(PI() * 2, "float"), "inf": INF, "nan": NAN,
        "e": Num(Rat.atom(atom("e", (), pos=True)), "float"),
        "sqrt": fn("math.sqrt", real1(m_sqrt)),
        "hypot": fn("math.hypot", lambda it, a, k: it.lift(lambda *xs: hypot(it, xs), *a)),
        "sin": fn("math.sin", real1(trig("sin"))), "cos": fn("math.cos", real1(trig("cos"))), "tan": fn("math.tan", real1(trig("tan"))),
        "atan2": fn("math.atan2", m_atan2), "atan": fn("math.atan", real1(simple(lambda r: mk_atan2(r, RONE)))),
        "acos": fn("math.acos", real1(m_acos)), "asin": fn("math.asin", real1(m_asin)),
        "radians": fn("math.radians", real1(simple(lambda r: r * PI() / 180))),
        "degrees": fn("math.degrees", real1(simple(lambda r: r * 180 / PI()))),
        "pow": fn("math.pow", m_pow), "floor": fn("math.floor", real1(m_floor)), "ceil": fn("math.ceil", real1(m_ceil)),
        "trunc": fn("math.trunc", real1(m_trunc)),
        "fabs": fn("math.fabs", lambda it, a, k: b_float(it, [b_abs(it, a, k)], {})), "copysign": fn("math.copysign", m_copysign),
        "isclose": fn("math.isclose", m_isclose), "dist": fn("math.dist", m_dist), "comb": fn("math.comb", m_comb),
        "factorial": fn("math.factorial", m_factorial), "prod": fn("math.prod", m_prod), "gcd": fn("math.gcd", m_gcd),
        "fsum": fn("math.fsum", b_sum), "sumprod": fn("math.sumprod", m_sumprod), "cbrt": fn("math.cbrt", real1(m_cbrt)),
        "isnan": fn("math.isnan", real1(lambda it, v: boolv(T if isinstance(v, NanV) else F))),
        "isinf": fn("math.isinf", real1(lambda it, v: boolv(T if isinstance(v, InfV) else F))),
        "isfinite": fn("math.isfinite", real1(lambda it, v: boolv(T if isinstance(v, Num) else F))),
        "exp": fn("math.exp", real1(lambda it, v: Num(Rat.atom(atom("exp", (v.r,), pos=True)), "float") if isinstance(v, Num) else it.top("exp"))),
        "log": fn("math.log", real1(lambda it, v: Num(Rat.atom(atom("log", (v.r,))), "float") if isinstance(v, Num) else it.top("log"))),
        "fmod": fn("math.fmod", lambda it, a, k: it.lift(lambda x, y: Num(x.r - mk_trunc(x.r / y.r) * y.r, "float"), *a)),
    }
    return ns


def b_decimal(it, args, kwargs):
    def go(v):
        if isinstance(v, Num):
            return Num(v.r, "dec")
        if isinstance(v, Str) and v.const is not None:
            try:
                return Num(Rat.c(Fraction(v.const.strip())), "dec")
            except ValueError:
                it.raise_(T, "InvalidOperation", "Decimal")
        if isinstance(v, BoolV):
            return go(ite(v.b, num(1), num(0)))
        if isinstance(v, (Top,)):
            return it.top("Decimal of unknown")
        if isinstance(v, (InfV, NanV)):
            return v
        it.raise_(T, "TypeError", "Decimal()")
    return it.lift(go, args[0] if args else num(0))


TYPECALL["Decimal"] = b_decimal
TYPECALL["NoneType"] = lambda it, a, k: NONE


def b_cast(it, args, kwargs):
    return args[1]


def identity_decorator(it, args, kwargs):
    return args[0] if args else I.Builtin("decorator", identity_decorator)


def b_lru_cache(it, args, kwargs):
    def wrap(it, a, k):
        f = a[0]
        if isinstance(f, I.Func):
            f.memo = {}
        return f
    if args and isinstance(args[0], (I.Func,)):
        return wrap(it, args, {})
    return I.Builtin("lru_cache", wrap)


def b_cached_property(it, args, kwargs):
    return I.Prop(args[0], cached=True)


def b_partial(it, args, kwargs):
    f, pre = args[0], list(args[1:])
    kw = dict(kwargs)
    return I.Builtin("partial", lambda it, a, k: it.call(f, pre + list(a), {**kw, **k}))


def b_reduce(it, args, kwargs):
    f = args[0]
    e = it.entries(args[1])
    if len(args) > 2:
        acc = args[2]
    else:
        if not e:
            it.raise_(T, "TypeError", "reduce() of empty iterable")
        if e[0][0] != T:
            raise I.Unsupported("reduce of a conditional list")
        acc = e[0][1]
        e = e[1:]
    for g, x in e:
        r = under(it, g, lambda: it.call(f, [acc, x], {}))
        if it.live == F:
            raise I.Dead()
        if r is not None:
            acc = r if g == T else ite(g, r, acc)
    return acc


def it_chain(it, args, kwargs):
    out = []
    for a in args:
        out.extend(it.entries(a))
    return Ref(IterObj(out))


def it_chain_from(it, args, kwargs):
    out = []
    for g, a in it.entries(args[0]):
        for h, x in it.entries(a):
            out.append((AND(g, h), x))
    return Ref(IterObj(out))


BUILTIN_ATTR[("itertools.chain", "from_iterable")] = it_chain_from


def it_pairwise(it, args, kwargs):
    e = it.entries(args[0])
    if any(g != T for g, _ in e):
        z = b_zip(it, [Ref(ListObj([list(x) for x in e])), get_slice(it, Ref(ListObj([list(x) for x in e])), I.SliceV(num(1), NONE, NONE))], {})
        return z
    return Ref(IterObj([(T, Tup([e[i][1], e[i + 1][1]])) for i in range(len(e) - 1)]))


def it_accumulate(it, args, kwargs):
    e = it.entries(args[0])
    f = args[1] if len(args) > 1 else kwargs.get("func", NONE)
    init = kwargs.get("initial", NONE)
    out = []
    acc = None
    if not isinstance(init, NoneT):
        acc = init
        out.append((T, acc))
    for g, x in e:
        if g != T:
            raise I.Unsupported("accumulate over a conditional list")
        if acc is None:
            acc = x
        else:
            acc = it.binop(ast.Add(), acc, x) if isinstance(f, NoneT) else it.call(f, [acc, x], {})
        out.append((T, acc))
    return Ref(IterObj(out))


def it_product(it, args, kwargs):
    rep = _ci(it, kwargs.get("repeat", num(1)))
    pools = [it.entries(a) for a in args] * rep
    out = [(T, ())]
    for p in pools:
        out = [(AND(g, h), t + (x,)) for g, t in out for h, x in p if AND(g, h) != F]
    return Ref(IterObj([(g, Tup(t)) for g, t in out]))


def it_combinations(it, args, kwargs):
    import itertools
    e = it.entries(args[0])
    k = _ci(it, args[1])
    return Ref(IterObj([(AND(*[g for g, _ in c]), Tup([x for _, x in c])) for c in itertools.combinations(e, k)]))


def it_islice(it, args, kwargs):
    e = it.entries(args[0])
    a = list(args[1:])
    if len(a) == 1:
        sl = I.SliceV(NONE, a[0], NONE)
    else:
        sl = I.SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)
    r = get_slice(it, Ref(ListObj([list(x) for x in e])), sl)
    return Ref(IterObj([(g, x) for g, x in r.o.ents]))


def it_zip_longest(it, args, kwargs):
    fill = kwargs.get("fillvalue", NONE)
    es = [it.fixed_items(a) for a in args]
    if any(e is None for e in es):
        raise I.Unsupported("zip_longest of conditional lists")
    n = max(len(e) for e in es)
    return Ref(IterObj([(T, Tup([e[i] if i < len(e) else fill for e in es])) for i in range(n)]))


def it_repeat(it, args, kwargs):
    if len(args) > 1:
        k = _ci(it, args[1])
        return Ref(IterObj([(T, args[0])] * k))
    o = Inst(OBJECT)
    o.infinite = lambda i: args[0]
    return Ref(o)


def it_count(it, args, kwargs):
    start = args[0] if args else kwargs.get("start", num(0))
    step = args[1] if len(args) > 1 else kwargs.get("step", num(1))
    o = Inst(OBJECT)
    o.infinite = lambda i: it.binop(ast.Add(), start, it.binop(ast.Mult(), step, num(i)))
    return Ref(o)


def it_cycle(it, args, kwargs):
    xs = it.fixed_items(args[0])
    o = Inst(OBJECT)
    o.infinite = lambda i: xs[i % len(xs)]
    return Ref(o)


def it_starmap(it, args, kwargs):
    out = []
    for g, t in it.entries(args[1]):
        xs = it.fixed_items(t)
        r = under(it, g, lambda: it.call(args[0], xs, {}))
        if r is not None:
            out.append((g, r))
    return Ref(IterObj(out))


def it_takedrop(take):
    def f(it, args, kwargs):
        out = []
        on = T
        for g, x in it.entries(args[1]):
            r = under(it, g, lambda: boolv(it.truth(it.call(args[0], [x], {}))))
            c = r.b if r is not None else F
            keep = AND(on, OR(NOT(g), c))
            if take:
                out.append((AND(g, keep), x))
            else:
                out.append((AND(g, NOT(keep)), x))
            on = keep
        return Ref(IterObj([(g, x) for g, x in out if g != F]))
    return f


def op_getter(kind):
    def f(it, args, kwargs):
        keys = list(args)

        def get(it, a, k):
            def one(key):
                if kind == "item":
                    return it.getitem(a[0], key)
                v = a[0]
                for nm in key.const.split("."):
                    v = it.getattr(v, nm)
                return v
            r = [one(x) for x in keys]
            return r[0] if len(r) == 1 else Tup(r)
        return I.Builtin("getter", get)
    return f


def op_bin(op):
    return lambda it, a, k: it.binop(op(), a[0], a[1])


def op_cmp(op):
    return lambda it, a, k: boolv(it.compare(op(), a[0], a[1]))


def copy_value(it, v, deep):
    if isinstance(v, Choice):
        return merge([(g, copy_value(it, x, deep)) for g, x in v.alts])
    if isinstance(v, Tup):
        return Tup([copy_value(it, x, deep) for x in v.items], v.cls) if deep else v
    if isinstance(v, Ref):
        o = v.o
        if isinstance(o, ListObj):
            return Ref(ListObj([[g, copy_value(it, x, deep) if deep else x] for g, x in it.entries(v)], o.kind))
        if isinstance(o, DictObj):
            return Ref(DictObj({k: [e[0], e[1], copy_value(it, e[2], deep) if deep else e[2]] for k, e in o.ents.items()}))
        if isinstance(o, Inst):
            n = Inst(o.cls)
            for k, x in o.attrs.items():
                n.attrs[k] = copy_value(it, x, deep) if deep else x
            return Ref(n)
    return v


def b_deque(it, args, kwargs):
    r = seq_list(it, args[0]) if args else Ref(ListObj([]))
    r.o.kind = "deque"
    return r


TYPECALL["deque"] = b_deque


def b_defaultdict(it, args, kwargs):
    d = DictObj()
    if args and not isinstance(args[0], NoneT):
        d.default = args[0]
    return Ref(d)


def b_counter(it, args, kwargs):
    return it.top("Counter")


def b_namedtuple(it, args, kwargs):
    nm = args[0].const
    f = args[1]
    names = f.const.replace(",", " ").split() if isinstance(f, Str) else [x.const for x in it.fixed_items(f)]
    c = I.Cls(nm, [OBJECT], {}, nm)
    c.kind = "namedtuple"
    c.fields = [(n, None) for n in names]
    return c


def b_dataclass(it, args, kwargs):
    def deco(it, a, k):
        c = a[0]
        fields = []
        for b in reversed(c.mro[1:]):
            if b.fields:
                fields += [f for f in b.fields if f[0] not in [x[0] for x in fields]]
        for n, has in getattr(c, "ann", []):
            d = c.attrs.get(n) if has else None
            if isinstance(d, I.Opaque) and d.name == "dataclass.field":
                d = d.default
            fields = [x for x in fields if x[0] != n] + [(n, d)]
        c.fields = fields
        if "__eq__" not in c.attrs:
            def eq(it, a, k):
                if not (isinstance(a[1], Ref) and isinstance(a[1].o, Inst) and a[1].o.cls is a[0].o.cls):
                    return FALSE
                g = T
                for n, _ in fields:
                    g = AND(g, it.equal(it.getattr(a[0], n), it.getattr(a[1], n)))
                return boolv(g)
            c.attrs["__eq__"] = I.Builtin("__eq__", eq)
        return c
    if args:
        return deco(it, args, {})
    return I.Builtin("dataclass", deco)


def b_field(it, args, kwargs):
    o = I.Opaque("dataclass.field")
    o.default = kwargs.get("default")
    if "default_factory" in kwargs:
        o.default = ("factory", kwargs["default_factory"])
    return o


def b_contextmanager(it, args, kwargs):
    f = args[0]
    return I.Builtin("ctx:" + getattr(f, "name", "?"), lambda it, a, k: CtxV(f, a, k))


def rand_int(it, lo, hi):
    it.rand += 1
    r = Rat.atom(atom("rand", (it.rand, lo.r, hi.r), integer=True, nonneg=lo.r.const is not None and lo.r.const >= 0))
    it.hooks.setdefault("rand", []).append((it.live, r, lo.r, hi.r, it.where()))
    return Num(r, "int")


def random_module():
    one = num(1)

    def randrange(it, a, k):
        if len(a) == 1:
            return rand_int(it, num(0), it.binop(ast.Sub(), a[0], one))
        return rand_int(it, a[0], it.binop(ast.Sub(), a[1], one))

    def choice(it, a, k):
        v = a[0]
        if isinstance(v, RangeV) and v.c == 1:
            return rand_int(it, v.a, it.binop(ast.Sub(), v.b, one))
        return it.top("random.choice")

    def uni(it, a, k):
        it.rand += 1
        return Num(Rat.atom(atom("urand", (it.rand,), nonneg=True)), "float")
    return {"randint": fn("random.randint", lambda it, a, k: rand_int(it, a[0] if a else k["a"], a[1] if len(a) > 1 else k["b"])),
            "randrange": fn("random.randrange", randrange), "choice": fn("random.choice", choice), "random": fn("random.random", uni),
            "uniform": fn("random.uniform", lambda it, a, k: it.top("random.uniform")),
            "getrandbits": fn("random.getrandbits", lambda it, a, k: rand_int(it, num(0), num(2 ** _ci(it, a[0]) - 1)))}


def colorsys_module():
    def conv(name):
        def f(it, a, k):
            rs = tuple(x.r for x in a)
            return Tup([Num(Rat.atom(atom("%s.%d" % (name, i), rs, nonneg=True)), "float") for i in range(3)])
        return fn("colorsys." + name, lambda it, a, k: it.lift(lambda *x: f(it, x, {}), *a))
    return {n: conv(n) for n in ("hls_to_rgb", "hsv_to_rgb", "rgb_to_hls", "rgb_to_hsv", "yiq_to_rgb", "rgb_to_yiq")}


def _ev_colorsys(nm, i):
    import colorsys
    import mpmath

    def f(a, env, memo):
        xs = [float(alg.evalf(r, env, memo)) for r in a.args]
        return mpmath.mpf(getattr(colorsys, nm)(*xs)[i])
    return f


for _n in ("hls_to_rgb", "hsv_to_rgb"):
    for _i in range(3):
        alg.EVAL_FN["%s.%d" % (_n, _i)] = _ev_colorsys(_n, _i)


class OpaqueNS(dict):
    """namespace whose every name is an opaque type"""

    def __init__(self, prefix, known):
        super().__init__(known)
        self.prefix = prefix


STUBDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")


def typing_ns():
    B = I.Builtin
    return {"cast": B("typing.cast", b_cast), "overload": B("typing.overload", identity_decorator),
            "final": B("typing.final", identity_decorator), "no_type_check": B("typing.no_type_check", identity_decorator),
            "TYPE_CHECKING": FALSE, "NamedTuple": TypeV("NamedTuple"), "runtime_checkable": B("rc", identity_decorator),
            "TypeVar": B("TypeVar", lambda it, a, k: TypeV("TypeVar")), "NewType": B("NewType", lambda it, a, k: B("NewType", lambda it, a, k: a[0])),
            "override": B("override", identity_decorator), "assert_never": B("assert_never", lambda it, a, k: NONE)}


def std_module(it, name):
    B = I.Builtin
    m = I.Mod(name, {})
    m.file = "<%s>" % name
    m.ispkg = False
    m.opaque_types = False
    if name == "math":
        m.ns = math_module()
    elif name in ("typing", "typing_extensions", "collections.abc", "numbers", "abc"):
        m.ns = typing_ns()
        m.opaque_types = True
        if name == "abc":
            m.ns["abstractmethod"] = B("abstractmethod", identity_decorator)
    elif name == "types":
        m.opaque_types = True
        m.ns = {"SimpleNamespace": B("SimpleNamespace", simple_namespace)}
    elif name == "decimal":
        stub = it.import_module("_decimal_stub")
        m.ns = dict(stub.ns)
        m.ns["Decimal"] = TypeV("Decimal")
        for n in ("InvalidOperation", "DecimalException"):
            m.ns[n] = EXC[n]
        for n in ("ROUND_HALF_EVEN", "ROUND_HALF_UP", "ROUND_DOWN", "ROUND_UP", "ROUND_FLOOR", "ROUND_CEILING"):
            m.ns[n] = string(n)
        m.stub = stub
    elif name == "functools":
        m.ns = {"lru_cache": B("lru_cache", b_lru_cache), "cache": B("cache", b_lru_cache), "reduce": B("reduce", b_reduce),
                "partial": B("partial", b_partial), "wraps": B("wraps", lambda it, a, k: B("wraps", identity_decorator)),
                "cached_property": B("cached_property", b_cached_property), "total_ordering": B("total_ordering", identity_decorator)}
    elif name == "itertools":
        m.ns = {"chain": B("itertools.chain", it_chain), "pairwise": B("pairwise", it_pairwise), "accumulate": B("accumulate", it_accumulate),
                "product": B("product", it_product), "combinations": B("combinations", it_combinations), "islice": B("islice", it_islice),
                "zip_longest": B("zip_longest", it_zip_longest), "repeat": B("repeat", it_repeat), "count": B("count", it_count),
                "cycle": B("cycle", it_cycle), "starmap": B("starmap", it_starmap), "takewhile": B("takewhile", it_takedrop(True)),
                "dropwhile": B("dropwhile", it_takedrop(False)),
                "filterfalse": B("filterfalse", lambda it, a, k: b_filter(it, [B("not", lambda it, x, k: boolv(NOT(it.truth(it.call(a[0], x, {}))))), a[1]], {})),
                "tee": B("tee", lambda it, a, k: (lambda e: Tup([Ref(IterObj(list(e))) for _ in range(_ci(it, a[1]) if len(a) > 1 else 2)]))(it.entries(a[0])))}
    elif name == "operator":
        m.ns = {"itemgetter": B("itemgetter", op_getter("item")), "attrgetter": B("attrgetter", op_getter("attr"))}
        for n, o in [("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("truediv", ast.Div), ("floordiv", ast.FloorDiv), ("mod", ast.Mod),
                     ("pow", ast.Pow)]:
            m.ns[n] = B(n, op_bin(o))
        for n, o in [("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE), ("eq", ast.Eq), ("ne", ast.NotEq), ("is_", ast.Is),
                     ("is_not", ast.IsNot)]:
            m.ns[n] = B(n, op_cmp(o))
        m.ns["neg"] = B("neg", lambda it, a, k: unop(it, ast.USub(), a[0]))
        m.ns["not_"] = B("not_", lambda it, a, k: boolv(NOT(it.truth(a[0]))))
        m.ns["contains"] = B("contains", lambda it, a, k: boolv(it.contains(a[1], a[0])))
        m.ns["getitem"] = B("getitem", lambda it, a, k: it.getitem(a[0], a[1]))
    elif name == "copy":
        m.ns = {"copy": B("copy.copy", lambda it, a, k: copy_value(it, a[0], False)),
                "deepcopy": B("copy.deepcopy", lambda it, a, k: copy_value(it, a[0], True))}
    elif name == "random":
        m.ns = random_module()
    elif name == "colorsys":
        m.ns = colorsys_module()
    elif name == "collections":
        m.ns = {"deque": TypeV("deque"), "defaultdict": B("defaultdict", b_defaultdict), "OrderedDict": TypeV("dict"),
                "namedtuple": B("namedtuple", b_namedtuple), "Counter": B("Counter", b_counter)}
    elif name == "dataclasses":
        m.ns = {"dataclass": B("dataclass", b_dataclass), "field": B("field", b_field)}
    elif name == "contextlib":
        m.ns = {"contextmanager": B("contextmanager", b_contextmanager),
                "suppress": I.Opaque("suppress"), "nullcontext": I.Opaque("nullcontext")}
    elif name == "enum":
        e = I.Cls("Enum", [OBJECT], {}, "Enum")
        e.kind, e.intenum = "enum", False
        ie = I.Cls("IntEnum", [OBJECT], {}, "IntEnum")
        ie.kind = None
        m.ns = {"Enum": e, "IntEnum": ie, "auto": I.Opaque("auto")}
    elif name == "sys":
        m.ns = {"maxsize": num(2 ** 63 - 1), "float_info": Ref(Inst(OBJECT, {"epsilon": num(2.220446049250313e-16), "max": num(1.7976931348623157e308),
                                                                          "min": num(2.2250738585072014e-308)}))}
    elif name == "bisect":
        m.ns = {}
    elif name == "statistics":
        m.ns = {"mean": B("mean", lambda it, a, k: it.binop(ast.Div(), b_sum(it, a, {}), length(it, a[0]))),
                "fmean": B("fmean", lambda it, a, k: it.binop(ast.Div(), b_sum(it, a, {}), length(it, a[0])))}
    elif name == "string":
        import string as S
        m.ns = {n: string(getattr(S, n)) for n in ("ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits")}
    elif name in ("logging", "warnings", "os", "time", "json", "re", "pathlib", "inspect", "fractions", "weakref", "threading", "traceback", "pprint"):
        m.opaque_all = True
    else:
        m.opaque_all = True
    return m


def simple_namespace(it, a, k):
    return Ref(Inst(OBJECT, dict(k)))


def submodule(it, m, name):
    """attribute of a module that is not in its namespace: a submodule or an opaque name"""
    full = m.name + "." + name
    if m.ns.get("__path__") or getattr(m, "ispkg", False):
        p, _ = it.find_module(full)
        if p is not None:
            return it.import_module(full)
    if full in ("collections.abc",):
        return it.import_module(full)
    if getattr(m, "opaque_types", False):
        return TypeV(name)
    if getattr(m, "opaque_all", False) or real_attr(m.name, name):
        return I.Opaque(full)
    return None


def real_attr(module, name):
    """does the library module have that name (though there is no model of it)"""
    import importlib
    import sys
    if module.partition(".")[0] not in sys.stdlib_module_names or module in ("antigravity", "this", "idlelib"):
        return False
    try:
        return hasattr(importlib.import_module(module), name)
    except ImportError:
        return False


REAL = {"list": list, "set": set, "dict": dict, "tuple": tuple, "str": str, "float": float, "int": int, "complex": complex, "frozenset": frozenset}


def unmodelled(kind, name):
    """an attribute the real type has, but the model does not"""
    if name in dir(REAL.get(kind, type(iter([])) if kind == "iterator" else list)):
        raise I.Unsupported("%s.%s" % (kind, name))
