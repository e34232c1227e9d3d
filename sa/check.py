"""Obligations: comparing a derived value graph with the required one."""
import os
import signal
import time
from fractions import Fraction
import mpmath
from . import alg, bdd, dom, witness
from .alg import Rat, EvalError, ATOMS
from .bdd import AND, OR, NOT, XOR, F, T
from .dom import *
from .interp import (Interp, Dead, Unsupported, Budget, ListObj, DictObj, Inst, IterObj, Func, Opaque, rank_guards,
                     count_guards, ents_simplify)
from . import builtins_ as B

REPO = os.environ.get("SA_REPO", "/repo")
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")


class Violation:
    def __init__(self, key, where, what, point=None, got=None, want=None, guard=None, stack=None):
        self.key, self.where, self.what, self.point = key, where, what, point
        self.got, self.want, self.guard, self.stack = got, want, guard, stack

    def as_dict(self):
        return {"obligation": self.key, "construct": self.where, "what": self.what, "derived": self.got,
                "required": self.want, "under": self.guard, "call_stack": self.stack,
                "witness_assignment": self.point}


def short(x, n=700):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + " ..."


class Checker:
    """collects obligations of one property"""

    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obligations = 0
        self.discharged = 0
        self.how = {"normal form": 0, "guard empty": 0, "equal on its guard": 0, "identity test": 0, "no point in guard": 0}
        self.violations = []
        self.undecided = []
        self.cases = []
        self.funcs = {}
        self.steps = 0
        self.samples = []
        self.notes = {}
        self.case = None
        self.tol = mpmath.mpf(10) ** -18
        self.t0 = time.time()
        self.hard, self.short, self.stopped = None, False, False
        self.prepare = None   # called with every new case

    thorough = property(lambda s: s.tier == "thorough")

    def deadline(self, seconds):
        """give up (Budget) after so many seconds; again every 5 s in case a library swallowed it"""
        def late(sig, frame):
            raise Budget("time")
        if seconds:
            signal.signal(signal.SIGALRM, late)
            self.hard = time.time() + seconds
            signal.setitimer(signal.ITIMER_REAL, seconds, 5)
        else:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.hard = None

    # ---- a case: one abstract run
    def run(self, name, fn, modules=(), maxsteps=None):
        if self.violations and self.hard and not self.short:
            # already known to fail: a little more time for further findings
            self.short = True
            left = max(1.0, min(25.0, self.hard - time.time()))
            self.deadline(left)
        if self.stopped:
            return
        c = Case(self, name, maxsteps)
        self.case = c
        t = time.time()
        try:
            for m in modules:
                c.mod(m)
            if self.prepare is not None:
                self.prepare(c)
            fn(c)
        except Dead:
            if not c.reported_dead:
                c.hazards()
                if not c.vio and not c.expected_dead:
                    self.undecided.append((name, "no continuation"))
        except (Unsupported, Budget, RecursionError) as e:
            if isinstance(e, Budget) and str(e) == "time":
                self.stopped = True
                if self.violations:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            self.undecided.append((name, "%s: %s at %s" % (type(e).__name__, e, c.it.where())))
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided.append((name, "internal %s: %s (%s:%d) at %s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno, c.it.where())))
        for k, v in c.it.funcs.items():
            if k in self.funcs:
                self.funcs[k] = (v[0], self.funcs[k][1] + v[1])
            else:
                self.funcs[k] = tuple(v)
        self.steps += c.it.steps
        self.cases.append((name, round(time.time() - t, 2)))
        if os.environ.get("SA_VERBOSE"):
            print("  case %-40s %.2fs obligations %d" % (name, time.time() - t, self.obligations), flush=True)
        return c

    def undec(self, what):
        self.undecided.append((self.case.name if self.case else "", what))


class Case:
    def __init__(self, ck, name, maxsteps=None):
        self.ck, self.name = ck, name
        self.it = Interp([REPO, STUBS], **({"maxsteps": maxsteps} if maxsteps else {}))
        self.hints = witness.Hints()
        self.assume = T
        self.vio = False
        self.reported_dead = False
        self.expected_dead = False
        self.entry = None
        self.seen_exc = 0
        self.consts = set()
        self.budget = 1.5

    # ---- access to the analysed program
    def mod(self, name):
        return self.it.import_module(name)

    def get(self, dotted):
        parts = dotted.split(".")
        for k in range(len(parts) - 1, 0, -1):
            p = self.it.find_module(".".join(parts[:k]))
            if p[0] is not None:
                v = self.it.import_module(".".join(parts[:k]))
                for a in parts[k:]:
                    v = self.it.getattr(v, a)
                return v
        raise Unsupported("no module for " + dotted)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            self.entry = f
            f = self.get(f)
        return self.it.call(f, list(args), kw)

    def meth(self, o, name, *args, **kw):
        self.entry = "%s.%s" % (getattr(getattr(getattr(o, "o", None), "cls", None), "qual", "?"), name)
        return self.it.call(self.it.getattr(o, name), list(args), kw)

    def attr(self, o, name):
        self.entry = "%s.%s" % (getattr(getattr(getattr(o, "o", None), "cls", None), "qual", "?"), name)
        return self.it.getattr(o, name)

    def require(self, g):
        """restrict the analysed inputs"""
        self.assume = AND(self.assume, g)
        self.it.live = AND(self.it.live, g)

    @staticmethod
    def list(items):
        return Ref(ListObj([[T, x] for x in items]))

    def reset(self):
        self.it.live = self.assume
        self.it.exc = [[]]
        self.seen_exc = 0

    # ---- witnesses
    def find(self, g, extra=(), want=1, budget=None):
        return list(witness.points(g, extra, self.hints, want=want, seed=self.ck.seed, budget=budget or self.budget,
                                   consts=self.consts))

    def violation(self, key, what, point=None, got=None, want=None, guard=None, where=None, stack=None):
        self.vio = True
        self.ck.violations.append(Violation(
            "%s/%s" % (self.name, key), where or self.where(), what,
            point.show() if point is not None else None,
            short(got) if got is not None else None, short(want) if want is not None else None,
            short(bdd.show(guard)) if guard is not None else None, stack))

    def where(self):
        if self.entry:
            tail = self.entry.split(".")
            for (f, q), v in self.it.funcs.items():
                if q == ".".join(tail[-2:]) or q == tail[-1] or q == self.entry:
                    return "%s:%s %s" % (f, v[0], q)
            return self.entry
        return self.name

    # ---- obligations
    def ob(self, how):
        self.ck.how[how] = self.ck.how.get(how, 0) + 1
        self.ck.obligations += 1
        self.ck.discharged += 1

    def fail(self, key, what, **kw):
        self.ck.obligations += 1
        self.violation(key, what, **kw)

    def open(self, key, why):
        self.ck.obligations += 1
        self.ck.undec("%s: %s" % (key, why))

    def hazards(self, key="completes", allow=None, base=T):
        """no exception escapes (except those allowed)"""
        lst = self.it.exc[0][self.seen_exc:]
        self.seen_exc = len(self.it.exc[0])
        n = 0
        for g, e in lst:
            if allow is not None and allow(e):
                continue
            g = AND(g, base)
            if g == F:
                continue
            if any(AND(g, tg) != F and self._onlytop(g) for tg, _, _ in self.it.tops):
                pass
            ps = self.find(g, want=1)
            if ps:
                if self._opaque_top(g):
                    self.open(key, "exception depends on an unmodelled value: %s at %s" % (e.cls.name, e.site))
                else:
                    msg = e.attrs.get("args")
                    self.fail(key, "%s escapes at %s %s" % (e.cls.name, e.site, short(msg, 80)), point=ps[0], guard=g,
                              where="%s in %s" % (e.site, (e.stack or ["?"])[-1]), stack=e.stack)
                n += 1
            else:
                self.ob("no point in guard")
        if n == 0:
            self.ob("normal form")
        return n

    def _onlytop(self, g):
        return False

    def _opaque_top(self, g):
        return any(bdd.VARS[v][0] == "O" and isinstance(bdd.VARS[v][1], tuple) and bdd.VARS[v][1] and bdd.VARS[v][1][0] == "top"
                   for v in bdd.support(g))

    def must_raise(self, key, names, g=T):
        """under g, control must have left by an exception of one of the named classes"""
        bad = AND(self.assume, g, self.it.live)
        if bad != F:
            ps = self.find(bad)
            if ps:
                self.fail(key, "returns normally where %s is required" % "/".join(names), point=ps[0], guard=bad)
                return
        for h, e in self.it.exc[0]:
            if not any(c.name in names for c in e.cls.mro):
                ps = self.find(AND(h, g))
                if ps:
                    self.fail(key, "%s escapes at %s instead of %s" % (e.cls.name, e.site, "/".join(names)), point=ps[0], guard=h)
                    return
        self.ob("normal form")

    def true(self, key, b, g=T, what=None):
        """guard b must hold whenever control gets here"""
        if isinstance(b, (BoolV, Choice, Num, NoneT)):
            b = self.it.truth(b)
        bad = AND(self.it.live, self.assume, g, NOT(b))
        if bad == F:
            self.ob("normal form")
            return True
        if not bdd.feasible(bad):
            self.ob("guard empty")
            return True
        ps = self.find(bad)
        if ps:
            if self._opaque_top(bad):
                self.open(key, "depends on an unmodelled value")
                return False
            self.fail(key, what or "required condition fails", point=ps[0], guard=bad)
            return False
        self.ob("no point in guard")
        return True

    def eq(self, key, got, want, g=T, tol=None, what=None):
        """derived value must equal the required value under live & g"""
        base = AND(self.it.live, self.assume, g)
        if base == F:
            self.ob("guard empty")
            return True
        return self._eq(key, got, want, base, tol, what, 0)

    def _eq(self, key, got, want, base, tol, what, depth):
        if isinstance(got, Choice):
            got = prune(got, base)
        if isinstance(want, Choice):
            want = prune(want, base)
        ok = True
        first = True
        for h, a in alts(got):
            for k, b in alts(want):
                gg = AND(base, h, k)
                if gg == F:
                    continue
                if not self._leaf(key, a, b, gg, tol, what, depth):
                    ok = False
                    return ok
        return ok

    def _bad(self, key, gg, got, want, what, extra=(), test=None):
        """report when gg has a point (on which test, if given, is true)"""
        if not bdd.feasible(gg):
            self.ob("guard empty")
            return True
        pts = self.find(gg, extra, want=1 if test is None else 14)
        for p in pts:
            if test is None or test(p):
                if self._opaque_top(gg):
                    self.open(key, "depends on an unmodelled value")
                    return False
                self.fail(key, what or "derived value differs from the required one", point=p, got=got, want=want, guard=gg)
                return False
        if pts:
            self.ob("identity test")
        else:
            self.ob("no point in guard")
        return True

    def _num_eq(self, key, a, b, gg, tol, what):
        if a.r == b.r:
            self.ob("normal form")
            return True
        d = a.r - b.r
        if d.is_zero():
            self.ob("normal form")
            return True
        if dom.collapses(gg, a.r, b.r):
            self.ob("equal on its guard")
            return True
        t = tol or self.ck.tol

        def test(p):
            try:
                x = alg.evalf(a.r, p.env, p.memo)
                y = alg.evalf(b.r, p.env, p.memo)
            except (EvalError, ZeroDivisionError):
                return False
            sc = 1 + abs(x) + abs(y)
            if sc > 10 ** 12:
                sc = sc * 100
            # cancellation: scale by the magnitude of the terms
            try:
                s2 = witness.scale_of(a.r.n, p.env, p.memo)
                if a.r.d != alg.ONE:
                    s2 = s2 / abs(alg.evalp(a.r.d, p.env, p.memo))
            except (EvalError, ZeroDivisionError):
                s2 = mpmath.mpf(0)
            return abs(x - y) > t * sc + mpmath.mpf(10) ** -30 * s2
        return self._bad(key, gg, a, b, what, (a.r, b.r), test)

    def _leaf(self, key, a, b, gg, tol, what, depth):
        if isinstance(a, Opaque):
            a = Top("opaque " + a.name)
        if isinstance(a, Top) or isinstance(b, Top):
            if not bdd.feasible(gg):
                self.ob("guard empty")
                return True
            if self.find(gg):
                self.open(key, "unknown value: %s" % (a.why if isinstance(a, Top) else b.why))
                return False
            self.ob("no point in guard")
            return True
        if isinstance(a, BoolV) and isinstance(b, Num):
            a = Num(Rat.c(1), "int") if a.b == T else Num(Rat.c(0), "int") if a.b == F else a
        if isinstance(a, Num) and isinstance(b, Num):
            if "dec" in (a.kind, b.kind) and a.kind != b.kind:
                return self._bad(key, gg, a, b, "Decimal where a float is required")
            return self._num_eq(key, a, b, gg, tol, what)
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            x = AND(gg, XOR(a.b, b.b))
            if x == F:
                self.ob("normal form")
                return True
            return self._bad(key, x, a, b, what)
        if isinstance(a, Tup) or isinstance(b, Tup) or isinstance(a, Ref) or isinstance(b, Ref):
            return self._seq(key, a, b, gg, tol, what, depth)
        if isinstance(a, Cplx) and isinstance(b, Cplx):
            return self._eq(key + ".re", a.re, b.re, gg, tol, what, depth + 1) and \
                self._eq(key + ".im", a.im, b.im, gg, tol, what, depth + 1)
        if isinstance(a, Str) and isinstance(b, Str):
            return self._str(key, a, b, gg, tol, what)
        try:
            if same(a, b):
                self.ob("normal form")
                return True
        except Exception:
            pass
        return self._bad(key, gg, a, b, what)

    def items(self, v):
        """guarded entries of a sequence value"""
        if isinstance(v, Tup):
            return [(T, x) for x in v.items]
        if isinstance(v, Ref) and isinstance(v.o, (ListObj, IterObj)):
            return v.o.ents
        if isinstance(v, Ref) and isinstance(v.o, Inst):
            return self.it.entries(v)
        if isinstance(v, Ref):
            return self.it.entries(v)
        return None

    def _seq(self, key, a, b, gg, tol, what, depth):
        ea = eb = None
        if isinstance(a, Ref) and isinstance(a.o, Inst) and isinstance(b, Ref) and isinstance(b.o, Inst):
            if a.o is b.o:
                self.ob("normal form")
                return True
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(a.o, DictObj) and isinstance(b.o, DictObj):
            for k in list(a.o.ents) + [k for k in b.o.ents if k not in a.o.ents]:
                x, y = a.o.ents.get(k), b.o.ents.get(k)
                ga, gb = x[0] if x else F, y[0] if y else F
                d = AND(gg, XOR(ga, gb))
                if d != F and not self._bad("%s: key %r" % (key, (x or y)[1]), d, a, b, what or "a key of only one of them"):
                    return False
                if x and y and not self._eq("%s[%r]" % (key, x[1]), x[2], y[2], AND(gg, ga, gb), tol, what, depth + 1):
                    return False
            self.ob("normal form")
            return True
        try:
            ea, eb = self.items(a), self.items(b)
        except (Unsupported, Dead):
            pass
        if ea is None or eb is None:
            return self._bad(key, gg, a, b, what)
        ea = ents_simplify(ea, gg)
        eb = ents_simplify(eb, gg)
        if all(g == T for g, _ in ea) and all(g == T for g, _ in eb):
            if len(ea) != len(eb):
                return self._bad(key + ".length", gg, a, b, what or "length %d instead of %d" % (len(ea), len(eb)))
            for i, (x, y) in enumerate(zip(ea, eb)):
                if not self._eq("%s[%d]" % (key, i), x[1], y[1], gg, tol, what, depth + 1):
                    return False
            if not ea:
                self.ob("normal form")
            return True
        n = max(len(ea), len(eb))
        ca, cb = count_guards(ea), count_guards(eb)
        for k in range(n + 1):
            ga = ca[len(ca) - 1 - 0] if False else _cnt(ca, k)
            gb = _cnt(cb, k)
            x = AND(gg, XOR(ga, gb))
            if x != F:
                if not self._bad(key + ".length", x, a, b, what or "sequence length differs"):
                    return False
        ra, rb = rank_guards(ea, n), rank_guards(eb, n)
        for k in range(n):
            va = merge([(ra[i][k], ea[i][1]) for i in range(len(ea))])
            vb = merge([(rb[i][k], eb[i][1]) for i in range(len(eb))])
            g2 = AND(gg, OR(*[_cnt(ca, j) for j in range(k + 1, n + 1)]))
            if g2 == F or not bdd.feasible(g2):
                continue
            if not self._eq("%s[%d]" % (key, k), va, vb, g2, tol, what, depth + 1):
                return False
        return True

    def _str(self, key, a, b, gg, tol, what):
        if a.key() == b.key():
            self.ob("normal form")
            return True
        for g1, x in B.expand_str(a, gg):
            for g2, y in B.expand_str(b, gg):
                g3 = AND(gg, g1, g2)
                if g3 == F:
                    continue
                if not self._str1(key, x, y, g3, tol, what):
                    return False
        return True

    def _str1(self, key, x, y, gg, tol, what):
        if x.key() == y.key():
            self.ob("normal form")
            return True
        px, py = x.parts, y.parts
        if len(px) == len(py) and all(isinstance(p, str) == isinstance(q, str) for p, q in zip(px, py)):
            good = True
            for p, q in zip(px, py):
                if isinstance(p, str):
                    good = good and p == q
                elif p[0] != q[0] or p[2:] != q[2:]:
                    good = False
            if good:
                for p, q in zip(px, py):
                    if not isinstance(p, str):
                        if not self._eq(key, p[1], q[1], gg, tol, what, 0):
                            return False
                return True
        rats = tuple(p[1].r for p in (*px, *py) if not isinstance(p, str) and p[0] == "v" and isinstance(p[1], Num))

        def test(p):
            # the texts themselves, where the way they are put together differs
            return text_at(px, p) != text_at(py, p)
        return self._bad(key, gg, x, y, what, rats, test)


def text_at(parts, p):
    """the text of string parts at a point; what has no number there is represented by its own name"""
    out = []
    for q in parts:
        if isinstance(q, str):
            out.append(q)
            continue
        v, conv, spec = (tuple(q[1:]) + (None, None, None))[:3]
        if q[0] == "v" and isinstance(v, Num):
            try:
                x = alg.evalf(v.r, p.env, p.memo)
                x = int(round(x)) if v.kind == "int" else float(x)
                if isinstance(spec, str) and spec.startswith("%"):
                    out.append(spec % x)
                else:
                    out.append(format(repr(x) if conv == 114 else x, spec or ""))
                continue
            except (EvalError, ZeroDivisionError, ValueError, TypeError, OverflowError):
                pass
        out.append(repr(v) + "/%s/%s" % (conv, spec))
    return "".join(out)


def _cnt(c, k):
    return c[k] if k < len(c) else F
