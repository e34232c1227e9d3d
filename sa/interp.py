"""Abstract interpreter for Python source over the gated value domain.

One abstract state; every write is gated by the guard under which control
reaches it; both arms of an undecided branch are interpreted and joined.
Nothing of the analysed package is imported or executed.
"""
import ast
import os
from fractions import Fraction
from . import alg, bdd, dom
from .alg import Rat, ZERO, RONE, ATOMS, atom
from .bdd import AND, OR, NOT, F, T
from .dom import *


class Dead(Exception):
    """control does not continue under any guard"""


class Unsupported(Exception):
    """the analysis cannot model a construct"""


class Budget(Exception):
    pass


# ------------------------------------------------------------------ objects

_objcount = [0]
CUR = [None]


class Obj:
    def __init__(self):
        _objcount[0] += 1
        self.n = _objcount[0]
        self.protected = None
        self.birth = CUR[0].live if CUR[0] is not None else T


class Inst(Obj):
    def __init__(self, cls, attrs=None):
        super().__init__()
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return "<%s #%d>" % (self.cls.name, self.n)


class ListObj(Obj):
    def __init__(self, ents=None, kind="list"):
        super().__init__()
        self.ents = ents if ents is not None else []
        self.kind = kind

    def __repr__(self):
        return "%s[%s]" % ("" if self.kind == "list" else self.kind, ", ".join(
            repr(v) if g == T else "%r if c%d" % (v, g) for g, v in self.ents))


class DictObj(Obj):
    def __init__(self, ents=None, default=None):
        super().__init__()
        self.ents = ents if ents is not None else {}   # hashable -> [guard, keyvalue, value]
        self.default = default

    def __repr__(self):
        return "{" + ", ".join("%r: %r" % (k, v) for _, k, v in self.ents.values()) + "}"


class IterObj(Obj):
    def __init__(self, ents):
        super().__init__()
        self.ents = ents

    def __repr__(self):
        return "<iterator of %d>" % len(self.ents)


class Cls(Leaf):
    def __init__(self, name, bases, attrs, qual=None, module=None):
        self.name, self.bases, self.attrs = name, bases, attrs
        self.qual = qual or name
        self.module = module
        self.protected = None
        self.fields = None
        self.kind = None
        self.opaque = False
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, Cls)] + [[b for b in self.bases if isinstance(b, Cls)]]
        out = [self]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    c = s[0]
                    break
            else:
                raise Unsupported("inconsistent class hierarchy")
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    s.pop(0)
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class Func(Leaf):
    def __init__(self, node, frame, module, name, defaults, kwdefaults, qual):
        self.node, self.frame, self.module, self.name = node, frame, module, name
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        self.owner = None
        self.attrs = {}
        self.ctxmgr = False
        self.memo = None
        self.scope = None

    def __repr__(self):
        return "<function %s>" % self.qual


class Bound(Leaf):
    def __init__(self, func, selfv):
        self.func, self.selfv = func, selfv

    def key(self):
        return ("bound", self.func.key(), vkey(self.selfv))

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.selfv)


class Builtin(Leaf):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def key(self):
        return ("builtin", self.name, id(self.fn))

    def __repr__(self):
        return "<builtin %s>" % self.name


class Mod(Leaf):
    def __init__(self, name, ns):
        self.name, self.ns = name, ns

    def __repr__(self):
        return "<module %s>" % self.name


class Prop(Leaf):
    def __init__(self, fget, fset=None, fdel=None, cached=False):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached
        self.attrname = None


class StaticM(Leaf):
    def __init__(self, f):
        self.f = f


class ClassM(Leaf):
    def __init__(self, f):
        self.f = f


class Super(Leaf):
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class Opaque(Leaf):
    """an object outside the analysed program whose methods have no effect on it"""

    def __init__(self, name):
        self.name = name

    def key(self):
        return ("opaque", self.name)

    def __repr__(self):
        return "<opaque %s>" % self.name


class SliceV(Leaf):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Frame:
    def __init__(self, module, parent, base, names=None, glob=None):
        self.module = module
        self.parent = parent            # enclosing function frame for closures
        self.vars = {}
        self.base = base
        self.names = names              # names local to the scope; None = module or class scope
        self.globals = glob
        self.nonlocals = set()
        self.globdecl = set()
        self.pend = []
        self.ret = []
        self.func = None
        self.yields = None
        self.yield_hook = None
        self.loops = []
        self.selfcls = None
        self.keep = 0


# ------------------------------------------------------------------ scope analysis

class _Scope(ast.NodeVisitor):
    def __init__(self):
        self.assigned, self.globs, self.nonl = set(), set(), set()
        self.isgen = False

    def visit_FunctionDef(self, n):
        self.assigned.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.assigned.add(n.name)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def visit_ListComp(self, n):
        # only the walrus leaks; the first iterable is evaluated here
        self._comp(n)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def _comp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.assigned.add(x.target.id)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.assigned.add(n.id)

    def visit_Global(self, n):
        self.globs.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonl.update(n.names)

    def visit_Yield(self, n):
        self.isgen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_Import(self, n):
        for a in n.names:
            self.assigned.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.assigned.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.assigned.add(n.name)
        self.generic_visit(n)

    def visit_MatchAs(self, n):
        if n.name:
            self.assigned.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.assigned.add(n.name)


_scope_cache = {}


def scope_of(node):
    s = _scope_cache.get(node)
    if s is None:
        s = _Scope()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            s.assigned.add(x.arg)
        if a.vararg:
            s.assigned.add(a.vararg.arg)
        if a.kwarg:
            s.assigned.add(a.kwarg.arg)
        if isinstance(node, ast.Lambda):
            s.visit(node.body)
        else:
            for st in node.body:
                s.visit(st)
        s.assigned -= s.globs | s.nonl
        _scope_cache[node] = s
    return s


_parse_cache = {}


def parse_file(path):
    k = path
    r = _parse_cache.get(k)
    if r is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        r = ast.parse(src, path)
        _parse_cache[k] = r
    return r


def assigned_in(stmts):
    s = _Scope()
    for st in stmts:
        s.visit(st)
    return s.assigned


# ------------------------------------------------------------------ entries helpers

def ents_simplify(ents, live):
    out = []
    for g, v in ents:
        if g == T:
            out.append((T, v))
            continue
        gl = AND(g, live)
        if gl == F or not bdd.feasible(gl):
            continue
        if AND(live, NOT(g)) == F:
            g = T
        out.append((g, v))
    return out


def rank_guards(ents, upto):
    """for each entry k: list over j<=upto of guard 'entry k is present and exactly j entries before it are'"""
    cnt = [T] + [F] * upto
    out = []
    for g, _ in ents:
        out.append([AND(g, c) for c in cnt])
        if g == T:
            cnt = [F] + cnt[:-1]
        else:
            ng = NOT(g)
            cnt = [OR(AND(ng, cnt[j]), AND(g, cnt[j - 1]) if j else F) for j in range(upto + 1)]
    return out


def count_guards(ents):
    cnt = [T]
    for g, _ in ents:
        if g == T:
            cnt = [F] + cnt
        else:
            ng = NOT(g)
            c2 = cnt + [F]
            cnt = [OR(AND(ng, c2[j]), AND(g, cnt[j - 1]) if j else F) for j in range(len(c2))]
    return cnt


# ------------------------------------------------------------------ interpreter

MAX_DEPTH = 220


class Interp:
    def __init__(self, roots, maxsteps=40000000):
        """roots: list of directories searched for packages, in order"""
        self.roots = roots
        self.live = T
        self.exc = [[]]
        self.frames = []
        self.modules = {}
        self.steps = 0
        self.maxsteps = maxsteps
        self.funcs = {}          # (file, qual) -> (lineno, calls)
        self.node = None
        self.writes = []         # mutations of protected objects
        self.overrides = {}
        self.decimal_op = None   # called before every decimal operation (fault injection)
        self.calllog = {}
        self.tops = []
        self.undecided = 0
        self.rand = 0
        self.fresh = 0
        self.hooks = {}
        self.mutlog = None
        self.unroll = 40
        from . import builtins_ as B
        self.B = B
        CUR[0] = self
        self.builtins = B.make_builtins(self)

    # ---- diagnostics
    def where(self, node=None):
        node = node or self.node
        fr = self.frames[-1] if self.frames else None
        f = getattr(fr.module, "file", "?") if fr else "?"
        return "%s:%s" % (f, getattr(node, "lineno", "?"))

    def top(self, why):
        self.tops.append((self.live, why, self.where()))
        return Top(why)

    # ---- exceptions
    def raise_(self, g, cname, msg="", node=None):
        """raise builtin exception cname under guard g (relative to live)"""
        gl = AND(self.live, g)
        if gl == F:
            return
        if not bdd.feasible(gl):
            self.live = AND(self.live, NOT(g))
            return
        e = Inst(self.B.EXC[cname], {"args": Tup((string(msg),))})
        e.site = self.where(node)
        e.stack = [fr.func.qual for fr in self.frames if fr.func]
        self.exc[-1].append((gl, e))
        self.live = AND(self.live, NOT(g))
        if self.live == F or not bdd.feasible(self.live):
            self.live = F
            raise Dead()

    def raise_obj(self, e):
        e.site = self.where()
        e.stack = [fr.func.qual for fr in self.frames if fr.func]
        self.exc[-1].append((self.live, e))
        self.live = F
        raise Dead()

    # ---- lifting over choices
    def lift(self, f, *vals):
        for v in vals:
            if isinstance(v, Choice):
                break
        else:
            return f(*vals)
        L = self.live
        vals = [prune(v, L) for v in vals]
        if not any(isinstance(v, Choice) for v in vals):
            return f(*vals)
        combos = [(T, ())]
        for v in vals:
            nc = []
            for g, xs in combos:
                for g2, x in alts(v):
                    gg = AND(g, g2)
                    if gg != F and AND(gg, L) != F:
                        nc.append((gg, xs + (x,)))
            combos = nc
            if len(combos) > 4000:
                raise Unsupported("too many alternatives")
        if len(combos) > 3:
            c2 = [(g, xs) for g, xs in combos if bdd.feasible(AND(g, L))]
            combos = c2 or combos[:1]
        out = []
        nl = F
        for g, xs in combos:
            self.live = AND(L, g)
            if self.live == F:
                continue
            try:
                r = f(*xs)
            except Dead:
                continue
            if r is None:
                r = NONE
            out.append((g, r))
            nl = OR(nl, self.live)
        self.live = nl
        if nl == F or not out:
            self.live = F
            raise Dead()
        return merge(out)

    def branch(self, c, fthen, felse):
        """evaluate two expression thunks under c / not c"""
        L = self.live
        a = AND(L, c)
        b = AND(L, NOT(c))
        fa, fb = a != F and bdd.feasible(a), b != F and bdd.feasible(b)
        if fa and not fb:
            self.live = a if b == F else L
            return fthen()
        if fb and not fa:
            self.live = b if a == F else L
            return felse()
        res = []
        nl = F
        cell = [b]
        fr = self.frames[-1] if self.frames else None
        if fr:
            fr.pend.append(cell)
        try:
            self.live = a
            try:
                v = fthen()
                res.append((c, v))
                nl = self.live
            except Dead:
                pass
            cell[0] = nl
            self.live = b
            try:
                v = felse()
                res.append((NOT(c), v))
                nl = OR(nl, self.live)
            except Dead:
                pass
        finally:
            if fr:
                fr.pend.pop()
        self.live = nl
        if nl == F:
            raise Dead()
        return merge(res)

    # ---- truth
    def truth(self, v):
        if isinstance(v, BoolV):
            return v.b
        if isinstance(v, Choice):
            r = self.lift(lambda x: boolv(self.truth(x)), v)
            r = prune(r, self.live)
            return r.b
        if isinstance(v, Num):
            return NOT(eq0(v.r))
        if isinstance(v, (NoneT,)):
            return F
        if isinstance(v, (InfV, NanV, Cls, Func, Bound, Builtin, Mod, TypeV, Opaque)):
            return T
        if isinstance(v, Str):
            if v.const is not None:
                return T if v.const else F
            if any(isinstance(p, str) or p[0] in ("v", "sym") for p in v.parts):
                return T
            acc = F
            for p in v.parts:
                if p[0] == "ch":
                    for g, s in p[1]:
                        acc = OR(acc, AND(g, self.truth(s)))
            return acc
        if isinstance(v, Tup):
            return T if v.items else F
        if isinstance(v, Cplx):
            return OR(self.truth(v.re), self.truth(v.im))
        if isinstance(v, Ref):
            o = v.o
            if isinstance(o, ListObj):
                return OR(*[g for g, _ in o.ents]) if o.ents else F
            if isinstance(o, DictObj):
                return OR(*[e[0] for e in o.ents.values()]) if o.ents else F
            if isinstance(o, Inst):
                for nm in ("__bool__", "__len__"):
                    c, m = o.cls.lookup(nm)
                    if m is not None:
                        return self.truth(self.call(self.bind(m, v, o.cls), [], {}))
                return T
            return T
        if isinstance(v, Top):
            self.fresh += 1
            self.tops.append((self.live, "branch on unknown: " + v.why, self.where()))
            return bdd.opaque(("top", self.fresh))
        if isinstance(v, Unbound):
            raise Unsupported("truth of unbound value at %s" % self.where())
        raise Unsupported("truth of %r" % (v,))

    # ---- calls
    def call(self, fv, args, kwargs, node=None):
        if isinstance(fv, Choice):
            return self.lift(lambda f: self.call(f, args, kwargs, node), fv)
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget()
        if isinstance(fv, Func):
            return self.call_func(fv, args, kwargs)
        if isinstance(fv, Bound):
            return self.call(fv.func, [fv.selfv] + list(args), kwargs, node)
        if isinstance(fv, Builtin):
            return fv.fn(self, args, kwargs)
        if isinstance(fv, Cls):
            return self.instantiate(fv, args, kwargs)
        if isinstance(fv, TypeV):
            h = self.B.TYPECALL.get(fv.name)
            if h is not None:
                return h(self, args, kwargs)
            return self.top("call of type %s" % fv.name)
        if isinstance(fv, Opaque):
            return Opaque(fv.name + "()")
        if isinstance(fv, Top):
            return self.top("call of unknown: " + fv.why)
        if isinstance(fv, StaticM):
            return self.call(fv.f, args, kwargs, node)
        if isinstance(fv, Ref) and isinstance(fv.o, Inst):
            c, m = fv.o.cls.lookup("__call__")
            if m is not None:
                return self.call(self.bind(m, fv, fv.o.cls), args, kwargs, node)
        self.raise_(T, "TypeError", "object is not callable: %r" % (fv,))

    def instantiate(self, cls, args, kwargs):
        if cls.opaque:
            return Opaque(cls.name + "()")
        if cls.kind == "namedtuple":
            return self.make_namedtuple(cls, args, kwargs)
        c, new = cls.lookup("__new__")
        if new is not None:
            f = new.f if isinstance(new, StaticM) else new
            o = self.call(f, [cls] + list(args), kwargs)
            if isinstance(o, Ref) and isinstance(o.o, Inst) and cls in o.o.cls.mro:
                ov = o
            else:
                return o
        else:
            o = Inst(cls)
            ov = Ref(o)
        if any(x.name == "BaseException" for x in cls.mro):
            o_ = ov.o
            o_.attrs["args"] = Tup(args)
        c, init = cls.lookup("__init__")
        if init is not None:
            self.call(self.bind(init, ov, cls), args, kwargs)
        elif cls.fields is not None:
            self.dataclass_init(cls, ov, args, kwargs)
        elif (args or kwargs) and not any(x.name == "BaseException" for x in cls.mro):
            self.raise_(T, "TypeError", "%s() takes no arguments" % cls.name)
        return ov

    def make_namedtuple(self, cls, args, kwargs):
        names = cls.fields
        vals = list(args)
        for nm, d in names[len(vals):]:
            if nm in kwargs:
                vals.append(kwargs[nm])
            elif d is not None:
                vals.append(d)
            else:
                self.raise_(T, "TypeError", "missing field")
        return Tup(vals, cls)

    def dataclass_init(self, cls, ov, args, kwargs):
        vals = list(args)
        for k, (nm, d) in enumerate(cls.fields):
            if k < len(vals):
                v = vals[k]
            elif nm in kwargs:
                v = kwargs[nm]
            elif isinstance(d, tuple) and d[0] == "factory":
                v = self.call(d[1], [], {})
            elif d is not None:
                v = d
            else:
                self.raise_(T, "TypeError", "missing argument " + nm)
            self.setattr_obj(ov.o, nm, v)
        c, post = cls.lookup("__post_init__")
        if post is not None:
            self.call(self.bind(post, ov, cls), [], {})

    def call_func(self, f, args, kwargs):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            r = ov(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if f.memo is not None:
            k = (tuple(vkey(a) for a in args), tuple(sorted((n, str(vkey(v))) for n, v in kwargs.items())))
            if k in f.memo:
                return f.memo[k]
        node = f.node
        if len(self.frames) > MAX_DEPTH or sum(1 for fr in self.frames if fr.func is f) > 200:
            raise Unsupported("recursion limit in %s" % f.qual)
        key = (getattr(f.module, "file", "?"), f.qual)
        ent = self.funcs.get(key)
        if ent is None:
            self.funcs[key] = [getattr(node, "lineno", 0), 1]
        else:
            ent[1] += 1
        sc = scope_of(node)
        fr = Frame(f.module, f.frame, self.live, sc.assigned, f.module.ns)
        fr.nonlocals, fr.globdecl = sc.nonl, sc.globs
        fr.func = f
        if sc.isgen:
            fr.yields = []
        self.bind_args(f, fr, args, kwargs)
        if f.qual in self.calllog:
            self.calllog[f.qual].append((self.live, dict(fr.vars)))
        self.frames.append(fr)
        savednode = self.node
        try:
            if isinstance(node, ast.Lambda):
                try:
                    v = self.eval(node.body)
                    fr.ret.append((self.live, v))
                except Dead:
                    pass
                self.live = F
            else:
                self.exec_block(node.body)
        finally:
            self.frames.pop()
            self.node = savednode
        res = list(fr.ret)
        if self.live != F:
            res.append((self.live, NONE))
        L = OR(*[g for g, _ in res]) if res else F
        self.live = L
        if L == F:
            raise Dead()
        if sc.isgen:
            r = Ref(IterObj(fr.yields))
        else:
            r = self.merge_returns(res, L)
        if f.memo is not None:
            f.memo[k] = r
        return r

    def merge_returns(self, res, L):
        if len(res) == 1:
            return res[0][1]
        return merge(res)

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos = len(pos)
        kwargs = dict(kwargs)
        guarded = [x for x in args if isinstance(x, GuardedArg)]
        if guarded:
            nplain = next(i for i, x in enumerate(args) if isinstance(x, GuardedArg))
            if a.vararg is None or nplain < npos:
                args = self.expand_guarded(args, f)
        vals = {}
        for i, v in enumerate(args[:npos]):
            vals[pos[i]] = v
        extra = list(args[npos:])
        for k in list(kwargs):
            if k in pos and k not in [x.arg for x in a.posonlyargs]:
                if k in vals:
                    self.raise_(T, "TypeError", "multiple values for argument %s" % k)
                vals[k] = kwargs.pop(k)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (npos - nd)
                if j < 0:
                    self.raise_(T, "TypeError", "%s() missing argument %s" % (f.name, p))
                vals[p] = f.defaults[j]
        if a.vararg:
            if any(isinstance(x, GuardedArg) for x in extra):
                vals[a.vararg.arg] = Ref(ListObj([[x.g, x.v] if isinstance(x, GuardedArg) else [T, x] for x in extra], "tuple"))
            else:
                vals[a.vararg.arg] = Tup(extra)
        elif extra:
            self.raise_(T, "TypeError", "%s() takes %d positional arguments" % (f.name, npos))
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                vals[x.arg] = d
            else:
                self.raise_(T, "TypeError", "missing keyword argument %s" % x.arg)
        if a.kwarg:
            d = DictObj()
            for k, v in kwargs.items():
                d.ents[("s", k)] = [T, string(k), v]
            vals[a.kwarg.arg] = Ref(d)
        elif kwargs:
            self.raise_(T, "TypeError", "%s() got an unexpected keyword argument %s" % (f.name, sorted(kwargs)[0]))
        fr.vars.update(vals)

    def expand_guarded(self, args, f):
        raise Unsupported("conditional positional arguments for %s" % f.qual)

    # ---- attribute access
    def bind(self, m, selfv, cls):
        if isinstance(m, StaticM):
            return m.f
        if isinstance(m, ClassM):
            return Bound(m.f, cls)
        if isinstance(m, (Func, Builtin)):
            return Bound(m, selfv)
        if isinstance(m, Choice):
            return merge([(g, self.bind(x, selfv, cls)) for g, x in m.alts])
        return m

    def getattr(self, v, name, default=None):
        if isinstance(v, Choice):
            return self.lift(lambda x: self.getattr(x, name, default), v)
        if isinstance(v, Ref):
            o = v.o
            if isinstance(o, Inst):
                return self.getattr_inst(v, o, name, default)
            return self.B.obj_attr(self, v, name)
        if isinstance(v, Cls):
            c, m = v.lookup(name)
            if m is not None:
                if isinstance(m, StaticM):
                    return m.f
                if isinstance(m, ClassM):
                    return Bound(m.f, v)
                return prune(m, self.live)
            if name == "__name__" or name == "__qualname__":
                return string(v.name)
            if name == "__init__" and v.opaque:
                return Opaque(v.name + ".__init__")
            if name == "__init__":
                return Builtin("object.__init__", lambda it, a, k: NONE)
            if name == "__new__":
                return Builtin("object.__new__", lambda it, a, k: Ref(Inst(a[0])))
            if v.opaque or any(x.opaque for x in v.mro):
                return Opaque(v.name + "." + name)
            if default is not None:
                return default
            self.raise_(T, "AttributeError", "type object %s has no attribute %s" % (v.name, name))
        if isinstance(v, Mod):
            if name in v.ns:
                r = v.ns[name]
                return r
            sub = self.B.submodule(self, v, name)
            if sub is not None:
                return sub
            if default is not None:
                return default
            self.raise_(T, "AttributeError", "module %s has no attribute %s" % (v.name, name))
        if isinstance(v, Opaque):
            return Opaque(v.name + "." + name)
        if isinstance(v, Super):
            mro = self.typeof_mro(v.selfv)
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if name in c.attrs:
                    m = c.attrs[name]
                    if isinstance(m, Prop):
                        return self.call(m.fget, [v.selfv], {})
                    return self.bind(m, v.selfv, v.selfv if isinstance(v.selfv, Cls) else v.selfv.o.cls)
            if any(c.opaque for c in mro):
                return Opaque("super." + name)
            if name == "__init__":
                return Builtin("object.__init__", lambda it, a, k: NONE)
            if name == "__new__":
                return Builtin("object.__new__", lambda it, a, k: Ref(Inst(a[0])))
            if name == "__setattr__":
                return Builtin("object.__setattr__", lambda it, a, k: it.setattr_obj(v.selfv.o, a[0].const, a[1]))
            self.raise_(T, "AttributeError", "super has no attribute %s" % name)
        if isinstance(v, Top):
            return self.top("attribute of unknown: " + v.why)
        if isinstance(v, Unbound):
            raise Unsupported("attribute of unbound at %s" % self.where())
        r = self.B.leaf_attr(self, v, name)
        if r is None:
            if default is not None:
                return default
            self.raise_(T, "AttributeError", "%r has no attribute %s" % (v, name))
        return r

    def typeof_mro(self, v):
        return v.mro if isinstance(v, Cls) else v.o.cls.mro

    def getattr_inst(self, v, o, name, default=None):
        c, m = o.cls.lookup(name)
        if isinstance(m, Prop) and not m.cached:
            return self.call(m.fget, [v], {})
        if name in o.attrs:
            r = prune(o.attrs[name], self.live)
            g = F
            if isinstance(r, Unbound):
                g = T
            elif isinstance(r, Choice):
                for ga, x in r.alts:
                    if isinstance(x, Unbound):
                        g = ga
            if g == F:
                return r
            if m is None and default is None:
                self.raise_(g, "AttributeError", "%s object has no attribute %s" % (o.cls.name, name))
                return prune(r, self.live)
            other = default if m is None else None
            if other is None:
                other = self.class_attr(v, o, m)
            return merge([(AND(ga, NOT(g)), x) for ga, x in alts(r) if not isinstance(x, Unbound)] + [(g, other)])
        if m is not None:
            if isinstance(m, Prop):
                r = self.call(m.fget, [v], {})
                self.setattr_obj(o, name, r)
                return r
            return self.class_attr(v, o, m)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            raise Unsupported("__dict__")
        if any(x.opaque for x in o.cls.mro):
            return Opaque(o.cls.name + "." + name)
        ga_c, ga = o.cls.lookup("__getattr__")
        if ga is not None:
            return self.call(self.bind(ga, v, o.cls), [string(name)], {})
        if default is not None:
            return default
        if name in ("__str__", "__repr__"):
            return Builtin("object.__str__", lambda it, a, k: string("<object>"))
        if name == "__eq__":
            return Builtin("object.__eq__", lambda it, a, k: TRUE if isinstance(a[0], Ref) and a[0].o is o else FALSE)
        self.raise_(T, "AttributeError", "%s object has no attribute %s" % (o.cls.name, name))

    def class_attr(self, v, o, m):
        return self.bind(prune(m, self.live), v, o.cls)

    def gated(self, new, old, o=None):
        """value of a heap location after writing new under the current guard"""
        if self.live == T or (o is not None and self.live == o.birth):
            return new
        return ite(self.live, new, old)

    def note_write(self, o, what):
        if self.mutlog is not None:
            self.mutlog.append((o, what))
        if o.protected is not None:
            self.writes.append((self.live, o, what, self.where(), o.protected))

    def setattr(self, v, name, val):
        if isinstance(v, Choice):
            self.lift(lambda x: (self.setattr(x, name, val), NONE)[1], v)
            return
        if isinstance(v, Ref) and isinstance(v.o, Inst):
            o = v.o
            c, m = o.cls.lookup(name)
            if isinstance(m, Prop) and not m.cached:
                if m.fset is None:
                    self.raise_(T, "AttributeError", "can't set attribute %s" % name)
                self.call(m.fset, [v, val], {})
                return
            sa_c, sa = o.cls.lookup("__setattr__")
            if sa is not None:
                self.call(self.bind(sa, v, o.cls), [string(name), val], {})
                return
            slots = self.slots_of(o.cls)
            if slots is not None and name not in slots:
                self.raise_(T, "AttributeError", "%s object has no attribute %s" % (o.cls.name, name))
            self.setattr_obj(o, name, val)
            return
        if isinstance(v, Cls):
            self.note_write(v, name)
            v.attrs[name] = self.gated(val, v.attrs.get(name, UNBOUND))
            return
        if isinstance(v, Mod):
            v.ns[name] = self.gated(val, v.ns.get(name, UNBOUND))
            return
        if isinstance(v, (Opaque, Top)):
            return
        if isinstance(v, (Func, Builtin)):
            if isinstance(v, Func):
                v.attrs[name] = val
            return
        self.raise_(T, "AttributeError", "cannot set attribute %s" % name)

    def slots_of(self, cls):
        s = set()
        for c in cls.mro:
            if c.opaque:
                return None
            sl = c.attrs.get("__slots__")
            if sl is None:
                if c.name == "object":
                    continue
                return None
            for g, x in ([(T, sl)] if isinstance(sl, Str) else self.entries(sl)):
                if x.const is not None:
                    s.add(x.const)
        return s

    def setattr_obj(self, o, name, val):
        old = o.attrs.get(name, UNBOUND)
        self.note_write(o, name)
        o.attrs[name] = self.gated(val, old, o)
        return NONE

    # ---- iteration
    def entries(self, v):
        """value -> list of (guard, element) relative to live"""
        if isinstance(v, Choice):
            v = prune(v, self.live)
        if isinstance(v, Choice):
            out = []
            L = self.live
            nl = F
            for g, x in v.alts:
                self.live = AND(L, g)
                if self.live == F:
                    continue
                try:
                    for g2, e in self.entries(x):
                        gg = AND(g, g2)
                        if gg != F:
                            out.append((gg, e))
                except Dead:
                    continue
                nl = OR(nl, self.live)
            self.live = nl
            if nl == F:
                raise Dead()
            return out
        if isinstance(v, Tup):
            return [(T, x) for x in v.items]
        if isinstance(v, Ref):
            o = v.o
            if isinstance(o, ListObj):
                return ents_simplify([(g, x) for g, x in o.ents], self.live)
            if isinstance(o, DictObj):
                return ents_simplify([(e[0], e[1]) for e in o.ents.values()], self.live)
            if isinstance(o, IterObj):
                e = ents_simplify(o.ents, self.live)
                L = self.live
                if self.mutlog is not None:
                    self.mutlog.append((o, "consume"))
                if L == T:
                    o.ents = []
                else:
                    nl = NOT(L)
                    o.ents = [(AND(g, nl), x) for g, x in o.ents if AND(g, nl) != F]
                return e
            if isinstance(o, Inst):
                c, m = o.cls.lookup("__iter__")
                if m is not None:
                    return self.entries(self.call(self.bind(m, v, o.cls), [], {}))
                c, m = o.cls.lookup("__getitem__")
                if m is not None:
                    c2, ml = o.cls.lookup("__len__")
                    if ml is not None:
                        n = self.call(self.bind(ml, v, o.cls), [], {})
                        if isinstance(n, Num) and n.r.const is not None:
                            return [(T, self.call(self.bind(m, v, o.cls), [num(i)], {})) for i in range(int(n.r.const))]
                    # sequence protocol: index from 0 until IndexError
                    out = []
                    for i in range(64):
                        self.exc.append([])
                        L = self.live
                        try:
                            x = self.call(self.bind(m, v, o.cls), [num(i)], {})
                            out.append((T if self.live == L else self.live, x))
                        except Dead:
                            pass
                        ex = self.exc.pop()
                        stop = F
                        for g, e in ex:
                            if any(k.name == "IndexError" for k in e.cls.mro):
                                stop = OR(stop, g)
                            else:
                                self.exc[-1].append((g, e))
                        cont = self.live if self.live != L or stop == F else self.live
                        if stop == L:
                            self.live = L
                            return out
                        if stop != F:
                            raise Unsupported("conditional end of iteration")
                    raise Unsupported("unbounded sequence iteration")
            self.raise_(T, "TypeError", "object is not iterable")
        if isinstance(v, Str):
            if v.const is not None:
                return [(T, string(ch)) for ch in v.const]
            raise Unsupported("iteration over an abstract string")
        if isinstance(v, self.B.RangeV):
            return self.B.range_entries(self, v)
        if isinstance(v, Top):
            self.tops.append((self.live, "iteration over unknown: " + v.why, self.where()))
            self.fresh += 1
            return [(bdd.opaque(("iter", self.fresh)), Top(v.why))]
        if isinstance(v, Opaque):
            self.tops.append((self.live, "iteration over opaque " + v.name, self.where()))
            self.fresh += 1
            return [(bdd.opaque(("iter", self.fresh)), Top(v.name))]
        if isinstance(v, Cls):
            return self.B.class_entries(self, v)
        self.raise_(T, "TypeError", "%r object is not iterable" % (v,))

    def fixed_items(self, v, what="unpack"):
        """entries all present under live, else None"""
        e = self.entries(v)
        if any(g != T for g, _ in e):
            return None
        return [x for _, x in e]

    def unpack(self, v, n):
        """value -> Tup of n items"""
        if isinstance(v, Tup):
            if len(v.items) != n:
                self.raise_(T, "ValueError", "unpack: expected %d values, got %d" % (n, len(v.items)))
            return v
        if isinstance(v, Choice):
            return self.lift(lambda x: self.unpack(x, n), v)
        if isinstance(v, Top):
            return Tup([v] * n)
        if isinstance(v, NoneT) or isinstance(v, Num) or isinstance(v, BoolV):
            self.raise_(T, "TypeError", "cannot unpack non-iterable %r" % (v,))
        e = self.entries(v)
        if all(g == T for g, _ in e):
            if len(e) != n:
                self.raise_(T, "ValueError", "unpack: expected %d values, got %d" % (n, len(e)))
            return Tup([x for _, x in e])
        cg = count_guards(e)
        ok = cg[n] if n < len(cg) else F
        self.raise_(NOT(ok), "ValueError", "unpack: wrong number of values")
        rg = rank_guards(e, n)
        return Tup([merge([(rg[k][i], e[k][1]) for k in range(len(e)) if rg[k][i] != F]) for i in range(n)])

    # ---- variables
    def lookup(self, name):
        fr = self.frames[-1]
        f = fr
        first = True
        while f is not None:
            if f.names is None or name in f.names:
                if name in f.vars and not (first is False and f.selfcls):
                    v = f.vars[name]
                    v = prune(v, self.live)
                    if isinstance(v, Unbound):
                        if f.names is not None:
                            self.raise_(T, "UnboundLocalError", "local variable %s referenced before assignment" % name)
                    elif isinstance(v, Choice) and any(isinstance(x, Unbound) for _, x in v.alts):
                        for g, x in v.alts:
                            if isinstance(x, Unbound):
                                self.raise_(g, "UnboundLocalError", "local variable %s referenced before assignment" % name)
                        v = merge([(g, x) for g, x in v.alts if not isinstance(x, Unbound)])
                        return prune(v, self.live)
                    else:
                        return v
                elif f.names is not None and name in f.names and not f.selfcls and name not in f.globdecl:
                    self.raise_(T, "UnboundLocalError", "local variable %s referenced before assignment" % name)
            f = f.parent
            first = False
        g = fr.globals
        if g is not None and name in g:
            v = prune(g[name], self.live)
            if not isinstance(v, Unbound):
                return v
        if name in self.builtins:
            return self.builtins[name]
        self.raise_(T, "NameError", "name %s is not defined" % name)

    def store(self, name, val):
        fr = self.frames[-1]
        if name in fr.globdecl:
            old = fr.globals.get(name, UNBOUND)
            fr.globals[name] = self.gated(val, old)
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if f.names is not None and name in f.names:
                    f.vars[name] = self.gated(val, f.vars.get(name, UNBOUND))
                    return
                f = f.parent
        if fr.names is None and fr.vars is fr.globals:
            fr.vars[name] = self.gated(val, fr.vars.get(name, UNBOUND))
            return
        self.store_in(fr, name, val)

    def store_in(self, fr, name, val):
        L = self.live
        if L == fr.base or name not in fr.vars:
            if L == fr.base:
                fr.vars[name] = val
                return
        old = fr.vars.get(name, UNBOUND)
        # universe of guards under which this frame can still run
        if fr.keep:
            U = OR(fr.base, L)
        else:
            U = OR(L, *[c[0] for c in fr.pend], *[lp["brk"] for lp in fr.loops], *[lp["cont"] for lp in fr.loops])
        if U == L:
            fr.vars[name] = val
            return
        pairs = [(L, val)]
        nl = NOT(L)
        for g, x in alts(old):
            gg = AND(g, nl)
            if gg != F and AND(gg, U) != F:
                pairs.append((gg, x))
        fr.vars[name] = merge(pairs)

    def assign(self, target, val):
        if isinstance(target, ast.Name):
            self.store(target.id, val)
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.fixed_items(val)
                if items is None:
                    raise Unsupported("starred unpacking of a conditional list")
                k = star[0]
                tail = n - k - 1
                if len(items) < n - 1:
                    self.raise_(T, "ValueError", "not enough values to unpack")
                for e, x in zip(target.elts[:k], items[:k]):
                    self.assign(e, x)
                mid = items[k:len(items) - tail]
                self.assign(target.elts[k].value, Ref(ListObj([[T, x] for x in mid])))
                for e, x in zip(target.elts[k + 1:], items[len(items) - tail:]):
                    self.assign(e, x)
                return
            t = self.unpack(val, n)
            if isinstance(t, Top):
                t = Tup([t] * n)
            if isinstance(t, Choice):
                t = prune(t, self.live)
            for e, x in zip(target.elts, t.items):
                self.assign(e, x)
        elif isinstance(target, ast.Attribute):
            o = self.eval(target.value)
            self.setattr(o, target.attr, val)
        elif isinstance(target, ast.Subscript):
            o = self.eval(target.value)
            i = self.eval(target.slice)
            self.setitem(o, i, val)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, val)
        else:
            raise Unsupported("assignment target %s" % type(target).__name__)

    # ---- subscripts
    def const_index(self, i):
        if isinstance(i, BoolV) and i.b in (T, F):
            return 1 if i.b == T else 0
        if isinstance(i, Num):
            c = i.r.const
            if c is not None and Fraction(c).denominator == 1:
                return int(c)
        return None

    def getitem(self, o, i):
        if isinstance(o, Choice) or isinstance(i, Choice):
            return self.lift(self.getitem, o, i)
        if isinstance(i, BoolV) and i.b not in (T, F):
            return self.branch(i.b, lambda: self.getitem(o, num(1)), lambda: self.getitem(o, num(0))) \
                if not (isinstance(o, Ref) and isinstance(o.o, DictObj)) else \
                self.branch(i.b, lambda: self.getitem(o, TRUE), lambda: self.getitem(o, FALSE))
        if isinstance(o, Top):
            return self.top("item of unknown: " + o.why)
        if isinstance(o, TypeV):
            return o
        if isinstance(o, Cls):
            c, m = o.lookup("__class_getitem__")
            return o
        if isinstance(o, Opaque):
            return Opaque(o.name + "[]")
        if isinstance(o, Ref) and isinstance(o.o, Inst):
            c, m = o.o.cls.lookup("__getitem__")
            if m is None:
                self.raise_(T, "TypeError", "%s is not subscriptable" % o.o.cls.name)
            return self.call(self.bind(m, o, o.o.cls), [i], {})
        if isinstance(o, Ref) and isinstance(o.o, DictObj):
            return self.dict_get(o.o, i)
        if isinstance(i, SliceV):
            return self.B.get_slice(self, o, i)
        if isinstance(o, self.B.RangeV):
            return self.B.range_item(self, o, i)
        if isinstance(i, Top):
            return self.top("index unknown: " + i.why)
        k = self.const_index(i)
        if k is None:
            if isinstance(i, Num):
                return self.sym_index(o, i)
            self.raise_(T, "TypeError", "indices must be integers")
        if isinstance(i, Num) and i.kind in ("float", "dec"):
            self.raise_(T, "TypeError", "indices must be integers, not float")
        if isinstance(o, Tup):
            n = len(o.items)
            if not -n <= k < n:
                self.raise_(T, "IndexError", "tuple index out of range")
            return o.items[k]
        if isinstance(o, Str):
            if o.const is None:
                raise Unsupported("index into abstract string")
            if not -len(o.const) <= k < len(o.const):
                self.raise_(T, "IndexError", "string index out of range")
            return string(o.const[k])
        if isinstance(o, Ref) and isinstance(o.o, ListObj):
            if o.o.kind == "set":
                self.raise_(T, "TypeError", "set is not subscriptable")
            e = o.o.ents
            if all(x[0] == T for x in e):
                n = len(e)
                if not -n <= k < n:
                    self.raise_(T, "IndexError", "list index out of range")
                return prune(e[k][1], self.live)
            sel = self.select(e, k)
            ok = OR(*[g for g, _ in sel])
            self.raise_(NOT(ok), "IndexError", "list index out of range")
            return prune(merge([(g, e[j][1]) for g, j in sel]), self.live)
        self.raise_(T, "TypeError", "%r is not subscriptable" % (o,))

    def select(self, ents, k):
        """[(guard, position)] of the entry with rank k (negative from the end)"""
        L = self.live
        es = []
        for j, x in enumerate(ents):
            g = x[0]
            if g != T:
                if AND(L, g) == F or not bdd.feasible(AND(L, g)):
                    continue
                if AND(L, NOT(g)) == F:
                    g = T
            es.append((g, j))
        if k < 0:
            es.reverse()
            k = -k - 1
        rg = rank_guards(es, k)
        return [(rg[m][k], es[m][1]) for m in range(len(es)) if rg[m][k] != F and AND(rg[m][k], L) != F]

    def sym_index(self, o, i):
        """index by a symbolic integer: a choice over all positions"""
        e = self.entries(o)
        n = len(e)
        if any(g != T for g, _ in e):
            raise Unsupported("symbolic index into a conditional list")
        pairs = []
        ok = F
        for k in range(-n, n):
            g = eq0(i.r - k)
            if g != F:
                pairs.append((g, e[k][1]))
                ok = OR(ok, g)
        self.raise_(NOT(ok), "IndexError", "index out of range")
        return prune(merge(pairs), self.live)

    def setitem(self, o, i, val):
        if isinstance(o, Choice) or isinstance(i, Choice):
            self.lift(lambda a, b: (self.setitem(a, b, val), NONE)[1], o, i)
            return
        if isinstance(o, Ref):
            ob = o.o
            if isinstance(ob, Inst):
                c, m = ob.cls.lookup("__setitem__")
                if m is None:
                    self.raise_(T, "TypeError", "object does not support item assignment")
                self.call(self.bind(m, o, ob.cls), [i, val], {})
                return
            if isinstance(ob, DictObj):
                k = self.hkey(i)
                self.note_write(ob, "item")
                e = ob.ents.get(k)
                if self._symkey(k) or any(self._symkey(x) for x in ob.ents):
                    # may be the same key as another one
                    L, rest = self.live, self.live
                    for ent in list(ob.ents.values()):
                        g = AND(rest, ent[0], self.equal(ent[1], i))
                        if g != F:
                            self.live = g
                            ent[2] = self.gated(val, ent[2], ob)
                            rest = AND(rest, NOT(g))
                    if rest != F:
                        self.live = rest
                        while k in ob.ents:
                            k = k + ("again",)
                        ob.ents[k] = [self.relguard(ob.birth), i, val]
                    self.live = L
                    return
                if e is None:
                    ob.ents[k] = [self.relguard(ob.birth), i, val]
                else:
                    e[2] = self.gated(val, e[2], ob)
                    e[0] = OR(e[0], self.relguard(ob.birth))
                return
            if isinstance(ob, ListObj) and ob.kind in ("list", "deque"):
                if isinstance(i, SliceV):
                    self.B.set_slice(self, ob, i, val)
                    return
                k = self.const_index(i)
                if k is None:
                    if isinstance(i, Num):
                        n = len(ob.ents)
                        for j in range(n):
                            g = eq0(i.r - j)
                            if AND(self.live, g) != F:
                                ob.ents[j][1] = ite(AND(self.live, g), val, ob.ents[j][1])
                        self.note_write(ob, "item")
                        return
                    raise Unsupported("item assignment index %r" % (i,))
                self.note_write(ob, "item")
                if all(x[0] == T for x in ob.ents):
                    n = len(ob.ents)
                    if not -n <= k < n:
                        self.raise_(T, "IndexError", "list assignment index out of range")
                    ob.ents[k][1] = self.gated(val, ob.ents[k][1], ob)
                    return
                sel = self.select(ob.ents, k)
                ok = OR(*[g for g, _ in sel])
                self.raise_(NOT(ok), "IndexError", "list assignment index out of range")
                for g, j in sel:
                    gg = AND(self.live, g)
                    ob.ents[j][1] = ite(gg, val, ob.ents[j][1])
                return
        if isinstance(o, (Opaque, Top)):
            return
        self.raise_(T, "TypeError", "%r does not support item assignment" % (o,))

    def delitem(self, o, i):
        if isinstance(o, Choice) or isinstance(i, Choice):
            self.lift(lambda a, b: (self.delitem(a, b), NONE)[1], o, i)
            return
        if isinstance(o, Ref):
            ob = o.o
            if isinstance(ob, Inst):
                c, m = ob.cls.lookup("__delitem__")
                if m is not None:
                    self.call(self.bind(m, o, ob.cls), [i], {})
                    return
            if isinstance(ob, DictObj):
                k = self.hkey(i)
                e = ob.ents.get(k)
                self.raise_(NOT(e[0]) if e else T, "KeyError", "key")
                self.note_write(ob, "item")
                e[0] = AND(e[0], NOT(self.live))
                if e[0] == F:
                    del ob.ents[k]
                return
            if isinstance(ob, ListObj):
                if isinstance(i, SliceV):
                    self.B.del_slice(self, ob, i)
                    return
                k = self.const_index(i)
                if k is None:
                    raise Unsupported("del with symbolic index")
                sel = self.select(ob.ents, k)
                ok = OR(*[g for g, _ in sel])
                self.raise_(NOT(ok), "IndexError", "list assignment index out of range")
                self.note_write(ob, "del")
                for g, j in sel:
                    e = ob.ents[j]
                    ob.ents[j] = [AND(e[0], NOT(AND(self.live, g))), e[1]]
                ob.ents = [e for e in ob.ents if e[0] != F]
                return
        self.raise_(T, "TypeError", "object doesn't support item deletion")

    def hkey(self, i):
        if isinstance(i, Num):
            c = i.r.const
            if c is not None:
                return ("n", Fraction(c))
            return ("r", i.r)
        if isinstance(i, BoolV) and i.b in (T, F):
            return ("n", Fraction(1 if i.b == T else 0))
        if isinstance(i, Str):
            if i.const is not None:
                return ("s", i.const)
            return ("S",) + i.key()
        if isinstance(i, NoneT):
            return ("none",)
        if isinstance(i, Tup):
            return ("t",) + tuple(self.hkey(x) for x in i.items)
        if isinstance(i, (Cls, TypeV, Func, Builtin)):
            return ("o", i.key())
        if isinstance(i, Ref) and isinstance(i.o, Inst):
            return ("o", id(i.o))
        if isinstance(i, Ref):
            self.raise_(T, "TypeError", "unhashable type")
        raise Unsupported("dictionary key %r" % (i,))

    def _symkey(self, k):
        return k[0] in ("r", "S") or (k[0] == "t" and any(self._symkey(x) for x in k[1:]))

    def dict_find(self, d, i):
        """[(guard, entry)] of possible matches"""
        k = self.hkey(i)
        e = d.ents.get(k)
        if not self._symkey(k) and not any(self._symkey(x) for x in d.ents):
            return [(e[0], e)] if e is not None else []
        out = []
        none = T
        for ent in d.ents.values():
            g = AND(none, ent[0], self.equal(ent[1], i))
            if g != F:
                out.append((g, ent))
                none = AND(none, NOT(g))
        return out

    def dict_get(self, d, i):
        f = self.dict_find(d, i)
        ok = OR(*[g for g, _ in f]) if f else F
        if d.default is not None and AND(self.live, NOT(ok)) != F:
            dv = self.call(d.default, [], {})
            self.note_write(d, "item")
            k = self.hkey(i)
            if k in d.ents:
                d.ents[k][2] = ite(AND(self.live, NOT(ok)), dv, d.ents[k][2])
                d.ents[k][0] = OR(d.ents[k][0], self.live)
            else:
                d.ents[k] = [self.live, i, dv]
            f = self.dict_find(d, i)
        else:
            self.raise_(NOT(ok), "KeyError", "%r" % (i,))
        return prune(merge([(g, e[2]) for g, e in f]), self.live)

    # ---- comparison
    def equal(self, a, b):
        """guard under which a == b"""
        if a is b and not isinstance(a, NanV):
            return T
        if isinstance(a, Choice) or isinstance(b, Choice):
            acc = F
            for g, x in alts(a):
                for h, y in alts(b):
                    gg = AND(g, h)
                    if gg != F and AND(gg, self.live) != F:
                        acc = OR(acc, AND(gg, self.equal(x, y)))
            return acc
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return NOT(bdd.XOR(a.b, b.b))
        if isinstance(a, BoolV) and isinstance(b, Num):
            a, b = b, a
        if isinstance(a, Num) and isinstance(b, BoolV):
            return OR(AND(b.b, eq0(a.r - 1)), AND(NOT(b.b), eq0(a.r)))
        if isinstance(a, Num) and isinstance(b, Num):
            return eq0(a.r - b.r)
        if isinstance(a, Cplx) and isinstance(b, Cplx):
            return AND(self.equal(a.re, b.re), self.equal(a.im, b.im))
        if isinstance(a, NanV) or isinstance(b, NanV):
            return F
        if isinstance(a, InfV) and isinstance(b, InfV):
            return T if a.s == b.s else F
        if isinstance(a, Top) or isinstance(b, Top):
            self.fresh += 1
            self.tops.append((self.live, "comparison with unknown", self.where()))
            return bdd.opaque(("top", self.fresh))
        if isinstance(a, Str) and isinstance(b, Str):
            if a.const is not None and b.const is not None:
                return T if a.const == b.const else F
            if a.key() == b.key():
                return T
            return self.B.str_equal(self, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(x.o, Inst):
                c, m = x.o.cls.lookup("__eq__")
                if m is not None:
                    r = self.call(self.bind(m, x, x.o.cls), [y], {})
                    return self.truth(r)
        sa, sb = self.seqview(a), self.seqview(b)
        if sa is not None and sb is not None:
            ka, ea = sa
            kb, eb = sb
            if ka != kb:
                return F
            if ka == "set":
                return AND(*[OR(NOT(g), OR(*[AND(h, self.equal(x, y)) for h, y in eb])) for g, x in ea],
                           *[OR(NOT(g), OR(*[AND(h, self.equal(x, y)) for h, y in ea])) for g, x in eb])
            if all(g == T for g, _ in ea) and all(g == T for g, _ in eb):
                if len(ea) != len(eb):
                    return F
                acc = T
                for (_, x), (_, y) in zip(ea, eb):
                    acc = AND(acc, self.equal(x, y))
                    if acc == F:
                        break
                return acc
            acc = F
            ca, cb = count_guards(ea), count_guards(eb)
            for n in range(min(len(ca), len(cb))):
                g = AND(ca[n], cb[n])
                if g == F:
                    continue
                ra, rb = rank_guards(ea, n), rank_guards(eb, n)
                for i in range(n):
                    m = F
                    for p, (_, x) in enumerate(ea):
                        for q, (_, y) in enumerate(eb):
                            h = AND(ra[p][i], rb[q][i])
                            if h != F:
                                m = OR(m, AND(h, self.equal(x, y)))
                    g = AND(g, m)
                acc = OR(acc, g)
            return acc
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.o is b.o:
                return T
            if isinstance(a.o, DictObj) and isinstance(b.o, DictObj):
                if set(a.o.ents) != set(b.o.ents):
                    return F
                return AND(*[self.equal(a.o.ents[k][2], b.o.ents[k][2]) for k in a.o.ents])
            return F
        if isinstance(a, self.B.RangeV) and isinstance(b, self.B.RangeV):
            return T if a.key() == b.key() else F
        if type(a) is type(b) and a.key() == b.key():
            return T
        return F

    def seqview(self, v):
        if isinstance(v, Tup):
            return "tuple", [(T, x) for x in v.items]
        if isinstance(v, Ref) and isinstance(v.o, ListObj):
            return v.o.kind, ents_simplify([(g, x) for g, x in v.o.ents], self.live)
        return None

    def less(self, a, b, strict=True):
        """guard of a < b (or <=)"""
        if isinstance(a, BoolV):
            a = ite(a.b, num(1), num(0))
        if isinstance(b, BoolV):
            b = ite(b.b, num(1), num(0))
        if isinstance(a, Choice) or isinstance(b, Choice):
            r = self.lift(lambda x, y: boolv(self.less(x, y, strict)), a, b)
            return prune(r, self.live).b
        if isinstance(a, Num) and isinstance(b, Num):
            return gt0(b.r - a.r) if strict else NOT(gt0(a.r - b.r))
        if isinstance(a, NanV) or isinstance(b, NanV):
            if isinstance(a, (Num, InfV, NanV)) and isinstance(b, (Num, InfV, NanV)):
                return F
        if isinstance(a, InfV) and isinstance(b, (Num, InfV)) or isinstance(b, InfV) and isinstance(a, Num):
            x = a.s if isinstance(a, InfV) else 0
            y = b.s if isinstance(b, InfV) else 0
            return T if (x < y or (x == y and not strict)) else F
        if isinstance(a, Top) or isinstance(b, Top):
            self.fresh += 1
            self.tops.append((self.live, "comparison with unknown", self.where()))
            return bdd.opaque(("top", self.fresh))
        if isinstance(a, Str) and isinstance(b, Str) and a.const is not None and b.const is not None:
            return T if (a.const < b.const or (not strict and a.const == b.const)) else F
        sa, sb = self.seqview(a), self.seqview(b)
        if sa and sb and sa[0] == sb[0] and sa[0] in ("tuple", "list"):
            ea, eb = sa[1], sb[1]
            if all(g == T for g, _ in ea + eb):
                acc = T if (len(ea) < len(eb) or (len(ea) == len(eb) and not strict)) else F
                for (_, x), (_, y) in reversed(list(zip(ea, eb))):
                    e = self.equal(x, y)
                    acc = bdd.ite(e, acc, self.less(x, y, True) if e != T else F)
                return acc
        nm = ("__lt__", "__gt__") if strict else ("__le__", "__ge__")
        for x, y, n in ((a, b, nm[0]), (b, a, nm[1])):
            if isinstance(x, Ref) and isinstance(x.o, Inst):
                c, m = x.o.cls.lookup(n)
                if m is not None:
                    return self.truth(self.call(self.bind(m, x, x.o.cls), [y], {}))
        self.raise_(T, "TypeError", "'<' not supported between %r and %r" % (a, b))

    def contains(self, x, c):
        if isinstance(c, Choice):
            return prune(self.lift(lambda y: boolv(self.contains(x, y)), c), self.live).b
        if isinstance(c, Ref) and isinstance(c.o, DictObj):
            f = self.lift(lambda k: boolv(OR(*[g for g, _ in self.dict_find(c.o, k)])), x)
            return prune(f, self.live).b
        if isinstance(c, Ref) and isinstance(c.o, Inst):
            k, m = c.o.cls.lookup("__contains__")
            if m is not None:
                return self.truth(self.call(self.bind(m, c, c.o.cls), [x], {}))
        if isinstance(c, Str):
            if isinstance(x, Str) and x.const is not None and c.const is not None:
                return T if x.const in c.const else F
            raise Unsupported("substring test on abstract strings")
        if isinstance(c, self.B.RangeV):
            e = self.entries(c)
        else:
            e = self.entries(c)
        acc = F
        for g, y in e:
            acc = OR(acc, AND(g, self.equal(x, y)))
            if acc == T:
                break
        return acc

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            return NOT(r) if isinstance(op, ast.NotEq) else r
        if isinstance(op, ast.Lt):
            return self.less(a, b)
        if isinstance(op, ast.LtE):
            return self.less(a, b, False)
        if isinstance(op, ast.Gt):
            return self.less(b, a)
        if isinstance(op, ast.GtE):
            return self.less(b, a, False)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return NOT(r) if isinstance(op, ast.IsNot) else r
        r = self.contains(a, b)
        return NOT(r) if isinstance(op, ast.NotIn) else r

    def identical(self, a, b):
        if isinstance(a, Choice) or isinstance(b, Choice):
            acc = F
            for g, x in alts(a):
                for h, y in alts(b):
                    gg = AND(g, h)
                    if gg != F:
                        acc = OR(acc, AND(gg, self.identical(x, y)))
            return acc
        if isinstance(a, Top) or isinstance(b, Top):
            self.fresh += 1
            return bdd.opaque(("top", self.fresh))
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return NOT(bdd.XOR(a.b, b.b))
        if type(a) is not type(b):
            return F
        if isinstance(a, Ref):
            return T if a.o is b.o else F
        if isinstance(a, Num):
            return eq0(a.r - b.r)
        return T if a.key() == b.key() else F

    # ---- arithmetic
    def binop(self, op, a, b, inplace=False):
        if isinstance(a, Num) and isinstance(b, Num):
            return self.B.num_binop(self, op, a, b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.lift(lambda x, y: self.binop(op, x, y, inplace), a, b)
        return self.B.binop(self, op, a, b, inplace)

    # ---- expressions
    def eval(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (type(n).__name__, self.where(n)))
        self.node = n
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget()
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            if v != v:
                return NAN
            if v in (float("inf"), float("-inf")):
                return INF if v > 0 else NINF
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return TypeV("...")
        if isinstance(v, complex):
            return Cplx(num(v.real), num(v.imag))
        if isinstance(v, bytes):
            return Opaque("bytes")
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_Attribute(self, n):
        o = self.eval(n.value)
        self.node = n
        return self.getattr(o, n.attr)

    def e_Subscript(self, n):
        o = self.eval(n.value)
        if isinstance(o, TypeV):
            return o
        i = self.eval(n.slice)
        self.node = n
        return self.getitem(o, i)

    def e_Slice(self, n):
        return SliceV(self.eval(n.lower) if n.lower else NONE, self.eval(n.upper) if n.upper else NONE,
                      self.eval(n.step) if n.step else NONE)

    def e_Tuple(self, n):
        return self.tuple_of(self.elts(n.elts))

    def tuple_of(self, ents):
        if all(g == T for g, _ in ents):
            return Tup([x for _, x in ents])
        return Ref(ListObj([[g, x] for g, x in ents], "tuple"))

    def elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                out.extend(self.entries(v))
            else:
                out.append((T, self.eval(e)))
        return out

    def e_List(self, n):
        return Ref(ListObj([[g, x] for g, x in self.elts(n.elts)]))

    def e_Set(self, n):
        return self.B.make_set(self, self.elts(n.elts))

    def e_Dict(self, n):
        d = DictObj()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v)
                if isinstance(src, Ref) and isinstance(src.o, DictObj):
                    for hk, e in src.o.ents.items():
                        if hk in d.ents:
                            d.ents[hk] = [OR(e[0], d.ents[hk][0]), e[1], ite(e[0], e[2], d.ents[hk][2])]
                        else:
                            d.ents[hk] = list(e)
                    continue
                raise Unsupported("dict unpacking")
            kv = self.eval(k)
            vv = self.eval(v)
            d.ents[self.hkey(kv)] = [T, kv, vv]
        return Ref(d)

    def e_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value)
                spec = ""
                if p.format_spec is not None:
                    s = self.eval(p.format_spec)
                    spec = s.const if isinstance(s, Str) and s.const is not None else "?"
                parts.extend(self.B.format_parts(self, v, p.conversion, spec))
        return mkstr(parts)

    def e_FormattedValue(self, n):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]))

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        self.node = n
        return self.binop(n.op, a, b)

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        self.node = n
        if isinstance(n.op, ast.Not):
            return boolv(NOT(self.truth(v)))
        return self.B.unop(self, n.op, v)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.eval(n.values[i])
            if i == len(n.values) - 1:
                return v
            c = self.truth(v)
            if isinstance(v, Choice):
                v = prune(v, self.live)
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: self.falsy(v))
            return self.branch(c, lambda: self.truthy(v), lambda: go(i + 1))
        return go(0)

    def falsy(self, v):
        if isinstance(v, BoolV):
            return FALSE
        return prune(v, self.live)

    def truthy(self, v):
        if isinstance(v, BoolV):
            return TRUE
        return prune(v, self.live)

    def e_Compare(self, n):
        left = self.eval(n.left)

        def go(i, left):
            right = self.eval(n.comparators[i])
            self.node = n
            c = self.compare(n.ops[i], left, right)
            if i == len(n.ops) - 1:
                return boolv(c)
            return self.branch(c, lambda: go(i + 1, right), lambda: FALSE)
        return go(0, left)

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        return self.branch(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        fr = self.frames[-1]
        if getattr(fr, "comp", False):
            f = fr
            while getattr(f, "comp", False):
                f = f.parent
            save = self.frames
            f.vars[n.target.id] = self.gated(v, f.vars.get(n.target.id, UNBOUND))
        else:
            self.store(n.target.id, v)
        return v

    def e_Lambda(self, n):
        fr = self.frames[-1]
        return self.make_func(n, "<lambda>")

    def make_func(self, n, name):
        fr = self.frames[-1]
        defaults = [self.eval(d) for d in n.args.defaults]
        kwd = [self.eval(d) if d is not None else None for d in n.args.kw_defaults]
        parent = fr
        while parent is not None and parent.selfcls:
            parent = parent.parent
        if parent is not None and parent.vars is parent.globals:
            parent = None
        prefix = fr.selfcls or (fr.func.qual + ".<locals>." if fr.func else fr.module.name + ".")
        f = Func(n, parent, fr.module, name, defaults, kwd, prefix + name)
        return f

    def e_Starred(self, n):
        raise Unsupported("starred expression")

    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = self.frames[-1]
            while getattr(fr, "comp", False):
                fr = fr.parent
            f = fr.func
            a = f.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return Super(f.owner, fr.vars[first])
        fv = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                if isinstance(v, Choice):
                    v = prune(v, self.live)
                for g, x in self.entries(v):
                    args.append(x if g == T else GuardedArg(g, x))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(v.o, DictObj):
                    for e in v.o.ents.values():
                        if e[0] != T and AND(self.live, NOT(e[0])) != F:
                            raise Unsupported("conditional keyword argument")
                        kwargs[e[1].const] = e[2]
                    continue
                raise Unsupported("** of non dict")
            kwargs[k.arg] = v
        self.node = n
        if any(isinstance(x, GuardedArg) for x in args) and isinstance(fv, (Func, Bound, Cls)):
            return self.call_guarded(fv, args, kwargs, n)
        return self.call(fv, args, kwargs, n)

    def call_guarded(self, fv, args, kwargs, n):
        """positional arguments that are only conditionally present"""
        f = fv
        off = 0
        if isinstance(f, Cls):
            c, m = f.lookup("__init__")
            f = m
            off = 1
        elif isinstance(f, Bound):
            f = f.func
            off = 1
        if isinstance(f, Func) and f.node.args.vararg is not None:
            npos = len(f.node.args.posonlyargs + f.node.args.args)
            first = next(i for i, x in enumerate(args) if isinstance(x, GuardedArg))
            if first + off >= npos:
                return self.call(fv, args, kwargs, n)
        # split on the presence of each
        i = next(i for i, x in enumerate(args) if isinstance(x, GuardedArg))
        x = args[i]
        if sum(isinstance(y, GuardedArg) for y in args) > 6:
            raise Unsupported("too many conditional arguments")
        return self.branch(x.g, lambda: self.recall(fv, args[:i] + [x.v] + args[i + 1:], kwargs, n),
                           lambda: self.recall(fv, args[:i] + args[i + 1:], kwargs, n))

    def recall(self, fv, args, kwargs, n):
        if any(isinstance(x, GuardedArg) for x in args):
            return self.call_guarded(fv, args, kwargs, n)
        return self.call(fv, args, kwargs, n)

    # comprehensions
    def comp(self, n, emit):
        fr0 = self.frames[-1]
        fr = Frame(fr0.module, fr0, self.live, set(), fr0.globals)
        fr.comp = True
        fr.func = fr0.func
        for g in n.generators:
            s = _Scope()
            s.visit(g.target)
            fr.names |= s.assigned
        first = self.eval(n.generators[0].iter)

        def run(i, it):
            gen = n.generators[i]
            L0 = self.live
            done = F
            for g, x in self.entries(it):
                Lb = self.live
                Li = AND(Lb, g)
                if Li == F:
                    continue
                self.live = Li
                cell = [AND(Lb, NOT(g))]
                fr.pend.append(cell)
                out = F
                try:
                    self.assign(gen.target, x)
                    for c in gen.ifs:
                        t = self.truth(self.eval(c))
                        rej = AND(self.live, NOT(t))
                        out = OR(out, rej)
                        self.live = AND(self.live, t)
                        if self.live == F or not bdd.feasible(self.live):
                            self.live = F
                            raise Dead()
                    cell[0] = OR(cell[0], out)
                    if i + 1 < len(n.generators):
                        run(i + 1, self.eval(n.generators[i + 1].iter))
                    else:
                        emit()
                except Dead:
                    self.live = F
                fr.pend.pop()
                self.live = OR(self.live, out, AND(Lb, NOT(g)))
            if self.live == F:
                raise Dead()
        self.frames.append(fr)
        # the comprehension frame shares 'live'; its locals are rebound on every element
        try:
            run(0, first)
        finally:
            self.frames.pop()

    def e_ListComp(self, n):
        L = self.live
        out = []

        def emit():
            v = self.eval(n.elt)
            out.append([self.relguard(L), v])
        self.comp(n, emit)
        return Ref(ListObj(out))

    def relguard(self, L):
        """current guard relative to the guard L that was live when the container was created"""
        g = self.live
        if g == L:
            return T
        # drop conjuncts already in L
        if L == T:
            return g
        return bdd.constrain(g, L)

    def e_GeneratorExp(self, n):
        L = self.live
        out = []

        def emit():
            v = self.eval(n.elt)
            out.append((self.relguard(L), v))
        self.comp(n, emit)
        return Ref(IterObj(out))

    def e_SetComp(self, n):
        L = self.live
        out = []

        def emit():
            v = self.eval(n.elt)
            out.append((self.relguard(L), v))
        self.comp(n, emit)
        return self.B.make_set(self, out)

    def e_DictComp(self, n):
        L = self.live
        d = DictObj()

        def emit():
            k = self.eval(n.key)
            v = self.eval(n.value)
            hk = self.hkey(k)
            g = self.relguard(L)
            if hk in d.ents:
                d.ents[hk] = [OR(g, d.ents[hk][0]), k, ite(g, v, d.ents[hk][2])]
            else:
                d.ents[hk] = [g, k, v]
        self.comp(n, emit)
        return Ref(d)

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value else NONE
        fr = self.frames[-1]
        if fr.yield_hook is not None:
            return fr.yield_hook(v)
        fr.yields.append((self.relguard(fr.base), v))
        return NONE

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        fr = self.frames[-1]
        b = self.relguard(fr.base)
        for g, x in self.entries(v):
            fr.yields.append((AND(b, g), x))
        return NONE

    # ---- statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.live == F:
                return
            try:
                self.exec(s)
            except Dead:
                self.live = F

    def exec(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(s).__name__, self.where(s)))
        self.node = s
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.node = s
            self.assign(t, v)

    def s_AnnAssign(self, s):
        fr = self.frames[-1]
        if fr.selfcls and isinstance(s.target, ast.Name):
            fr.vars.setdefault("__annotations__", []).append((s.target.id, s.value is not None))
        if s.value is not None:
            v = self.eval(s.value)
            self.node = s
            self.assign(s.target, v)

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            v = self.eval(s.value)
            self.node = s
            self.store(t.id, self.binop(s.op, old, v, True))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.getattr(o, t.attr)
            v = self.eval(s.value)
            self.node = s
            self.setattr(o, t.attr, self.binop(s.op, old, v, True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval(t.slice)
            old = self.getitem(o, i)
            v = self.eval(s.value)
            self.node = s
            self.setitem(o, i, self.binop(s.op, old, v, True))
        else:
            raise Unsupported("augmented assignment")

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        fr = self.frames[-1]
        fr.ret.append((self.live, v))
        self.live = F

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        L = self.live
        a = AND(L, c)
        b = AND(L, NOT(c))
        if b == F or not bdd.feasible(b):
            if b == F:
                self.live = a
            self.exec_block(s.body)
            return
        if a == F or not bdd.feasible(a):
            if a == F:
                self.live = b
            self.exec_block(s.orelse)
            return
        self.undecided += 1
        fr = self.frames[-1]
        cell = [b]
        fr.pend.append(cell)
        self.live = a
        self.exec_block(s.body)
        la = self.live
        cell[0] = la
        self.live = b
        self.exec_block(s.orelse)
        fr.pend.pop()
        self.live = OR(la, self.live)

    def loop_push(self):
        fr = self.frames[-1]
        lp = {"brk": F, "cont": F}
        fr.loops.append(lp)
        return fr, lp

    def s_For(self, s):
        it = self.eval(s.iter)
        self.node = s
        src = None
        if isinstance(it, Ref) and isinstance(it.o, ListObj) and it.o.kind == "list":
            src = it.o
        ents = self.entries(it)
        fr, lp = self.loop_push()
        cell = [F]
        fr.pend.append(cell)
        try:
            idx = 0
            count = 0
            while idx < len(ents):
                g, x = ents[idx]
                idx += 1
                if self.live == F:
                    break
                Lb = self.live
                Li = AND(Lb, g)
                if Li == F:
                    continue
                skip = AND(Lb, NOT(g))
                cell[0] = OR(lp["brk"], skip)
                self.live = Li
                lp["cont"] = F
                nb = len(src.ents) if src is not None else 0
                try:
                    self.assign(s.target, x)
                    self.exec_block(s.body)
                except Dead:
                    self.live = F
                self.live = OR(self.live, lp["cont"], skip)
                if src is not None and len(src.ents) != nb:
                    # the list is extended while being iterated over
                    if len(src.ents) > nb and idx < 200:
                        ents = ents + [(g2, x2) for g2, x2 in src.ents[nb:]]
                    else:
                        raise Unsupported("list shrinks during iteration")
        finally:
            fr.pend.pop()
            fr.loops.pop()
        if s.orelse and self.live != F:
            cell = [lp["brk"]]
            fr.pend.append(cell)
            self.exec_block(s.orelse)
            fr.pend.pop()
        self.live = OR(self.live, lp["brk"])

    def s_While(self, s):
        fr, lp = self.loop_push()
        cell = [F]
        fr.pend.append(cell)
        done = F
        iters = 0
        undec = 0
        try:
            while self.live != F:
                self.node = s
                L0 = self.live
                try:
                    c = self.truth(self.eval(s.test))
                except Dead:
                    self.live = F
                    break
                L = self.live
                a = AND(L, c)
                b = AND(L, NOT(c))
                if b != F and not bdd.feasible(b):
                    b = F
                    a = L
                if a == F or not bdd.feasible(a):
                    done = OR(done, L)
                    self.live = F
                    break
                if b != F:
                    undec += 1
                done = OR(done, b)
                iters += 1
                if undec > self.unroll or iters > 3000:
                    self.havoc_loop(s, fr, a)
                    done = OR(done, a)
                    self.live = F
                    break
                cell[0] = OR(done, lp["brk"])
                lp["cont"] = F
                self.live = a
                self.exec_block(s.body)
                self.live = OR(self.live, lp["cont"])
        finally:
            fr.pend.pop()
            fr.loops.pop()
        self.live = done
        if s.orelse and self.live != F:
            cell = [lp["brk"]]
            fr.pend.append(cell)
            self.exec_block(s.orelse)
            fr.pend.pop()
        self.live = OR(self.live, lp["brk"])

    def havoc_loop(self, s, fr, g):
        """unbounded loop: forget everything the body assigns"""
        self.tops.append((g, "loop not bounded by the analysis", self.where(s)))
        save = self.live
        self.live = g
        for nm in assigned_in(s.body):
            if nm in fr.vars:
                fr.vars[nm] = ite(g, Top("loop"), fr.vars[nm])
        old, self.mutlog = self.mutlog, []
        # one more pass to learn which heap locations the body writes
        try:
            self.exec_block(s.body)
        except Unsupported:
            pass
        log, self.mutlog = self.mutlog, old
        for o, what in log:
            if old is not None:
                old.append((o, what))
            if isinstance(o, Inst):
                o.attrs[what] = ite(g, Top("loop"), o.attrs[what])
            elif isinstance(o, (ListObj, IterObj)):
                self.fresh += 1
                o.ents.append([AND(g, bdd.opaque(("havoc", self.fresh))), Top("loop")])
        self.live = save

    def s_Break(self, s):
        lp = self.frames[-1].loops[-1]
        lp["brk"] = OR(lp["brk"], self.live)
        self.live = F

    def s_Continue(self, s):
        lp = self.frames[-1].loops[-1]
        lp["cont"] = OR(lp["cont"], self.live)
        self.live = F

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if cur:
                for g, e in cur[-1]:
                    gg = AND(g, self.live)
                    if gg != F:
                        self.exc[-1].append((gg, e))
                self.live = F
                return
            self.raise_(T, "RuntimeError", "no active exception")
        v = self.eval(s.exc)
        if s.cause is not None:
            self.eval(s.cause)
        self.node = s

        def go(x):
            if isinstance(x, Cls):
                x = self.instantiate(x, [], {})
            if isinstance(x, Ref) and isinstance(x.o, Inst):
                self.raise_obj(x.o)
            if isinstance(x, (Top, Opaque)):
                self.raise_(T, "Exception", "unknown exception")
            self.raise_(T, "TypeError", "exceptions must derive from BaseException")
        self.lift(go, v)

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        self.raise_(NOT(c), "AssertionError", "", s)

    def exc_match(self, e, t):
        """does exception instance e match handler type value t"""
        if t is None:
            return True
        if isinstance(t, Tup):
            return any(self.exc_match(e, x) for x in t.items)
        if isinstance(t, Cls):
            return t in e.cls.mro
        if isinstance(t, (Opaque, Top)):
            return False
        raise Unsupported("except clause %r" % (t,))

    def s_Try(self, s):
        fr = self.frames[-1]
        if s.finalbody:
            fr.keep += 1
        brk0 = [(lp, lp["brk"], lp["cont"]) for lp in fr.loops]
        self.exc.append([])          # everything escaping the try statement (before finally)
        nret = len(fr.ret)
        cell = [F]
        fr.pend.append(cell)
        self.exc.append([])
        # inside the body control may resume in a handler: keep everything live at entry alive
        L0 = self.live
        cell[0] = L0
        self.exec_block(s.body)
        normal = self.live
        raised = self.exc.pop()
        cell[0] = normal
        after = F
        if s.orelse:
            self.live = normal
            cell[0] = OR(*[g for g, _ in raised]) if raised else F
            self.exec_block(s.orelse)
            normal = self.live
        after = normal
        rest = raised
        for h in s.handlers:
            if not rest:
                break
            self.live = OR(*[g for g, _ in rest])
            t = self.eval(h.type) if h.type is not None else None
            mine = [(g, e) for g, e in rest if self.exc_match(e, t)]
            rest = [(g, e) for g, e in rest if not self.exc_match(e, t)]
            if not mine:
                continue
            self.live = OR(*[g for g, _ in mine])
            cell[0] = OR(after, *[g for g, _ in rest])
            if h.name:
                self.store(h.name, merge([(g, Ref(e)) for g, e in mine]))
            if not hasattr(self, "handling"):
                self.handling = []
            self.handling.append(mine)
            self.exec_block(h.body)
            self.handling.pop()
            after = OR(after, self.live)
        fr.pend.pop()
        esc = self.exc.pop() + rest
        if s.finalbody:
            # returns, breaks and continues that leave the statement run the final block too
            rets = OR(*[g for g, _ in fr.ret[nret:]]) if len(fr.ret) > nret else F
            loops = F
            for lp, b, c in brk0:
                loops = OR(loops, AND(lp["brk"], NOT(b)), AND(lp["cont"], NOT(c)))
            escg = OR(*[g for g, _ in esc]) if esc else F
            total = OR(after, rets, loops, escg)
            if total != F:
                self.live = total
                self.exec_block(s.finalbody)
                fin = self.live
                if fin != total:
                    keep = fin
                    fr.ret[nret:] = [(AND(g, keep), v) if i < 10 ** 9 else (g, v) for i, (g, v) in enumerate(fr.ret[nret:])] \
                        if rets == F else fr.ret[nret:]
                    esc = [(AND(g, keep), e) for g, e in esc if AND(g, keep) != F]
                    after = AND(after, keep)
        if s.finalbody:
            fr.keep -= 1
        self.exc[-1].extend(esc)
        self.live = after

    s_TryStar = s_Try

    def s_With(self, s):
        self.with_items(s.items, s.body)

    def with_items(self, items, body):
        if not items:
            self.exec_block(body)
            return
        it = items[0]
        cm = self.eval(it.context_expr)

        def inner(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            self.with_items(items[1:], body)
        if isinstance(cm, self.B.CtxV):
            # generator-based context manager: run its body with the with-block at the yield
            f, args, kwargs = cm.f, cm.args, cm.kwargs
            outer = self.frames[-1]

            def hook(v):
                gf = self.frames.pop()
                try:
                    inner(v)
                finally:
                    self.frames.append(gf)
                if self.live == F:
                    raise Dead()
                return NONE
            sc = scope_of(f.node)
            fr = Frame(f.module, f.frame, self.live, sc.assigned, f.module.ns)
            fr.nonlocals, fr.globdecl = sc.nonl, sc.globs
            fr.func = f
            self.bind_args(f, fr, args, kwargs)
            fr.yield_hook = hook
            ret0 = len(outer.ret)
            self.frames.append(fr)
            try:
                self.exec_block(f.node.body)
            finally:
                self.frames.pop()
            self.live = OR(self.live, *[g for g, _ in fr.ret])
            return
        if isinstance(cm, (Opaque, Top)):
            inner(cm)
            return
        ent = self.getattr(cm, "__enter__")
        v = self.call(ent, [], {})
        fr = self.frames[-1]
        nret = len(fr.ret)
        brk0 = [(lp, lp["brk"], lp["cont"]) for lp in fr.loops]
        self.exc.append([])
        cell = [self.live]
        fr.pend.append(cell)
        try:
            inner(v)
        except Dead:
            self.live = F
        fr.pend.pop()
        after = self.live
        esc = self.exc.pop()
        rets = OR(*[g for g, _ in fr.ret[nret:]]) if len(fr.ret) > nret else F
        loops = F
        for lp, b, c in brk0:
            loops = OR(loops, AND(lp["brk"], NOT(b)), AND(lp["cont"], NOT(c)))
        norm = OR(after, rets, loops)
        if norm != F:
            self.live = norm
            try:
                self.call(self.getattr(cm, "__exit__"), [NONE, NONE, NONE], {})
            except Dead:
                self.live = F
        for g, e in esc:
            self.live = g
            try:
                r = self.call(self.getattr(cm, "__exit__"), [e.cls, Ref(e), NONE], {})
                t = self.truth(r)
            except Dead:
                t = F
                continue
            sup = AND(g, t)
            if sup != F:
                after = OR(after, sup)
            if AND(g, NOT(t)) != F:
                self.exc[-1].append((AND(g, NOT(t)), e))
        self.live = after

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            v = self.call(dv, [v], {})
        self.store(s.name, v)

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            v = self.eval(b)
            bases.append(self.B.as_base(self, v))
        fr0 = self.frames[-1]
        prefix = (fr0.func.qual + ".<locals>." if fr0.func else (fr0.selfcls or fr0.module.name + "."))
        fr = Frame(fr0.module, fr0, self.live, None, fr0.globals)
        fr.selfcls = prefix + s.name + "."
        self.frames.append(fr)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        ann = fr.vars.pop("__annotations__", [])
        cls = Cls(s.name, bases, fr.vars, prefix + s.name, fr0.module)
        if ast.get_docstring(s):
            pass
        for k, v in fr.vars.items():
            for f in self.B.funcs_in(v):
                f.owner = cls
            if isinstance(v, Prop):
                v.attrname = k
        kinds = {k for b in cls.mro for k in [b.kind] if k}
        if "namedtuple-base" in kinds:
            cls.kind = "namedtuple"
            cls.fields = [(n, fr.vars.get(n) if has else None) for n, has in ann]
        elif "enum" in kinds:
            self.B.make_enum(self, cls)
        cls.ann = ann
        v = cls
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            v = self.call(dv, [v], {})
        self.store(s.name, v)

    def s_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m)
            else:
                self.store(a.name.split(".")[0], self.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        fr = self.frames[-1]
        if s.level:
            pkg = fr.module.name.split(".")
            if not fr.module.ispkg:
                pkg = pkg[:-1]
            if s.level > 1:
                pkg = pkg[:-(s.level - 1)]
            base = ".".join(pkg + ([s.module] if s.module else []))
        else:
            base = s.module
        if base == "__future__":
            return
        m = self.import_module(base)
        for a in s.names:
            if a.name == "*":
                allv = m.ns.get("__all__") if isinstance(m, Mod) else None
                if isinstance(m, Mod):
                    for k, v in list(m.ns.items()):
                        if not k.startswith("_"):
                            self.store(k, v)
                continue
            if isinstance(m, Mod) and a.name in m.ns:
                v = m.ns[a.name]
            else:
                v = self.B.submodule(self, m, a.name) if isinstance(m, Mod) else None
                if v is None:
                    if isinstance(m, Opaque):
                        v = Opaque(m.name + "." + a.name)
                    else:
                        self.raise_(T, "ImportError", "cannot import name %s from %s" % (a.name, base))
            self.store(a.asname or a.name, v)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                i = self.eval(t.slice)
                self.delitem(o, i)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Ref) and isinstance(o.o, Inst):
                    self.setattr_obj(o.o, t.attr, UNBOUND)
                else:
                    raise Unsupported("del attribute")
            elif isinstance(t, ast.Tuple):
                for e in t.elts:
                    self.s_Delete(ast.Delete(targets=[e]))
            else:
                raise Unsupported("del")

    def s_Global(self, s):
        pass

    def s_Nonlocal(self, s):
        pass

    def s_TypeAlias(self, s):
        self.store(s.name.id, TypeV("alias"))

    def s_Match(self, s):
        v = self.eval(s.subject)

        def case(i):
            if i == len(s.cases):
                return
            c = s.cases[i]
            g = self.match_pat(c.pattern, v)
            L = self.live
            a = AND(L, g)
            b = AND(L, NOT(g))
            fr = self.frames[-1]
            cell = [b]
            fr.pend.append(cell)
            la = F
            if a != F and bdd.feasible(a):
                self.live = a
                try:
                    self.bind_pat(c.pattern, v)
                    if c.guard is not None:
                        t = self.truth(self.eval(c.guard))
                        b = OR(b, AND(self.live, NOT(t)))
                        self.live = AND(self.live, t)
                        cell[0] = b
                    if self.live != F:
                        self.exec_block(c.body)
                except Dead:
                    self.live = F
                la = self.live
            else:
                b = L
            cell[0] = la
            self.live = b
            if b != F and bdd.feasible(b):
                case(i + 1)
            else:
                self.live = F
            fr.pend.pop()
            self.live = OR(self.live, la)
        case(0)

    def match_pat(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.equal(v, self.eval(p.value))
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, self.e_Constant(ast.Constant(value=p.value)))
        if isinstance(p, ast.MatchAs):
            return T if p.pattern is None else self.match_pat(p.pattern, v)
        if isinstance(p, ast.MatchOr):
            return OR(*[self.match_pat(q, v) for q in p.patterns])
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, Choice):
                acc = F
                for g, x in v.alts:
                    acc = OR(acc, AND(g, self.match_pat(p, x)))
                return acc
            sv = self.seqview(v)
            if sv is None or sv[0] not in ("tuple", "list"):
                return F
            if any(g != T for g, _ in sv[1]):
                raise Unsupported("match on conditional list")
            items = [x for _, x in sv[1]]
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                k = star[0]
                tail = len(p.patterns) - k - 1
                if len(items) < len(p.patterns) - 1:
                    return F
                pr = list(zip(p.patterns[:k], items[:k])) + (list(zip(p.patterns[k + 1:], items[len(items) - tail:])) if tail else [])
            else:
                if len(items) != len(p.patterns):
                    return F
                pr = list(zip(p.patterns, items))
            return AND(*[self.match_pat(q, x) for q, x in pr])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.call(self.builtins["isinstance"], [v, self.eval(p.cls)], {}))
        raise Unsupported("match pattern %s" % type(p).__name__)

    def bind_pat(self, p, v):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                self.bind_pat(p.pattern, v)
            if p.name:
                self.store(p.name, v)
        elif isinstance(p, ast.MatchSequence):
            v = prune(v, self.live)
            items = self.fixed_items(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                k = star[0]
                tail = len(p.patterns) - k - 1
                for q, x in zip(p.patterns[:k], items[:k]):
                    self.bind_pat(q, x)
                if p.patterns[k].name:
                    self.store(p.patterns[k].name, Ref(ListObj([[T, x] for x in items[k:len(items) - tail]])))
                for q, x in zip(p.patterns[k + 1:], items[len(items) - tail:]):
                    self.bind_pat(q, x)
            else:
                for q, x in zip(p.patterns, items):
                    self.bind_pat(q, x)

    # ---- modules
    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, ispkg = self.find_module(name)
        if path is None:
            m = self.B.std_module(self, name)
            self.modules[name] = m
            return m
        parent = name.rpartition(".")[0]
        if parent:
            self.import_module(parent)
        m = Mod(name, {})
        m.file = path
        m.ispkg = ispkg
        self.modules[name] = m
        m.ns["__name__"] = string(name)
        m.ns["__file__"] = string(path)
        m.ns["__doc__"] = NONE
        tree = parse_file(path)
        fr = Frame(m, None, self.live, None, m.ns)
        fr.vars = m.ns
        saveL, savef = self.live, self.frames
        self.live = T
        self.frames = [fr]
        self.exc.append([])
        try:
            self.exec_block(tree.body)
        finally:
            self.frames = savef
        ex = self.exc.pop()
        if ex:
            g, e = ex[0]
            raise Unsupported("module %s raises %s at %s: %r" % (name, e.cls.name, e.site, e.attrs.get("args")))
        self.live = saveL
        if parent:
            self.modules[parent].ns[name.rpartition(".")[2]] = m
        return m

    def find_module(self, name):
        rel = name.replace(".", "/")
        for r in self.roots:
            p = os.path.join(r, rel + ".py")
            if os.path.isfile(p):
                return p, False
            p = os.path.join(r, rel, "__init__.py")
            if os.path.isfile(p):
                return p, True
        return None, False


class GuardedArg:
    def __init__(self, g, v):
        self.g, self.v = g, v
