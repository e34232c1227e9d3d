"""Interval analysis of the current source under floating-point semantics: every arithmetic result may be off by rounding, so only bounds
that survive rounding are kept (a product of an expression with itself is not negative, a value clamped to -1..1 stays there, a scalar
product of two unit vectors does not).  Calls within the package are analysed in their context."""
import ast
import builtins
import math
import os

INF = math.inf
PARTIAL = {"acos": (-1, 1), "asin": (-1, 1), "sqrt": (0, INF), "log": (0, INF), "log2": (0, INF), "log10": (0, INF), "acosh": (1, INF),
           "atanh": (-1, 1), "log1p": (-1, INF)}
UNIT = {"sin": (-1, 1), "cos": (-1, 1), "tanh": (-1, 1), "acos": (0, math.pi), "asin": (-2, 2), "atan": (-2, 2), "atan2": (-4, 4), "hypot": (0, INF),
        "sqrt": (0, INF), "exp": (0, INF), "fabs": (0, INF), "dist": (0, INF), "isqrt": (0, INF), "degrees": (-INF, INF), "radians": (-INF, INF)}
CATCHES = {"ValueError", "ArithmeticError", "Exception", "BaseException", "InvalidOperation"}


class V:
    """a number between lo and hi (or not a number); why: what its bounds are owed to; whole: an integer"""
    __slots__ = ("lo", "hi", "why", "whole", "items", "sort", "fn", "names", "each")

    def __init__(self, lo=-INF, hi=INF, why=frozenset(), whole=False, items=None, sort=None, fn=None, names=frozenset(), each=None):
        self.each = each
        self.lo, self.hi, self.why, self.whole, self.items, self.sort, self.fn, self.names = lo, hi, frozenset(why), whole, items, sort, fn, frozenset(names)

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return V(**d)

    def show(self):
        return "%s .. %s" % ("-inf" if self.lo == -INF else self.lo, "inf" if self.hi == INF else self.hi)

    def same(self, o):
        if (self.lo, self.hi, self.why, self.whole, self.names) != (o.lo, o.hi, o.why, o.whole, o.names):
            return False
        if (self.each is None) != (o.each is None) or self.each is not None and not self.each.same(o.each):
            return False
        a, b = self.items, o.items
        return (a is None) == (b is None) and (a is None or len(a) == len(b) and all(x.same(y) for x, y in zip(a, b)))


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    items = None
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = [join(x, y) for x, y in zip(a.items, b.items)]
    return V(min(a.lo, b.lo), max(a.hi, b.hi), a.why | b.why, a.whole and b.whole, items, None, a.fn if a.fn is b.fn else None, a.names | b.names,
             join(a.each, b.each) if a.each is not None and b.each is not None else b.each if a.items == [] else a.each if b.items == [] else None)


def top(why, names=()):
    return V(why=[why], names=names)


def mul(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


class Stop(Exception):
    """the path ends here"""


class Site:
    def __init__(self, where, call, v, need, state, why, stack):
        self.where, self.call, self.v, self.need, self.state, self.why, self.stack = where, call, v, need, state, why, stack


class Scope:
    def __init__(self, mod, cls, outer=None):
        self.mod, self.cls, self.outer, self.funcs, self.env = mod, cls, outer, {}, None


class Program:
    def __init__(self, root, package):
        self.root, self.package = root, package
        self.mods, self.called = {}, set()
        self.sites, self.count, self.entered = {}, 0, {}
        base = os.path.join(root, package)
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    m = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if m.endswith(".__init__"):
                        m = m[:-9]
                    self.mods[m] = Module(m, p, ast.parse(open(p, encoding="utf-8").read(), p))
        for m in self.mods.values():
            m.link(self)
        self.methods = {}
        for m in self.mods.values():
            for f, c in m.all:
                if c:
                    self.methods.setdefault(f.name, []).append((m, c, f))

    def analyse(self):
        for m in self.mods.values():
            ex = Exec(self, m, None, None, "<module>", [])
            ex.body(m.tree.body)
            for f, cls in m.all:
                self.enter(m, cls, f)
        return self

    def enter(self, m, cls, f):
        Exec(self, m, cls, f, f.name, []).function({}, None)


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.funcs, self.classes, self.names, self.all, self.consts = {}, {}, {}, [], {}

    def link(self, prog):
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    full = base + "." + a.name
                    self.names[a.asname or a.name] = ("mod", full) if full in prog.mods else ("from", base, a.name)
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = n
                self.all.append((n, None))
            elif isinstance(n, ast.ClassDef):
                ms = {}
                for k in n.body:
                    if isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        ms[k.name] = k
                        self.all.append((k, n.name))
                self.classes[n.name] = (n, ms)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts.setdefault(n.target.id, []).append(n.value)


def assigned(nodes):
    out = set()
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
    return out


def pure(e):
    return not any(isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr, ast.ListComp, ast.GeneratorExp)) for n in ast.walk(e))


class Exec:
    DEPTH = 7

    def __init__(self, prog, mod, cls, fn, name, stack, closure=None):
        self.p, self.mod, self.cls, self.fn, self.name, self.stack = prog, mod, cls, fn, name, stack
        self.env, self.local, self.closure = {}, {}, closure
        self.ret, self.caught, self.related, self.known = None, 0, set(), {}
        self.loops, self.defs = [], {}

    # ---- functions
    def function(self, args, given):
        f = self.fn
        a = f.args
        self.p.count += 1
        self.p.entered[(self.mod.path, (self.cls + "." if self.cls else "") + self.name)] = f.lineno
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            self.env[x.arg] = args.get(x.arg) or top("param", [x.arg])
        try:
            if isinstance(f, ast.Lambda):
                self.ret = self.ex(f.body)
            else:
                self.body(f.body)
        except Stop:
            pass
        return self.ret if self.ret is not None else V(why=["none"])

    def invoke(self, mod, cls, f, args, kw, skip, closure=None):
        """args bound to f's parameters; skip: the first parameter is the object"""
        key = id(f)
        if len(self.stack) >= self.DEPTH or any(k == key for k, _ in self.stack):
            return top("unknown")
        names = [x.arg for x in f.args.posonlyargs + f.args.args]
        deco = {d.id for d in getattr(f, "decorator_list", []) if isinstance(d, ast.Name)}
        if cls and skip and "staticmethod" not in deco and names:
            names = names[1:]
        bound = {}
        for n, v in zip(names, args):
            bound[n] = v
        for k, v in kw.items():
            bound[k] = v
        d = f.args.defaults
        for x, e in zip((f.args.posonlyargs + f.args.args)[len(f.args.args) + len(f.args.posonlyargs) - len(d):], d):
            if x.arg not in bound:
                bound[x.arg] = self.ex(e) if isinstance(e, ast.Constant) else top("param", [x.arg])
        e = Exec(self.p, mod, cls, f, getattr(f, "name", "lambda"), self.stack + [(key, "%s:%d" % (os.path.basename(self.mod.path), getattr(self, "line", 0)))], closure)
        e.caught = self.caught
        self.p.called.add(key)
        return e.function(bound, None)

    # ---- statements
    def body(self, stmts):
        for s in stmts:
            self.line = getattr(s, "lineno", 0)
            self.stmt(s)

    def branch(self, stmts):
        """runs stmts in a copy of the state; the state afterwards, None when the path ends"""
        env, rel, known = dict(self.env), set(self.related), dict(self.known)
        try:
            self.body(stmts)
            out = (self.env, self.related, self.known)
        except Stop:
            out = None
        self.env, self.related, self.known = env, rel, known
        return out

    def merge(self, outs):
        outs = [o for o in outs if o is not None]
        if not outs:
            raise Stop()
        env = {}
        for k in set().union(*[o[0] for o in outs]):
            v = None
            for o in outs:
                v = join(v, o[0].get(k))     # not bound on a path: reading it there fails anyhow
            env[k] = v
        known = {}
        for k in set.intersection(*[set(o[2]) for o in outs]):
            v = None
            for o in outs:
                v = join(v, o[2][k])
            known[k] = v
        rel = set().union(*[o[1] for o in outs])
        self.env, self.related, self.known = env, rel, known

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            self.ex(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ex(s.value)
            for t in s.targets:
                self.store(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ex(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            load = ast.parse(ast.unparse(s.target), mode="eval").body
            v = self.binop(s.op, load, s.value)
            self.store(s.target, v)
        elif isinstance(s, ast.Return):
            self.ret = join(self.ret, self.ex(s.value) if s.value is not None else V(why=["none"]))
            raise Stop()
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ex(s.exc)
            raise Stop()
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append((dict(self.env), set(self.related), dict(self.known)))
            raise Stop()
        elif isinstance(s, ast.If):
            self.ex(s.test)
            outs = []
            for sense, blk in ((True, s.body), (False, s.orelse)):
                save = (dict(self.env), set(self.related), dict(self.known))
                if self.refine(s.test, sense):
                    outs.append(self.branch(blk))
                self.env, self.related, self.known = save
            self.merge(outs)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.loop(s)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ex(i.context_expr)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, top("unknown"))
            self.body(s.body)
        elif isinstance(s, ast.Try):
            caught = any(self.catches(h) for h in s.handlers)
            before = (dict(self.env), set(self.related), dict(self.known))
            self.caught += caught
            out = self.branch(s.body + s.orelse)
            self.caught -= caught
            outs = [out]
            for h in s.handlers:
                self.env, self.related, self.known = dict(before[0]), set(before[1]), {}
                for n in assigned(s.body):
                    if n in self.env or out is not None and n in out[0]:
                        v = join(self.env.get(n), out[0].get(n) if out is not None else None)
                        self.env[n] = V(why=v.why | {"arith"}, names=v.names)
                outs.append(self.branch(h.body))
            self.env, self.related, self.known = before
            try:
                self.merge(outs)
            except Stop:
                if s.finalbody:
                    self.body(s.finalbody)
                raise
            self.body(s.finalbody)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.local[s.name] = s
            self.env.pop(s.name, None)
            if self.fn is not None or self.name == "<module>" and s not in [f for f, _ in self.mod.all]:
                # looked at on its own too: it may be called from anywhere
                if len(self.stack) < self.DEPTH:
                    e = Exec(self.p, self.mod, self.cls, s, self.name + "." + s.name, self.stack + [(id(s), "%s:%d" % (os.path.basename(self.mod.path), s.lineno))], self)
                    if not any(k == id(s) for k, _ in self.stack):
                        e.function({}, None)
        elif isinstance(s, ast.ClassDef):
            if self.name == "<module>":
                for k in s.body:
                    if not isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        try:
                            self.stmt(k)
                        except Stop:
                            pass
        elif isinstance(s, ast.Assert):
            self.ex(s.test)
            if not self.refine(s.test, True):
                raise Stop()
        elif isinstance(s, ast.Match):
            self.ex(s.subject)
            outs = [(dict(self.env), set(self.related), dict(self.known))]
            for k in s.cases:
                for n in assigned([k.pattern]) | {x.name for x in ast.walk(k.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}:
                    self.env[n] = top("unknown")
                outs.append(self.branch(k.body))
            self.merge(outs)
        elif isinstance(s, ast.Delete):
            pass
        else:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    self.ex(n)

    @staticmethod
    def catches(h):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return any((t.id if isinstance(t, ast.Name) else getattr(t, "attr", "")) in CATCHES for t in ts)

    def loop(self, s):
        if isinstance(s, ast.While):
            self.ex(s.test)
            elem = None
        else:
            elem = self.element(s.iter)
        for rnd in range(6):
            start = (dict(self.env), set(self.related), dict(self.known))
            self.loops.append([])
            ok = True
            if elem is not None:
                self.store(s.target, elem)
            else:
                ok = self.refine(s.test, True)
            out = self.branch(s.body) if ok else None
            exits = self.loops.pop()
            self.env, self.related, self.known = dict(start[0]), set(start[1]), dict(start[2])
            before = dict(self.env)
            self.merge([(dict(self.env), set(self.related), dict(self.known)), out] + exits)
            stable = set(before) == set(self.env) and all(before[k].same(self.env[k]) for k in before)
            if stable:
                break
            if rnd >= 2:
                for k in list(self.env):
                    b, n = before.get(k), self.env[k]
                    if b is None or not b.same(n):
                        self.env[k] = V(-INF if b is None or n.lo < b.lo else n.lo, INF if b is None or n.hi > b.hi else n.hi, n.why | {"arith"}, False, None, None, None, n.names)
            if rnd >= 4:
                for k in assigned(s.body):
                    self.env[k] = V(why=self.env[k].why | {"arith"} if k in self.env else ["unknown"], names=self.env[k].names if k in self.env else ())
        if isinstance(s, ast.While):
            save = (dict(self.env), set(self.related), dict(self.known))
            self.loops.append([])
            if not self.refine(s.test, False):
                # leaves by break or return only
                self.env, self.related, self.known = save
            self.loops.pop()
        self.body(s.orelse)

    def store(self, t, v, by=None):
        if by is not None:
            ns = {n.id for n in ast.walk(by) if isinstance(n, ast.Name)}
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    self.defs[n.id] = self.defs.get(n.id, set()) | ns
        if isinstance(t, ast.Name):
            self.forget(t.id)
            self.env[t.id] = v.but(names=v.names | {t.id})
            self.local.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            plain = not any(isinstance(e, ast.Starred) for e in t.elts)
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.store(e.value, V(why=v.why, names=v.names))
                elif plain and v.items is not None and len(v.items) == len(t.elts):
                    self.store(e, v.items[k])
                else:
                    self.store(e, V(why=v.why, names=v.names))
        elif isinstance(t, ast.Attribute):
            self.ex(t.value)
            self.forget(t.attr)
        elif isinstance(t, ast.Subscript):
            self.ex(t.value)
            self.ex(t.slice)
            n = t.value
            while isinstance(n, (ast.Subscript, ast.Attribute)):
                n = n.value
            if isinstance(n, ast.Name):
                self.forget(n.id)
                if n.id in self.env:
                    self.env[n.id] = V(why=self.env[n.id].why | v.why, names=self.env[n.id].names | v.names)

    def forget(self, name):
        """what was known about expressions that mention the name"""
        for k in [k for k, (ns, _) in ((k, (self.mentions(k), 0)) for k in self.known) if name in ns]:
            del self.known[k]

    @staticmethod
    def mentions(k):
        e = ast.parse(k, mode="eval")
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute)}

    # ---- conditions
    def refine(self, e, sense):
        """assumes e is (not) true; False when that cannot be"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, not sense)
        if isinstance(e, ast.BoolOp):
            both = isinstance(e.op, ast.And)
            if both == sense:
                return all(self.refine(x, sense) for x in e.values)
            outs = []
            save = (self.env, self.related, self.known)
            for k, x in enumerate(e.values):
                self.env, self.related, self.known = dict(save[0]), set(save[1]), dict(save[2])
                if all(self.refine(y, not sense) for y in e.values[:k]) and self.refine(x, sense):
                    outs.append((self.env, self.related, self.known))
            self.env, self.related, self.known = dict(save[0]), set(save[1]), dict(save[2])
            if not outs:
                return False
            self.merge(outs)
            return True
        if isinstance(e, ast.Compare):
            es = [e.left] + e.comparators
            if len(e.ops) > 1:
                parts = [ast.Compare(left=a, ops=[o], comparators=[b]) for a, o, b in zip(es, e.ops, es[1:])]
                for x in parts:
                    ast.copy_location(x, e)
                return self.refine(ast.BoolOp(op=ast.And(), values=parts), sense)
            return self.compare(e.left, e.ops[0], e.comparators[0], sense)
        if isinstance(e, ast.Constant):
            return bool(e.value) == sense
        if isinstance(e, ast.Call) and not (isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "len", "hasattr", "callable")):
            # a predicate of the package's own may well bound its arguments
            x = self.inlined(e)
            if x is not None:
                return self.refine(x, sense)
            for a in e.args:
                self.relate(a)
        return True

    def inlined(self, e):
        """the condition a predicate that is one return statement stands for"""
        r = self.resolve(e.func) if not (isinstance(e.func, ast.Name) and e.func.id in self.env) else None
        if r is None and isinstance(e.func, ast.Name):
            r = self.e_Name(e.func).fn
        if not r or r[0] != "fn" or e.keywords or not all(pure(a) and not isinstance(a, ast.Starred) for a in e.args):
            return None
        f = r[3]
        if isinstance(f, ast.Lambda):
            ret = f.body
        else:
            b = [x for x in f.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            if len(b) != 1 or not isinstance(b[0], ast.Return) or b[0].value is None:
                return None
            ret = b[0].value
        ps = [x.arg for x in f.args.posonlyargs + f.args.args]
        if r[2] and r[4] is None and ps and "staticmethod" not in {d.id for d in getattr(f, "decorator_list", []) if isinstance(d, ast.Name)}:
            ps = ps[1:]
        m = dict(zip(ps, e.args))
        ds = f.args.defaults
        for x, d in zip(ps[len(ps) - len(ds):] if ds else [], ds):
            if isinstance(d, ast.Name):
                v = self.const(r[1], d.id)
                if v.lo != v.hi:
                    return None
                d = ast.Constant(v.lo)
            m.setdefault(x, d)
        if len(m) != len(ps) or len(e.args) > len(ps):
            return None
        if any(isinstance(n, ast.Name) and n.id not in m and n.id not in ("abs", "max", "min", "math") for n in ast.walk(ret)):
            # names of the other module or scope: only calls of its own predicates are understood
            return None

        class Put(ast.NodeTransformer):
            def visit_Name(self, n):
                return m.get(n.id, n)
        return Put().visit(ast.parse(ast.unparse(ret), mode="eval").body)

    def relate(self, e):
        self.related |= {n.id for n in ast.walk(e) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute)}

    NEG = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}

    def compare(self, a, op, b, sense):
        t = type(op)
        if t not in self.NEG:
            return True
        va, vb = self.ex(a), self.ex(b)
        if not sense:
            t = self.NEG[t]
        if t is ast.NotEq:
            return True
        if va.lo != va.hi and vb.lo != vb.hi:
            # says something about the two together only
            self.relate(a)
            self.relate(b)
        else:
            # bounds something else that the argument may be related to
            self.related |= {"?" + n.id for x in (a, b) for n in ast.walk(x) if isinstance(n, ast.Name)}
        if t in (ast.Lt, ast.LtE, ast.Eq):
            if not self.bound(a, -INF, vb.hi) or not self.bound(b, va.lo, INF):
                return False
        if t in (ast.Gt, ast.GtE, ast.Eq):
            if not self.bound(a, vb.lo, INF) or not self.bound(b, -INF, va.hi):
                return False
        if t is ast.Lt and va.lo >= vb.hi and va.lo > -INF or t is ast.Gt and va.hi <= vb.lo and va.hi < INF:
            return False
        return True

    def bound(self, e, lo, hi):
        if lo == -INF and hi == INF:
            return True
        v = self.ex(e)
        l, h = max(v.lo, lo), min(v.hi, hi)
        if l > h:
            return False
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return self.bound(e.operand, -hi, -lo)
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in ("abs", "fabs") and len(e.args) == 1 and hi < INF:
            return self.bound(e.args[0], -hi, hi)
        if isinstance(e, ast.NamedExpr):
            e = e.target
        nv = v.but(lo=l, hi=h, sort=None)
        if isinstance(e, ast.Name):
            if e.id in self.env:
                self.env[e.id] = nv
            return True
        if pure(e):
            self.known[ast.unparse(e)] = nv
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and ast.unparse(e.left) == ast.unparse(e.right) and hi <= 1:
                self.bound(e.left, -1, 1)
        return True

    # ---- expressions
    def ex(self, e):
        if pure(e) and not isinstance(e, (ast.Constant, ast.Name)) and self.known:
            k = self.known.get(ast.unparse(e))
            if k is not None:
                return k
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.ex(n)
        return top("unknown")

    def e_Constant(self, e):
        if isinstance(e.value, (int, float)) and e.value == e.value:
            return V(e.value, e.value, whole=isinstance(e.value, int))
        return V(why=["other"])

    def e_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        c = self
        while c is not None:
            if e.id in c.local:
                return V(why=["other"], fn=("fn", c.mod, c.cls, c.local[e.id], c))
            if e.id in c.env:
                return V(why=c.env[e.id].why, names=c.env[e.id].names) if c is not self else c.env[e.id]
            c = c.closure
        r = self.resolve(e)
        if r is not None:
            return V(why=["other"], fn=r)
        return self.const(self.mod, e.id)

    def const(self, mod, name):
        vs = mod.consts.get(name)
        if vs and len(vs) == 1 and pure(vs[0]) and isinstance(vs[0], (ast.Constant, ast.UnaryOp, ast.BinOp, ast.Tuple)) and self.fn is not None:
            return Exec(self.p, mod, None, None, "<module>", self.stack).ex(vs[0])
        return top("param", [name])

    def e_NamedExpr(self, e):
        v = self.ex(e.value)
        self.store(e.target, v)
        return v

    def e_Tuple(self, e):
        vs = [self.ex(x) for x in e.elts]
        why = frozenset().union(*[v.why for v in vs]) if vs else frozenset()
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return V(why=why | {"unknown"}, names=frozenset().union(*[v.names for v in vs]))
        return V(why=why, items=vs, names=frozenset().union(*[v.names for v in vs]) if vs else ())
    e_List = e_Tuple

    def e_Starred(self, e):
        return self.ex(e.value)

    def e_Attribute(self, e):
        r = self.resolve(e)
        if r is not None and r[0] == "const":
            return r[1]
        v = self.ex(e.value)
        p = self.property(e)
        if p is not None:
            return p
        if v.fn is not None:
            return V(why=["other"])
        return V(why=v.why | {"param"} if not v.why & {"unknown"} else v.why, names=v.names | {e.attr})

    def property(self, e):
        """self.x of a property of the class"""
        if isinstance(e.value, ast.Name) and self.cls and e.value.id in ("self", "cls"):
            k = self.mod.classes.get(self.cls)
            f = k[1].get(e.attr) if k else None
            if f is not None and any(isinstance(d, ast.Name) and d.id in ("property", "cached_property") or isinstance(d, ast.Attribute) and d.attr == "cached_property" for d in f.decorator_list):
                return self.invoke(self.mod, self.cls, f, [], {}, True)
        return None

    def e_Subscript(self, e):
        v = self.ex(e.value)
        i = self.ex(e.slice) if not isinstance(e.slice, ast.Slice) else None
        if i is None:
            return V(why=v.why, names=v.names)
        if i.lo == i.hi and i.whole:
            k = int(i.lo)
            if v.items is not None and -len(v.items) <= k < len(v.items):
                return v.items[k]
            if v.sort is not None and -len(v.sort[0]) <= k < len(v.sort[0]):
                return V(v.sort[0][k], v.sort[1][k], v.why, names=v.names)
        elif v.items is not None:
            r = None
            for x in v.items:
                r = join(r, x)
            if r is not None:
                return r
        if v.each is not None:
            return v.each
        return V(why=v.why or ["unknown"], names=v.names)

    def e_UnaryOp(self, e):
        v = self.ex(e.operand)
        if isinstance(e.op, ast.USub):
            return v.but(lo=-v.hi, hi=-v.lo, sort=None, items=None)
        if isinstance(e.op, ast.UAdd):
            return v
        return V(0, 1, whole=True)

    def e_Compare(self, e):
        for x in [e.left] + e.comparators:
            self.ex(x)
        return V(0, 1, whole=True)

    def e_BoolOp(self, e):
        out = None
        save = (dict(self.env), set(self.related), dict(self.known))
        for k, x in enumerate(e.values):
            out = join(out, self.ex(x))
            if not self.refine(x, isinstance(e.op, ast.And)):
                break
        self.env, self.related, self.known = save
        return out

    def e_IfExp(self, e):
        self.ex(e.test)
        out = None
        for sense, x in ((True, e.body), (False, e.orelse)):
            save = (dict(self.env), set(self.related), dict(self.known))
            if self.refine(e.test, sense):
                out = join(out, self.ex(x))
            self.env, self.related, self.known = save
        return out or top("unknown")

    def e_Lambda(self, e):
        return V(why=["other"], fn=("fn", self.mod, self.cls, e, self))

    def e_JoinedStr(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.FormattedValue):
                self.ex(n.value)
        return V(why=["other"])

    def comp(self, e, elts):
        env, rel, known = dict(self.env), set(self.related), dict(self.known)
        for g in e.generators:
            self.store(g.target, self.element(g.iter))
            for i in g.ifs:
                self.ex(i)
                self.refine(i, True)
        vs = [self.ex(x) for x in elts]
        self.env, self.related, self.known = env, rel, known
        r = None
        for v in vs:
            r = join(r, v)
        return V(why=r.why, names=r.names, each=r)

    def e_ListComp(self, e):
        return self.comp(e, [e.elt])
    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, e):
        return self.comp(e, [e.key, e.value])

    def element(self, it):
        """one element of an iteration"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            n, a = it.func.id, [self.ex(x) for x in it.args]
            if n == "range" and a:
                lo, hi = (V(0, 0, whole=True), a[0]) if len(a) == 1 else (a[0], a[1])
                down = len(a) == 3 and a[2].lo < 0
                if down:
                    return V(lo=-INF if a[2].hi < 0 and hi.lo == -INF else hi.lo, hi=lo.hi, why=lo.why | hi.why, whole=True)
                return V(lo.lo, hi.hi, lo.why | hi.why, True, names=lo.names | hi.names)
            if n == "enumerate" and a:
                el = self.element(it.args[0])
                s = a[1].lo if len(a) > 1 else 0
                return V(why=el.why, items=[V(s, INF, whole=True), el], names=el.names)
            if n == "zip":
                els = [self.element(x) for x in it.args]
                return V(why=frozenset().union(*[x.why for x in els]) if els else (), items=els)
            if n in ("reversed", "sorted", "list", "tuple", "iter", "set") and len(it.args) >= 1:
                return self.element(it.args[0])
        v = self.ex(it)
        if v.items:
            r = None
            for x in v.items:
                r = join(r, x)
            return r
        if v.each is not None:
            return v.each
        return V(why=v.why or ["unknown"], names=v.names)

    def e_BinOp(self, e):
        return self.binop(e.op, e.left, e.right)

    def binop(self, op, l, r):
        a, b = self.ex(l), self.ex(r)
        names = a.names | b.names
        why = (a.why | b.why) - {"none"} | {"arith"}
        t = type(op)
        same = pure(l) and ast.unparse(l) == ast.unparse(r)
        whole = a.whole and b.whole
        if t is ast.Add:
            return V(a.lo + b.lo, a.hi + b.hi, why, whole, names=names)
        if t is ast.Sub:
            if same:
                return V(0, 0, why, whole, names=names)
            lo = -INF if a.lo == -INF or b.hi == INF else a.lo - b.hi
            hi = INF if a.hi == INF or b.lo == -INF else a.hi - b.lo
            return V(lo, hi, why, whole, names=names)
        if t is ast.Mult:
            if same:
                m = max(abs(a.lo), abs(a.hi))
                lo = 0 if a.lo <= 0 <= a.hi else min(mul(a.lo, a.lo), mul(a.hi, a.hi))
                return V(lo, m * m, why, whole, names=names)
            c = [mul(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            return V(min(c), max(c), why, whole, names=names)
        if t in (ast.Div, ast.FloorDiv):
            if b.lo > 0 or b.hi < 0:
                c = [0.0 if abs(y) == INF else x / y if abs(x) != INF else math.copysign(INF, x * y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                if t is ast.FloorDiv:
                    c = [math.floor(x) if abs(x) != INF else x for x in c]
                return V(min(c), max(c), why, whole and t is ast.FloorDiv, names=names)
            if b.lo >= 0 and a.lo >= 0:
                return V(0, INF, why, whole and t is ast.FloorDiv, names=names)
            return V(why=why, whole=whole and t is ast.FloorDiv, names=names)
        if t is ast.Pow:
            self.power(l, r, a, b, "**")
            if b.lo == b.hi and b.lo == int(b.lo) and abs(b.lo) != INF and int(b.lo) % 2 == 0 and b.lo >= 0:
                m = max(abs(a.lo), abs(a.hi))
                return V(0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi)) ** int(b.lo), INF if m == INF else m ** int(b.lo), why, whole, names=names)
            return V(0 if a.lo >= 0 else -INF, INF, why, whole and b.lo >= 0, names=names)
        if t is ast.Mod:
            if b.lo > 0:
                return V(0, b.hi, why, whole, names=names)
            return V(why=why, names=names)
        return V(why=why, whole=whole, names=names)

    # ---- calls
    def resolve(self, f):
        """('math', name) / ('fn', module, class, node, closure) / ('class', module, name) / ('const', value) / None"""
        if isinstance(f, ast.Name):
            n = f.id
            if n in self.mod.funcs:
                return ("fn", self.mod, None, self.mod.funcs[n], None)
            if n in self.mod.classes:
                return ("class", self.mod, n)
            k = self.mod.names.get(n)
            if k:
                if k[0] == "from":
                    return self.member(k[1], k[2])
                return ("mod", k[1])
            return None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in self.env and f.value.id not in ("self", "cls"):
                return None
            if isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and self.cls:
                return self.classmember(self.mod, self.cls, f.attr)
            b = self.resolve(f.value)
            if b is None:
                return None
            if b[0] == "mod":
                return self.member(b[1], f.attr)
            if b[0] == "class":
                return self.classmember(b[1], b[2], f.attr)
        return None

    def classmember(self, mod, cls, name, seen=()):
        k = mod.classes.get(cls)
        if not k or cls in seen:
            return None
        if name in k[1]:
            return ("fn", mod, cls, k[1][name], None)
        for b in k[0].bases:
            x = Exec(self.p, mod, None, None, "<module>", self.stack)
            r = x.resolve(b)
            if r and r[0] == "class":
                m = self.classmember(r[1], r[2], name, seen + (cls,))
                if m:
                    return m
        return None

    def member(self, mod, name):
        if mod in ("math", "cmath", "numpy", "decimal", "random"):
            if mod == "math":
                c = {"pi": math.pi, "e": math.e, "tau": math.tau, "inf": INF}.get(name)
                if c is not None:
                    return ("const", V(c, c))
                if name == "nan":
                    return ("const", V(INF, -INF).but(lo=0, hi=0))
            return (mod, name)
        m = self.p.mods.get(mod)
        if m is None:
            full = mod + "." + name
            return ("mod", full) if full in self.p.mods else ("ext", mod, name)
        if name in m.funcs:
            return ("fn", m, None, m.funcs[name], None)
        if name in m.classes:
            return ("class", m, name)
        if name in m.names:
            k = m.names[name]
            return self.member(k[1], k[2]) if k[0] == "from" else ("mod", k[1])
        if name in m.consts:
            return ("const", self.const(m, name))
        return None

    def e_Call(self, e):
        args = [self.ex(a) for a in e.args]
        kw = {k.arg: self.ex(k.value) for k in e.keywords if k.arg}
        for k in e.keywords:
            if k.arg is None:
                self.ex(k.value)
        star = any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords)
        names = frozenset().union(*[a.names for a in args]) if args else frozenset()
        why = frozenset().union(*[a.why for a in args]) if args else frozenset()
        f = e.func
        r = None
        if isinstance(f, ast.Name):
            v = self.e_Name(f)
            r = v.fn
            if r is None and f.id not in self.env:
                return self.builtin(f.id, e, args, why, names, star)
        elif isinstance(f, ast.Attribute):
            r = self.resolve(f)
            if r is None or r[0] in ("const", "mod"):
                o = self.ex(f.value)
                if f.attr == "sqrt" and not args:
                    self.site("sqrt", e, o, (0, INF))
                    return V(0, INF, o.why, names=o.names)
                if f.attr in ("ln", "log10") and not args:
                    self.site("log", e, o, (0, INF))
                if f.attr in ("append", "extend", "insert", "sort", "reverse", "pop", "remove", "clear", "update"):
                    n = f.value
                    while isinstance(n, (ast.Attribute, ast.Subscript)):
                        n = n.value
                    if isinstance(n, ast.Name) and n.id in self.env:
                        k = self.env[n.id]
                        each = None
                        if n is f.value and f.attr == "append" and len(args) == 1 and not star:
                            each = args[0]
                            for x in k.items or [k.each] if k.items or k.each is not None else []:
                                each = join(each, x)
                            if k.items is None and k.each is None:
                                each = None
                        self.env[n.id] = V(why=k.why | why, names=k.names | names, each=each)
                        self.forget(n.id)
                    if f.attr != "pop":
                        return V(why=["none"])
                    return V(why=o.why or ["param"], names=o.names)
                ms = self.p.methods.get(f.attr, [])
                if len(ms) == 1 and not star:
                    m, c, fn = ms[0]
                    if len(self.stack) < 4:
                        return self.invoke(m, c, fn, args, kw, True)
                return V(why=o.why | why | {"unknown"} if not o.why else o.why | why, names=o.names | names)
        else:
            r = self.ex(f).fn
        if r is None:
            return V(why=why | {"unknown"}, names=names)
        if r[0] == "math":
            return self.maths(r[1], e, args, why, names, star)
        if r[0] == "fn":
            if star:
                args, kw = [], {}
            skip = bool(r[2]) and isinstance(f, ast.Attribute) and (isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") or self.is_classmethod(r[3]))
            if r[4] is not None:
                skip = False
            return self.invoke(r[1], r[2], r[3], args, kw, skip, r[4])
        if r[0] == "class":
            k = r[1].classes[r[2]][1].get("__init__")
            if k is not None:
                self.invoke(r[1], r[2], k, [] if star else args, {} if star else kw, True)
            return V(why=["param"] if not why else why, names=names)
        if r[0] == "decimal" and r[1] == "Decimal" and args:
            return args[0]
        return V(why=why | {"unknown"}, names=names)

    @staticmethod
    def is_classmethod(f):
        return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in getattr(f, "decorator_list", []))

    def builtin(self, n, e, args, why, names, star):
        if star and n in ("min", "max", "sorted"):
            return V(why=why | {"arith"}, names=names)
        vs = args
        if n in ("min", "max", "sorted") and len(args) == 1:
            if args[0].items is None:
                if n == "sorted":
                    return args[0]
                k = args[0].each
                return V(k.lo, k.hi, why, k.whole, names=names) if k is not None else V(why=why, names=names)
            vs = args[0].items
        if n == "min" and vs and not e.keywords:
            return V(min(v.lo for v in vs), min(v.hi for v in vs), why, all(v.whole for v in vs), names=names)
        if n == "max" and vs and not e.keywords:
            return V(max(v.lo for v in vs), max(v.hi for v in vs), why, all(v.whole for v in vs), names=names)
        if n == "sorted" and len(args) == 1 and args[0].items is not None and not e.keywords:
            return V(why=why, sort=(sorted(v.lo for v in vs), sorted(v.hi for v in vs)), names=names)
        if n == "abs" and args:
            v = args[0]
            lo = 0 if v.lo <= 0 <= v.hi else min(abs(v.lo), abs(v.hi))
            return V(lo, max(abs(v.lo), abs(v.hi)), v.why, v.whole, names=names)
        if n in ("float", "Decimal", "Fraction") and len(args) == 1:
            return args[0].but(whole=False)
        if n in ("int", "round") and args:
            v = args[0]
            f = (lambda x, g: x if abs(x) == INF else g(x))
            return V(f(v.lo, math.floor), f(v.hi, math.ceil), v.why, len(args) == 1, names=names)
        if n == "len":
            return V(0, INF, whole=True)
        if n == "bool":
            return V(0, 1, whole=True)
        if n == "pow" and len(args) >= 2:
            return self.binop(ast.Pow(), e.args[0], e.args[1])
        if n == "sum":
            vs = args[0].items or [args[0].each] if args and (args[0].items or args[0].each is not None) else [V()]
            return V(0 if all(v.lo >= 0 for v in vs) else -INF, INF, why | {"arith"}, names=names)
        if n in ("list", "tuple") and len(args) == 1:
            return args[0]
        if n in ("isinstance", "hasattr", "callable", "any", "all"):
            return V(0, 1, whole=True)
        return V(why=why | {"unknown"}, names=names)

    def maths(self, n, e, args, why, names, star):
        if n in PARTIAL and args and not star:
            self.site(n, e, args[0], PARTIAL[n])
        if n == "pow" and len(args) == 2:
            self.power(e.args[0], e.args[1], args[0], args[1], "pow")
            return V(0 if args[0].lo >= 0 else -INF, INF, why | {"arith"}, names=names)
        if n == "copysign" and len(args) == 2:
            m = max(abs(args[0].lo), abs(args[0].hi))
            return V(-m, m, why, names=names)
        if n in ("floor", "ceil", "trunc") and args:
            v = args[0]
            f = (lambda x, g: x if abs(x) == INF else g(x))
            return V(f(v.lo, math.floor), f(v.hi, math.ceil), v.why, True, names=names)
        if n in ("isnan", "isinf", "isclose", "isfinite"):
            return V(0, 1, whole=True)
        if n == "sqrt" and args and args[0].lo >= 0:
            return V(math.sqrt(args[0].lo), math.sqrt(args[0].hi) if args[0].hi < INF else INF, why | {"arith"}, names=names)
        if n in UNIT:
            lo, hi = UNIT[n]
            return V(lo, hi, why | {"arith"}, names=names)
        return V(why=why | {"arith"}, names=names)

    def power(self, l, r, a, b, what):
        """a negative number to a power that is no whole number"""
        frac = b.lo == b.hi and abs(b.lo) != INF and b.lo != int(b.lo)
        if frac:
            self.site("fractional power", l if what == "**" else l, a, (0, INF))

    # ---- obligations
    def site(self, name, call, v, need):
        inside = v.lo >= need[0] and v.hi <= need[1]
        if self.name == "<module>" and self.fn is None:
            fn = "module"
        else:
            fn = (self.cls + "." if self.cls else "") + self.name
        where = "%s:%d %s" % (os.path.relpath(self.mod.path, self.p.root), call.lineno, fn)
        if self.caught:
            state = "caught"
        elif inside:
            state = "inside"
        elif "unknown" in v.why:
            state = "open"
        elif "arith" not in v.why:
            state = "caller"
        elif self.bears(call):
            state = "open"
        else:
            state = "outside"
        key = (self.mod.path, call.lineno, call.col_offset)
        s = Site(where, "%s(%s)" % (name, ast.unparse(call.args[0]) if isinstance(call, ast.Call) and call.args else ast.unparse(call)), v, need, state, v.why,
                 [w for _, w in self.stack])
        self.sites(key).append(s)

    def back(self, out):
        """the names these are made of, two steps back"""
        for _ in range(2):
            out = out | set().union(*[self.defs.get(n, set()) for n in out])
        return {n for n in out if n not in ("self", "cls") and n not in self.mod.names and n not in self.mod.funcs and not hasattr(builtins, n)}

    def bears(self, call):
        """is there a condition on this path that could bound the argument in a way intervals don't see?"""
        near = self.back({n.id for n in ast.walk(call) if isinstance(n, ast.Name)})
        if near & {n for n in self.related if not n.startswith("?")}:
            return True
        tested = {n[1:] for n in self.related if n.startswith("?")}
        return any(n not in near and near & self.back({n}) for n in tested)

    def sites(self, key):
        return self.p.sites.setdefault(key, [])
