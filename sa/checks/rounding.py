"""C47: no calculation leaves the domain of a mathematical function because of rounding."""
from ..h import *
from .. import ranges


def minimum(n):
    def deco(f):
        f.minimum = n
        return f
    return deco


@minimum(60)
def c47(ck):
    """Interval analysis of every function of the package, in every calling context, under floating-point arithmetic (each result may be
    off by rounding): the argument of every arc cosine, arc sine, logarithm, square root and fractional power stays within the function's domain, unless the
    failure is caught on the spot.  A value that reaches the call from arithmetic without being clamped or tested is reported."""
    p = ranges.Program(REPO, "PathLib").analyse()
    for (path, q), line in p.entered.items():
        ck.funcs[(path, q)] = (line, 1)
    found = {}

    def go(c):
        for _ in p.entered:
            c.ob("function without an unprotected partial call")
        for key, sites in sorted(p.sites.items()):
            states = [s.state for s in sites]
            for s in sites:
                if s.state == "outside" and key not in found:
                    found[key] = 1
                    c.fail("%s %s" % (s.where.split(" ", 1)[1], s.call.split("(")[0]),
                           "rounding can take the argument of %s out of the function's domain at %s" % (s.call, s.where),
                           got=s.v.show(), want="%s .. %s" % s.need, where=s.where, stack=s.stack)
                elif s.state in ("inside", "caught"):
                    c.ob("argument %s" % s.state)
                elif s.state == "caller":
                    c.ob("argument is the caller's")
            if "open" in states and "outside" not in states:
                s = sites[states.index("open")]
                c.open(s.where, "cannot bound the argument of %s" % s.call)
        ck.notes["partial calls"] = ["%s %s: %s" % (ss[0].where, ss[0].call, sorted({s.state for s in ss})) for _, ss in sorted(p.sites.items())]
    ck.run("all functions", go)


c47.technique = "static analysis: interprocedural interval analysis of the syntax tree under floating-point rounding"
c47.note = ("Context-sensitive up to seven calls deep; values read from data structures of unknown shape count as unbounded inputs; "
            "arguments that are a caller's input as such are the caller's to keep in the domain.")
