# model of the decimal context (interpreted by the analyser, never executed)


class Context(object):
    def __init__(self, prec=28, rounding=None):
        self.prec = prec
        self.rounding = rounding

    def copy(self):
        return Context(self.prec, self.rounding)

    def sqrt(self, x):
        return x.sqrt()

    def add(self, x, y):
        return x + y

    def multiply(self, x, y):
        return x * y

    def plus(self, x):
        return x

    def create_decimal(self, x):
        from decimal import Decimal
        return Decimal(x)


class _State(object):
    def __init__(self):
        self.current = Context()


_state = _State()


def getcontext():
    return _state.current


def setcontext(ctx):
    _state.current = ctx


class _LocalContext(object):
    def __init__(self, ctx):
        self.new = ctx

    def __enter__(self):
        self.saved = _state.current
        _state.current = self.new
        return self.new

    def __exit__(self, t, v, tb):
        _state.current = self.saved


def localcontext(ctx=None, **kwargs):
    if ctx is None:
        ctx = _state.current
    new = ctx.copy()
    for name in kwargs:
        setattr(new, name, kwargs[name])
    return _LocalContext(new)


DefaultContext = Context()
BasicContext = Context(9)
