"""Glyphs that replay recorded pen calls, and a logger that ignores everything."""


class Glyph(object):
    def __init__(self, ops):
        self.ops = ops

    def draw(self, pen):
        for name, args in self.ops:
            getattr(pen, name)(*args)


class Logger(object):
    def debug(self, *args, **kwargs):
        pass

    def info(self, *args, **kwargs):
        pass

    def warning(self, *args, **kwargs):
        pass

    def error(self, *args, **kwargs):
        pass

    def exception(self, *args, **kwargs):
        pass

    def log(self, *args, **kwargs):
        pass

    def isEnabledFor(self, level):
        return False
