"""Stand-in for FontDocTools.Color, which is not installed here: only the interface PathLib relies on."""


class Color(object):
    def __init__(self, red, green, blue):
        self.red = red
        self.green = green
        self.blue = blue

    @classmethod
    def _forKeyword(cls, color):
        raise NotImplementedError()

    @classmethod
    def fromName(cls, name):
        return cls._forKeyword(name)
