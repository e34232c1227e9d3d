"""Stand-in for FontDocTools.GlyphPlotterEngine, which is not installed here: only the interface PathLib relies on.
What is drawn is recorded in _content together with the paint attributes in force."""


class Margins(object):
    def __init__(self, left, top, right, bottom):
        self.left = left
        self.top = top
        self.right = right
        self.bottom = bottom


class PaintMode(object):
    fill = "fill"
    stroke = "stroke"
    fillAndStroke = "fillAndStroke"


class CoordinateSystem(object):
    content = "content"
    contentMargins = "contentMargins"
    frame = "frame"
    frameMargins = "frameMargins"


class _BoundsAggregator(object):
    def __init__(self):
        self.bounds = []

    def addBounds(self, bounds):
        self.bounds.append(bounds)


class GlyphPlotterEngine(object):
    def __init__(self):
        self._boundsAggregator = _BoundsAggregator()
        self._content = []
        self._pen = (0, 0)
        self._fillColor = "initial fill"
        self._fillOpacity = 1
        self._strokeColor = "initial stroke"
        self._strokeWidth = 1
        self._strokeOpacity = 1
        self._strokeDash = None
        self._contentMargins = Margins(0, 0, 0, 0)
        self._frameMargins = Margins(0, 0, 0, 0)
        self._labelFont = "label font"
        self._labelFontSize = 10

    def setContentMargins(self, margins):
        self._contentMargins = margins

    def setFrameMargins(self, margins):
        self._frameMargins = margins

    def setLabelFontSize(self, size, lineHeight=None):
        self._labelFontSize = size

    def setFillColor(self, color):
        self._fillColor = color

    def setFillOpacity(self, opacity):
        self._fillOpacity = opacity

    def setStrokeColor(self, color):
        self._strokeColor = color

    def setStrokeWidth(self, width):
        self._strokeWidth = width

    def setStrokeOpacity(self, opacity):
        self._strokeOpacity = opacity

    def setStrokeDash(self, dash):
        self._strokeDash = dash

    def moveToXY(self, x, y):
        self._pen = (x, y)

    def _fillAttributes(self):
        return f"fill='{self._fillColor}'"

    def _strokeAttributes(self):
        return f"stroke='{self._strokeColor}'"

    def drawCircle(self, coordinates, x, y, radius, paintMode=PaintMode.fill):
        if paintMode == "fill":
            attributes = self._fillAttributes()
        else:
            attributes = f"fill='none' {self._strokeAttributes()}"
        self._content.append(("circle", attributes, (x, y), radius, coordinates, paintMode))

    def drawLabel(self, coordinates, x, y, angle, alignment, text):
        self._content.append(("label", self._fillAttributes(), (x, y), text, coordinates, angle, alignment))

    def drawArrow(self, coordinates, startX, startY, endX, endY, style, position):
        self._content.append(("arrow", self._strokeAttributes(), (startX, startY), (endX, endY), coordinates, style, position, self._strokeDash))
