"""property id -> (module, function)"""
import importlib

GROUPS = ["transform", "bounds", "segments", "curves", "curves2", "contours", "pen", "linalg", "color", "plotter", "queries", "closest", "crossings", "outlines", "helpers", "rounding"]


def find(prop):
    for g in GROUPS:
        try:
            m = importlib.import_module("sa.checks." + g)
        except ModuleNotFoundError as e:
            if e.name == "sa.checks." + g:
                continue
            raise
        f = getattr(m, prop.lower(), None)
        if f is not None:
            return f
    raise SystemExit("no check for " + prop)
