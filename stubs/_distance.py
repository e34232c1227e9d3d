# distance functions handed to the analysed code (interpreted by the analyser, never executed)


def affine(a, b):
    return lambda t: a + b * t


def quadratic(a, b, c):
    def distance(t):
        return a + b * t + c * t * t
    return distance


# reference formulas for the labels and margins of a plot
def label(x, y):
    return f"({round(x, 2)}, {round(y, 2)})"


def twentieth(v):
    return v // 20
