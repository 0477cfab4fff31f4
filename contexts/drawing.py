"""Stand-ins for drawing"""
from stubs import *
from mpllayout import ui


class Patch:
    def __init__(self, xy, closed=True, **kwargs):
        self.xy, self.closed, self.kwargs = xy, closed, kwargs


class Handle:
    """a drawn object which is of no interest"""


class Canvas:
    """axes which record what is drawn"""

    def __init__(self, log=None):
        self.curves, self.texts, self.patches = [], [], []
        self.xaxis, self.yaxis = TickAxis(), TickAxis()
        self.aspect = None

    def plot(self, xs, ys, *args, **kwargs):
        self.curves.append((list(xs), list(ys), args, kwargs))
        return [Handle()]

    def annotate(self, text, xy, *args, **kwargs):
        self.texts.append((text, tuple(xy), kwargs))
        return Handle()

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def grid(self, *args, **kwargs):
        pass

    def set_aspect(self, aspect, *args, **kwargs):
        self.aspect = aspect

    def set_xlabel(self, *args, **kwargs):
        pass

    def set_ylabel(self, *args, **kwargs):
        pass


class TickAxis:
    minor, major = None, None

    def set_minor_locator(self, locator):
        self.minor = locator

    def set_major_locator(self, locator):
        self.major = locator


class Locator:
    def __init__(self, base=1.0, offset=0.0):
        self.base, self.offset = base, offset


def canvas():
    register_model("matplotlib.patches.Polygon", lambda xy, **kwargs: Patch(xy, **kwargs))
    return Canvas()


def of_primitive(prim, out):
    """what a drawing of a primitive contains: ("point" | "line" | "polygon", primitive), from the outside to the inside"""
    if isinstance(prim, pr.Point):
        out.append(("point", prim))
    elif isinstance(prim, pr.Line):
        out.append(("line", prim))
        return out
    elif isinstance(prim, pr.Polygon):
        out.append(("polygon", prim))
    for _, c in prim.children.items():
        of_primitive(c, out)
    return out


def vertices(p):
    return [start(c) for _, c in p.children.items()]


def degenerate(l):
    return not (length(l) != 0)


def check_drawing(ax, prims, what):
    """the canvas shows the primitives, each once, in the places of their points"""
    expected = []
    for p in prims:
        of_primitive(p, expected)
    curves, patches = list(ax.curves), list(ax.patches)
    for kind, p in expected:
        if kind == "polygon":
            require(len(patches) > 0, what + ": a polygon is drawn")
            patch = patches.pop(0)
            require(patch.closed, what + ": a polygon is closed")
            require_equal(np.array(patch.xy), np.array(vertices(p)), what + ": vertices of a polygon")
        elif kind == "line" and not degenerate(p):
            require(len(curves) > 0, what + ": a line is drawn")
            xs, ys, _, _ = curves.pop(0)
            (ax_, ay), (bx, by) = start(p), end(p)
            require_equal((xs, ys), ([ax_, bx], [ay, by]), what + ": ends of a line")
        elif kind == "point":
            require(len(curves) > 0, what + ": a point is drawn")
            xs, ys, _, kw = curves.pop(0)
            require_equal((xs, ys), ([p.value[0]], [p.value[1]]), what + ": place of a point")
    require(len(curves) == 0 and len(patches) == 0, what + ": nothing else is drawn")
