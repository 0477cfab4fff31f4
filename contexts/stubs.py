"""Stand-ins of matplotlib objects with arbitrary geometry; they implement the documented interfaces."""
from common import *


class Transform:
    """scale, then translate"""

    def __init__(self, sx, sy, tx, ty):
        self.sx, self.sy, self.tx, self.ty = sx, sy, tx, ty

    def inverted(self):
        return Transform(1 / self.sx, 1 / self.sy, -self.tx / self.sx, -self.ty / self.sy)

    def transform(self, values):
        values = np.array(values)
        if values.ndim == 1:
            return np.array([values[0] * self.sx + self.tx, values[1] * self.sy + self.ty])
        return np.array([[p[0] * self.sx + self.tx, p[1] * self.sy + self.ty] for p in values])

    transform_point = transform

    def transform_bbox(self, box):
        return box.transformed(self)


class Box:
    """a bounding box"""

    def __init__(self, x0, y0, x1, y1):
        self.x0, self.y0, self.x1, self.y1 = x0, y0, x1, y1
        self.xmin, self.ymin, self.xmax, self.ymax = x0, y0, x1, y1
        self.width, self.height = x1 - x0, y1 - y0
        self.p0, self.p1 = np.array([x0, y0]), np.array([x1, y1])
        self.min, self.max = np.array([x0, y0]), np.array([x1, y1])
        self.size = np.array([x1 - x0, y1 - y0])
        self.bounds = (x0, y0, x1 - x0, y1 - y0)
        self.extents = np.array([x0, y0, x1, y1])
        self.intervalx, self.intervaly = (x0, x1), (y0, y1)

    def get_points(self):
        return np.array([[self.x0, self.y0], [self.x1, self.y1]])

    def transformed(self, t):
        return Box(self.x0 * t.sx + t.tx, self.y0 * t.sy + t.ty, self.x1 * t.sx + t.tx, self.y1 * t.sy + t.ty)

    def padded(self, w, h=None):
        h = w if h is None else h
        return Box(self.x0 - w, self.y0 - h, self.x1 + w, self.y1 + h)

    def translated(self, x, y):
        return Box(self.x0 + x, self.y0 + y, self.x1 + x, self.y1 + y)

    def frozen(self):
        return Box(self.x0, self.y0, self.x1, self.y1)

    def __array__(self):
        return self.get_points()


class Figure:
    def __init__(self, width, height, dpi):
        self.width, self.height, self.dpi = width, height, dpi
        self.log = []
        self.added = []
        self.transFigure = Transform(dpi * width, dpi * height, 0, 0)
        self.dpi_scale_trans = Transform(dpi, dpi, 0, 0)
        self.bbox = Box(0, 0, dpi * width, dpi * height)

    def get_size_inches(self):
        return np.array([self.width, self.height])

    def get_figwidth(self):
        return self.width

    def get_figheight(self):
        return self.height

    def get_dpi(self):
        return self.dpi

    def set_size_inches(self, w, h=None, forward=True):
        if h is None:
            w, h = w
        self.width, self.height = w, h
        self.transFigure.sx, self.transFigure.sy = self.dpi * w, self.dpi * h       # the same transform, of the new size
        self.bbox = Box(0, 0, self.dpi * w, self.dpi * h)
        self.log.append("size")

    def set_figwidth(self, w, forward=True):
        self.set_size_inches(w, self.height)

    def set_figheight(self, h, forward=True):
        self.set_size_inches(self.width, h)

    def add_axes(self, rect, **kwargs):
        ax = AxesStub(self, tuple(rect.bounds if isinstance(rect, Box) else rect))
        self.added.append(ax)
        return ax


class Label:
    def __init__(self, visible, text="text"):
        self.visible = visible
        self.text = text
        self.history = []

    def get_text(self):
        return self.text

    def get_visible(self):
        return self.visible

    def set_visible(self, b):
        self.visible = b
        self.history.append(b)


class Axis:
    """an x or y axis of axes in a figure"""

    def __init__(self, name, axes, tick_position="unknown", box=None, box_with_label=None, visible=True, fails=None, text="text"):
        self.axis_name = name
        self.axes = axes
        self.figure = axes.figure
        self.label = Label(visible, text)
        self.tick_position = tick_position
        self.box, self.box_with_label = box, box_with_label
        self.fails = fails
        self.label_coords = None
        self.log = []

    def get_figure(self, root=False):
        return self.figure

    def get_label(self):
        return self.label

    def get_tightbbox(self, renderer=None, for_layout_only=False):
        self.log.append("measure")
        if self.fails is not None:
            raise self.fails
        return self.box_with_label if self.label.visible else self.box

    def get_ticks_position(self):
        return self.tick_position

    def set_ticks_position(self, position):
        sides = ("bottom", "top") if self.axis_name.startswith("x") else ("left", "right")
        if position not in sides + ("both", "default", "none"):
            raise ValueError(str(position) + " is not a valid value for position")
        self.tick_position = position
        self.log.append("ticks")

    def set_label_coords(self, x, y, transform=None):
        self.label_coords = (x, y)
        self.label_transform = transform
        self.log.append("label")

    def tick_bottom(self):
        self.set_ticks_position("bottom")

    def tick_top(self):
        self.set_ticks_position("top")

    def tick_left(self):
        self.set_ticks_position("left")

    def tick_right(self):
        self.set_ticks_position("right")


class AxesStub:
    def __init__(self, figure, rect):
        self.figure = figure
        self.rect = rect
        self.original = rect            # the place before any adjustment for a fixed aspect
        self.positioned = 0
        self.xaxis = Axis("x", self)
        self.yaxis = Axis("y", self)

    def get_figure(self, root=False):
        return self.figure

    @property
    def transAxes(self):
        x, y, w, h = self.rect
        t = self.figure.transFigure
        return Transform(t.sx * w, t.sy * h, t.sx * x, t.sy * y)

    def get_position(self, original=False):
        x, y, w, h = self.original if original else self.rect
        return Box(x, y, x + w, y + h)

    def get_window_extent(self, renderer=None):
        return self.bbox

    @property
    def bbox(self):
        return self.get_position().transformed(self.figure.transFigure)

    def set_position(self, pos, which="both"):
        if isinstance(pos, Box):
            pos = pos.bounds
        if which in ("both", "active"):
            self.rect = tuple(pos)
        if which in ("both", "original"):
            self.original = tuple(pos)
        self.positioned = self.positioned + 1
