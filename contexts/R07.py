"""Measuring an axis leaves it as it was"""
from stubs import *
from catalog import *


class Interrupted(Exception):
    """an error while matplotlib measures the text"""


def setting(ticks, visible, fails, box, text="text"):
    W, H, dpi = sym("W", "+"), sym("H", "+"), sym("dpi", "+")
    ax = AxesStub(Figure(W, H, dpi), (sym("l"), sym("b"), sym("w", "+"), sym("h", "+")))
    region = Box(sym("bx0"), sym("by0"), sym("bx1"), sym("by1"))
    return Axis("x", ax, ticks, region if box else None, region, visible, fails, text)


ERRORS = {
    "none": None, "an error of matplotlib": RuntimeError("no renderer"), "a value error": ValueError("bad text"),
    "an interruption": KeyboardInterrupt(), "an exit": SystemExit(), "an error of its own": Interrupted("later"),
}


def measure(axis, how):
    if how == "function":
        return lambda: cr.get_axis_thickness(axis, axis.get_ticks_position())
    if how == "constraint":
        return lambda: cr.XAxisThickness()((quad("q"),), axis)
    return lambda: cr.AxisThickness(axis="y").root_params((axis,))


def ctx_label_visibility_is_restored():
    ticks = choose("tick side", SIDES + ("unknown",))
    visible = choose("axis label visible", [True, False])
    fails = ERRORS[choose("error while measuring", sorted(ERRORS.keys()))]
    box = choose("axis has an extent", [True, False])
    axis = setting(ticks, visible, fails, box, choose("label", ["", "text", " ", key("text")]))
    text = axis.label.get_text()
    rect = axis.axes.rect
    ok, v = attempt(measure(axis, choose("measured by", ["function", "constraint", "parameters"])))
    require(axis.label.get_visible() is visible, "the visibility of the axis label is restored on every way out")
    require_equal(axis.label.get_text(), text, "the text of the label is kept")
    require(axis.get_ticks_position() == ticks, "the ticks stay where they are")
    require_same(axis.axes.rect, rect, "the axes stay where they are")
    require(axis.axes.figure.log == [], "the figure keeps its size")
    if fails is not None:
        require(not ok, "an error while measuring is not swallowed")
        require_same(v, fails, "an error while measuring is passed on")


def ctx_label_is_ignored_while_measuring():
    """the axis is measured without its label"""
    ticks = choose("tick side", SIDES)

    class Watched(Axis):
        def get_tightbbox(self, renderer=None, for_layout_only=False):
            require(self.label.get_visible() is False, "the axis is measured without its label")
            return self.box
    ax = AxesStub(Figure(sym("W", "+"), sym("H", "+"), sym("dpi", "+")), (sym("l"), sym("b"), sym("w", "+"), sym("h", "+")))
    axis = Watched("x", ax, ticks, Box(sym("bx0"), sym("by0"), sym("bx1"), sym("by1")), None, choose("axis label visible", [True, False]))
    cr.get_axis_thickness(axis, ticks)
    require(axis.label.history != [] or not axis.label.visible, "the label was hidden")


def ctx_measuring_twice():
    ticks = choose("tick side", SIDES)
    axis = setting(ticks, choose("axis label visible", [True, False]), None, True)
    first = cr.get_axis_thickness(axis, ticks)
    require_equal(cr.get_axis_thickness(axis, ticks), first, "measuring again gives the same thickness")
