"""Thickness of matplotlib axes"""
from stubs import *
from catalog import *


def setting(ticks, visible=True, fails=None, box="box"):
    """axes at an arbitrary place in an arbitrary figure, with an axis which extends arbitrarily far"""
    W, H, dpi = sym("W", "+"), sym("H", "+"), sym("dpi", "+")
    fig = Figure(W, H, dpi)
    l, b, w, h = sym("l"), sym("b"), sym("w", "+"), sym("h", "+")
    ax = AxesStub(fig, (sym("ol"), sym("ob"), sym("ow", "+"), sym("oh", "+")))
    ax.rect = (l, b, w, h)
    x0, y0, x1, y1 = sym("bx0"), sym("by0"), sym("bx1"), sym("by1")         # pixels
    axis = Axis("x" if ticks in ("bottom", "top") else "y", ax, ticks,
                Box(x0, y0, x1, y1) if box == "box" else None,
                Box(x0 - sym("e", "+"), y0 - sym("f", "+"), x1 + sym("g", "+"), y1 + sym("i", "+")), visible, fails)
    expected = {
        "bottom": H * b - y0 / dpi, "top": y1 / dpi - H * (b + h), "left": W * l - x0 / dpi, "right": x1 / dpi - W * (l + w),
    }.get(ticks)
    return axis, expected


def thickness_constraints(ticks):
    if ticks in ("bottom", "top"):
        return (cr.AxisThickness(axis="x"), cr.XAxisThickness())
    return (cr.AxisThickness(axis="y"), cr.YAxisThickness())


def ctx_thickness_of_an_axis():
    """the distance, in inches, from the frame to the outer end of the ticks and tick labels"""
    ticks = choose("tick side", SIDES)
    axis, expected = setting(ticks, choose("axis label visible", [True, False]))
    require_equal(cr.get_axis_thickness(axis, ticks), expected, "thickness of an axis with its ticks on the " + ticks + " side")


def ctx_error_of_a_thickness():
    ticks = choose("tick side", SIDES)
    axis, expected = setting(ticks, choose("axis label visible", [True, False]))
    w, h = sym("qw", "+"), sym("qh", "+")
    q = box_at(sym("qx"), sym("qy"), w, h)
    for c in thickness_constraints(ticks):
        require_equal(c((q,), axis), np.array([(h if ticks in ("bottom", "top") else w) - expected]),
                      "height of an x axis region or width of a y axis region minus the thickness of the axis")


def ctx_no_axis_is_zero():
    """before any axis is known, and for an axis without any extent, the thickness is zero"""
    ticks = choose("tick side", SIDES)
    w, h = sym("qw", "+"), sym("qh", "+")
    q = box_at(sym("qx"), sym("qy"), w, h)
    invisible, _ = setting(ticks, box="none", visible=False)
    for c in thickness_constraints(ticks):
        for axis in (None, invisible):
            require_equal(c((q,), axis), np.array([h if ticks in ("bottom", "top") else w]), "no thickness")


def ctx_unknown_tick_side_is_rejected():
    axis, _ = setting(choose("tick side", ["default", "unknown", ""]))
    require_raises((ValueError,), lambda: cr.get_axis_thickness(axis, "bottom"), "ticks on no side or on several sides")


def ctx_regions_of_any_shape():
    """the error of a quadrilateral in general position is measured on its sides"""
    q = quad("q")
    (ax, ay), (bx, by), (cx, cy) = start(q["Line0"]), end(q["Line0"]), end(q["Line1"])
    for c in thickness_constraints("bottom"):
        require_equal(c((q,), None), np.array([cy - by]), "height of the right side")
    for c in thickness_constraints("left"):
        require_equal(c((q,), None), np.array([bx - ax]), "width of the bottom side")
