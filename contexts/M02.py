"""The side of axes on which the ticks of an axis are"""
from stubs import *
from mpllayout import matplotlibutils as mu

SIDES = ("bottom", "top", "left", "right")


def beside(x, y, w, h, side, t):
    """the region of thickness t outside a side of a rectangle"""
    if side == "bottom":
        return box_at(x, y - t, w, t)
    if side == "top":
        return box_at(x, y + h, w, t)
    if side == "left":
        return box_at(x - t, y, t, h)
    return box_at(x + w, y, t, h)


def gap(f, a, side):
    """distances between the ends of a side of the frame and of the opposite side of an axis region"""
    i, j = {"bottom": (0, 2), "right": (1, 3), "top": (2, 0), "left": (3, 1)}[side]
    (ax, ay), (bx, by) = start(f["Line" + str(i)]), end(f["Line" + str(i)])
    (cx, cy), (dx, dy) = start(a["Line" + str(j)]), end(a["Line" + str(j)])
    return np.sqrt((dx - ax) ** 2 + (dy - ay) ** 2 + (cx - bx) ** 2 + (cy - by) ** 2)


def warned():
    seen = []
    register_model("warnings.warn", lambda *args, **kwargs: seen.append(args))
    return seen


def ctx_aligned():
    """an axis region of any thickness which touches a side of the frame"""
    x, y, w, h, t = sym("x"), sym("y"), sym("w", "+"), sym("h", "+"), sym("t", "+")
    side = choose("side", SIDES)
    seen = warned()
    require_equal(mu.find_axis_position(box_at(x, y, w, h), beside(x, y, w, h, side, t)), side, "side of an axis region")
    require(len(seen) == 0, "no warning about an axis region which touches a side")


def ctx_flat():
    """an axis region without any thickness, as before the first measurement"""
    x, y, w, h = sym("x"), sym("y"), sym("w", "+"), sym("h", "+")
    side = choose("side", SIDES)
    seen = warned()
    require_equal(mu.find_axis_position(box_at(x, y, w, h), beside(x, y, w, h, side, 0)), side, "side of an axis region without thickness")
    require(len(seen) == 0, "no warning about an axis region which touches a side")


def ctx_best_side():
    """in general the side with the smallest misalignment"""
    f, a = quad("f"), quad("a")
    seen = warned()
    side = mu.find_axis_position(f, a)
    require(side in SIDES, "an axis is on one of four sides")
    for other in SIDES:
        require(gap(f, a, side) <= gap(f, a, other), "no side is aligned better with the axis region than the " + side)


def ctx_misaligned_is_reported():
    """a region which touches no side is on the nearest one, with a warning"""
    x, y = sym("x"), sym("y")
    side = choose("side", SIDES)
    dx, dy = choose("displacement", [(1, 0), (0, 1), (-1, 1), (0, -0.25)])
    f = box_at(x, y, 16, 9)
    a = beside(x + dx, y + dy, 16, 9, side, 3)
    seen = warned()
    require_equal(mu.find_axis_position(f, a), side, "side of a displaced axis region")
    require(len(seen) > 0, "a warning about a displaced axis region")


def ctx_any_misalignment_is_reported():
    """however small, large, near or far the axis region is"""
    x, y = sym("x"), sym("y")
    w, h, t = choose("sizes", [(16, 9, 3), (1, 1, 1), (0.125, 64, 0.5), (1, 1, 0)])
    side = choose("side", SIDES)
    dx, dy = choose("displacement", [(0.2, -2), (0.001, 0), (0, -0.001), (-100, 100), (0.5, 0.5), (0, 3)])
    seen = warned()
    mu.find_axis_position(box_at(x, y, w, h), beside(x + dx, y + dy, w, h, side, t))
    f, a = box_at(0, 0, w, h), beside(dx, dy, w, h, side, t)
    touching = [s for s in SIDES if gap(f, a, s) == 0]
    require(len(seen) > 0 or len(touching) > 0, "a warning about an axis region which touches no side")


def ctx_ticks_of_misaligned_axes():
    """the ticks are on the best aligned one of the sides that the axis can have"""
    f = box_at(sym("x"), sym("y"), 16, 9)
    name = choose("axis", ["x", "y"])
    valid = ("bottom", "top") if name == "x" else ("left", "right")
    region = choose("region", ["any", "the frame itself", "a copy of the frame", "other side"])
    x, y = sym("x"), sym("y")
    if region == "any":
        a = quad("a")
    elif region == "the frame itself":
        a = f
    elif region == "a copy of the frame":
        a = box_at(x, y, 16, 9)
    else:
        a = beside(x, y, 16, 9, choose("side", ("left", "right") if name == "x" else ("bottom", "top")), sym("t", "+"))
    prims = pr.Axes(prims=(f, a, point("l")), xaxis=name == "x", yaxis=name == "y")
    fig = Figure(sym("W", "+"), sym("H", "+"), sym("dpi", "+"))
    ax = AxesStub(fig, (0, 0, 1, 1))
    seen = warned()
    r = pr.Primitive.from_tree(np.array([]), {"Figure": box_at(sym("fx"), sym("fy"), sym("fw", "+"), sym("fh", "+")), "Axes": prims})
    mu.update_subplots(r, "Figure", fig, {"Axes": ax})
    side = (ax.xaxis if name == "x" else ax.yaxis).tick_position
    require(side in valid, "the ticks of an x axis are at the bottom or the top, those of a y axis at the left or the right")
    for other in valid:
        require(gap(f, a, side) <= gap(f, a, other), "no side is aligned better with the axis region than the " + side)
    if region != "any":
        require(len(seen) > 0, "a warning about an axis region which touches no side where the axis can be")


def ctx_ticks_of_axes():
    """each axis with a region has its ticks on the side where the region is"""
    x, y, w, h = sym("x"), sym("y"), sym("w", "+"), sym("h", "+")
    xside, yside = choose("x axis", ["none", "bottom", "top"]), choose("y axis", ["none", "left", "right"])
    prims = [box_at(x, y, w, h)]
    twins = []
    for side, name, opposite in ((xside, "t", {"bottom": "top", "top": "bottom"}), (yside, "u", {"left": "right", "right": "left"})):
        if side != "none":
            prims = prims + [beside(x, y, w, h, side, sym(name, "+")), point(name)]
            twins = twins + [beside(x, y, w, h, opposite[side], sym(name + "2", "+")), point(name + "2")]
    twin = choose("twins", [False, True])
    a = pr.Axes(prims=tuple(prims + (twins if twin else [])), xaxis=xside != "none", yaxis=yside != "none",
                twinx=twin and xside != "none", twiny=twin and yside != "none")
    fig = Figure(sym("W", "+"), sym("H", "+"), sym("dpi", "+"))
    ax = AxesStub(fig, (0, 0, 1, 1))
    seen = warned()
    r = pr.Primitive.from_tree(np.array([]), {"Figure": box_at(sym("fx"), sym("fy"), sym("fw", "+"), sym("fh", "+")), "Axes": a})
    mu.update_subplots(r, "Figure", fig, {"Axes": ax})
    require(len(seen) == 0, "no warning about axis regions which touch the frame")
    for side, axis in ((xside, ax.xaxis), (yside, ax.yaxis)):
        if side == "none":
            require("ticks" not in axis.log, "the ticks of an axis without a region stay where they are")
        else:
            require_equal(axis.tick_position, side, "side of the ticks of an axis")
