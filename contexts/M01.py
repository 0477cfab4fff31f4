"""Sizes and positions of matplotlib figures, axes and axis labels, taken from primitives"""
from stubs import *
from mpllayout import matplotlibutils as mu


def frame(name):
    """an axis-aligned rectangle anywhere: ((x, y, width, height), primitive)"""
    x, y, w, h = sym(name + "x"), sym(name + "y"), sym(name + "w", "+"), sym(name + "h", "+")
    return (x, y, w, h), box_at(x, y, w, h)


def an_axes(name, parts):
    """an axes primitive with a rectangular frame: (frame, x label, y label, primitive)"""
    rect, quad_ = frame(name)
    (x, y, w, h) = rect
    flags = {"xaxis": "x" in parts or "X" in parts, "yaxis": "y" in parts or "Y" in parts,
             "twinx": "X" in parts, "twiny": "Y" in parts}
    labels = {}
    prims = [quad_]
    below = box_at(x, y - sym(name + "t", "+"), w, sym(name + "t", "+"))
    left = box_at(x - sym(name + "u", "+"), y, sym(name + "u", "+"), h)
    above = box_at(x, y + h, w, sym(name + "v", "+"))
    right = box_at(x + w, y, sym(name + "r", "+"), h)
    for k, on, region in (("x", flags["xaxis"], below), ("y", flags["yaxis"], left), ("X", flags["twinx"], above), ("Y", flags["twiny"], right)):
        if on:
            labels[k] = (sym(name + k + "p"), sym(name + k + "q"))
            prims = prims + [region, point_at(*labels[k])]
    return rect, labels, pr.Axes(prims=tuple(prims), **flags)


def root(children):
    return pr.Primitive.from_tree(np.array([]), children)


PARTS = ["", "x", "y", "xy", "xX", "yY", "xyXY", "xyX", "xyY"]


def figure_and_axes(names, parts, kept="F"):
    """the primitives of a figure, and what they say"""
    (fx, fy, fw, fh), fig = frame(kept)
    prims, said = {}, {}
    for i, n in enumerate(names):
        rect, labels, a = an_axes(kept + "a" + str(i), parts[i])
        prims[n] = a
        said[n] = (rect, labels)
    return (fx, fy, fw, fh), fig, prims, said


def check(fig, axs, where, said, what):
    fx, fy, fw, fh = where
    require_equal(fig.width, fw, what + ": figure width in inches")
    require_equal(fig.height, fh, what + ": figure height in inches")
    for n, ax in axs.items():
        (x, y, w, h), labels = said[n]
        l, b, rw, rh = ax.rect
        require_equal(l * fw, x - fx, what + ": left side of axes, from the left side of the figure, in inches")
        require_equal(b * fh, y - fy, what + ": bottom side of axes, from the bottom side of the figure, in inches")
        require_equal(rw * fw, w, what + ": width of axes in inches")
        require_equal(rh * fh, h, what + ": height of axes in inches")
        # the place of axes with a fixed aspect ratio is adjusted within the original place, whenever they are drawn
        require_equal(tuple(ax.original), tuple(ax.rect), what + ": the original place of axes is their place")
        for k, axis in (("x", ax.xaxis), ("y", ax.yaxis)):
            if k not in labels:
                require(axis.label_coords is None, what + ": the label of an axis without a label primitive is not placed")
                continue
            require(axis.label_coords is not None, what + ": an axis label is placed at its label primitive")
            t = axis.label_transform if axis.label_transform is not None else ax.transAxes
            p = t.transform(axis.label_coords)
            require_equal(p[0] / fig.dpi, labels[k][0] - fx, what + ": label x, from the left side of the figure, in inches")
            require_equal(p[1] / fig.dpi, labels[k][1] - fy, what + ": label y, from the bottom side of the figure, in inches")


def new_figure():
    return Figure(sym("W", "+"), sym("H", "+"), sym("dpi", "+"))


def new_axes(fig, n):
    return AxesStub(fig, (sym(n + "l"), sym(n + "b"), sym(n + "w", "+"), sym(n + "h", "+")))


def ctx_update():
    """any number of axes with any axes parts, in a figure whose origin is anywhere"""
    names = choose("axes", [(), ("Axes0",), ("Axes0", "Axes1"), (key("a"), "Axes")])
    if len(names) == 2:
        assume(names[0] != names[1])
    parts = [choose("parts of axes " + str(i), PARTS if i == 0 else ["xy", ""]) for i in range(len(names))]
    where, quad_, prims, said = figure_and_axes(names, parts)
    fig_key = choose("figure key", ["Figure", key("fig")])
    r = root({fig_key: quad_, **prims})
    fig = new_figure()
    axs = {n: new_axes(fig, "m" + str(i)) for i, n in enumerate(names)}
    before = snapshot(r)
    f, out = mu.update_subplots(r, fig_key, fig, axs)
    require(f is fig, "the updated figure is the given figure")
    require_equal(list(out.keys()), list(names), "the updated axes")
    for n in names:
        require(out[n] is axs[n], "the updated axes are the given axes")
    check(fig, axs, where, said, "update")
    require_unchanged(before, r, "primitives are left alone")


def ctx_axes_in_groups():
    """axes below other primitives"""
    where, quad_, prims, said = figure_and_axes(("Axes0",), ("xy",))
    inner = key("inner")
    r = root({"Group": root({inner: prims["Axes0"], "Figure": quad_})})
    fig = new_figure()
    axs = {"Group/" + inner: new_axes(fig, "m")}
    mu.update_subplots(r, "Group/Figure", fig, axs)
    check(fig, axs, where, {"Group/" + inner: said["Axes0"]}, "axes in a group")


def ctx_only_given_axes():
    """axes which are not given, and primitives which are no axes, do not matter"""
    where, quad_, prims, said = figure_and_axes(("Axes0", "Axes1"), ("xy", "xy"))
    r = root({"Point": point("p"), "Axes0": prims["Axes0"], "Line": line("l"), "Axes1": prims["Axes1"], "Figure": quad_})
    fig = new_figure()
    other = new_axes(fig, "other")
    before = snapshot(other)
    axs = {"Axes1": new_axes(fig, "m")}
    f, out = mu.update_subplots(r, "Figure", fig, axs)
    check(fig, axs, where, said, "one of two axes")
    require_equal(list(out.keys()), ["Axes1"], "the updated axes are the given axes")
    require(other.positioned == 0, "other axes stay where they are")


def ctx_last_update_counts():
    """after several updates a figure is as the last primitives say"""
    names = ("Axes0", "Axes1")
    fig = new_figure()
    axs = {n: new_axes(fig, "m" + str(i)) for i, n in enumerate(names)}
    for i in range(2):
        where, quad_, prims, said = figure_and_axes(names, ("xy", "x"), "F" + str(i))
        mu.update_subplots(root({"Figure": quad_, **prims}), "Figure", fig, axs)
    check(fig, axs, where, said, "a second update")


def ctx_small_changes_count():
    """an update that changes sizes and places by a little"""
    d = choose("difference", [2e-5, -2e-5, 2e-3])
    fig = Figure(4, 3, 100)
    axs = {"Axes0": AxesStub(fig, (0.25, 0.25, 0.5, 0.5))}
    for i in range(2):
        changed = choose("changed", ["figure width", "figure height", "figure x", "axes x", "axes width", "axes height", "label"]) if i else None
        by = {changed: d}
        rect = (1 + by.get("axes x", 0), 1, 2 + by.get("axes width", 0), 2 + by.get("axes height", 0))
        at_ = (2 + by.get("label", 0), 0.5)
        where = (by.get("figure x", 0), 0, 4 + by.get("figure width", 0), 3 + by.get("figure height", 0))
        a = pr.Axes(prims=(box_at(*rect), box_at(1, 0, 2, 1), point_at(*at_)), xaxis=True)
        mu.update_subplots(root({"Figure": box_at(*where), "Axes0": a}), "Figure", fig, axs)
        check(fig, axs, where, {"Axes0": (rect, {"x": at_})}, "update")


def ctx_rect_and_size():
    """the helpers agree with the rectangle of a quadrilateral"""
    (x, y, w, h), q = frame("q")
    a, b = mu.width_and_height_from_quad(q)
    require_equal(a, w, "width of a quadrilateral")
    require_equal(b, h, "height of a quadrilateral")
    ox, oy, sx, sy = sym("ox"), sym("oy"), sym("sx", "+"), sym("sy", "+")
    r = mu.rect_from_box(q, np.array([ox, oy]), np.array([sx, sy]))
    require_equal(tuple(r), ((x - ox) / sx, (y - oy) / sy, w / sx, h / sy), "rectangle relative to a figure")
    r = mu.rect_from_box(q, np.array([ox, oy]))
    require_equal(tuple(r), (x - ox, y - oy, w, h), "rectangle in inches")
