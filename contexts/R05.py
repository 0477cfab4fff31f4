"""Positions of axis regions and axis labels of axes"""
from common import *
from catalog import *

ON = {"bottom": (0, -1), "top": (0, 1), "left": (-1, 0), "right": (1, 0)}
OPPOSITE = {"left": "right", "right": "left", "bottom": "top", "top": "bottom"}


def region(side, x, y, w, h, d):
    """a rectangle outside the frame (x, y, w, h) along one of its sides"""
    return {"bottom": (x, y - d, w, d), "top": (x, y + h, w, d), "left": (x - d, y, d, h), "right": (x + w, y, d, h)}[side]


def axes_with(frame, regions, labels):
    """axes with both axes and both twin axes; regions in the order x, y, twin x, twin y"""
    prims = [box_at(*frame)]
    for i in range(4):
        prims = prims + [box_at(*regions[i]), labels[i]]
    return pr.Axes(prims=tuple(prims), xaxis=True, yaxis=True, twinx=True, twiny=True)


KEYS = ("XAxis", "YAxis", "TwinXAxis", "TwinYAxis")


def frame():
    return (sym("x"), sym("y"), sym("w", "+"), sym("h", "+"))


def other_region(n):
    return (sym("ox" + n), sym("oy" + n), sym("ow" + n), sym("oh" + n))


def ctx_regions_have_the_documented_keys():
    f = frame()
    regions = [other_region(str(i)) for i in range(4)]
    labels = [point("l" + str(i)) for i in range(4)]
    a = axes_with(f, regions, labels)
    for k, r, l in zip(KEYS, regions, labels):
        require_equal(start(a[k]["Line0"]), (r[0], r[1]), "axis regions have the documented keys")
        require_equal(xy(a[k + "Label"]), xy(l), "axis labels have the documented keys")


def choices():
    axis = choose("axis", ["x", "y"])
    side = choose("side", ["bottom", "top"] if axis == "x" else ["left", "right"])
    twin = choose("twin", [False, True])
    made = choose("constructor", ["general", "specific"])
    if made == "general":
        c = cr.PositionAxis(axis=axis, side=side, twin=twin)
    elif axis == "x":
        c = cr.PositionXAxis(side=side, twin=twin)
    else:
        c = cr.PositionYAxis(side=side, twin=twin)
    return axis, side, twin, c


def ctx_axis_side():
    axis, side, twin, c = choices()
    f = frame()
    i = 0 if axis == "x" else 1
    regions = [other_region(str(n)) for n in range(4)]
    regions[i] = region(side, *(f + (sym("d", "+"),)))
    if twin:
        regions[i + 2] = region(OPPOSITE[side], *(f + (sym("g", "+"),)))
    labels = [point("l" + str(n)) for n in range(4)]
    require_zero(c((axes_with(f, regions, labels),)), "an axis region outside on the given side, a twin on the opposite side")
    for n in ([i, i + 2] if twin else [i]):
        for k in range(2):
            wrong = list(regions)
            r = list(wrong[n])
            r[k] = r[k] + sym("e", "+")
            wrong[n] = tuple(r)
            require_nonzero(c((axes_with(f, wrong, labels),)), "a moved axis region")
        wrong = list(regions)
        s = side if n == i else OPPOSITE[side]
        wrong[n] = region(OPPOSITE[s], *(f + (sym("d", "+"),)))
        require_nonzero(c((axes_with(f, wrong, labels),)), "an axis region on the other side")
        wrong[n] = {"bottom": (f[0], f[1], f[2], sym("d", "+")), "top": (f[0], f[1] + f[3] - sym("d", "+"), f[2], sym("d", "+")),
                    "left": (f[0], f[1], sym("d", "+"), f[3]), "right": (f[0] + f[2] - sym("d", "+"), f[1], sym("d", "+"), f[3])}[s]
        require_nonzero(c((axes_with(f, wrong, labels),)), "an axis region inside of the frame")


def ctx_only_the_given_axis_is_positioned():
    axis, side, twin, c = choices()
    i = 0 if axis == "x" else 1
    f = frame()
    regions = [other_region(str(n)) for n in range(4)]
    regions[i] = region(side, *(f + (sym("d", "+"),)))
    if twin:
        regions[i + 2] = region(OPPOSITE[side], *(f + (sym("g", "+"),)))
    a = axes_with(f, regions, [point("l" + str(n)) for n in range(4)])
    regions = [r if n == i or (twin and n == i + 2) else other_region("again" + str(n)) for n, r in enumerate(regions)]
    b = axes_with(f, regions, [point("m" + str(n)) for n in range(4)])
    require_equal(c((a,)), c((b,)), "labels and other axis regions do not matter")


def ctx_label_position():
    axis = choose("axis", ["x", "y"])
    twin = choose("twin", [False, True])
    made = choose("constructor", ["general", "specific"])
    if made == "general":
        c = cr.PositionAxisLabel(axis=axis, twin=twin)
    elif axis == "x":
        c = cr.PositionXAxisLabel(twin=twin)
    else:
        c = cr.PositionYAxisLabel(twin=twin)
    i = (0 if axis == "x" else 1) + (2 if twin else 0)
    f = frame()
    t = sym("t")
    labels = [point("l" + str(n)) for n in range(4)]
    regions = [other_region(str(n)) for n in range(4)]
    along, across = sym("along"), sym("across")
    labels[i] = point_at(along, across) if axis == "x" else point_at(across, along)
    expected = (along - f[0]) / f[2] if axis == "x" else (along - f[1]) / f[3]
    require_equal(c((axes_with(f, regions, labels),), t), np.array([expected - t]),
                  "a label position is a fraction of the frame, from the left or the bottom")


def ctx_unknown_options_are_rejected():
    bad = choose("option", ["", "z", "X", None])
    require_raises((ValueError, TypeError), lambda: cr.PositionAxisLabel(axis=bad), "an unknown axis")
    require_raises((ValueError, TypeError), lambda: cr.PositionAxis(side=bad), "an unknown side")


def ctx_defaults():
    f = frame()
    regions = [other_region(str(n)) for n in range(4)]
    labels = [point("l" + str(n)) for n in range(4)]
    a = axes_with(f, regions, labels)
    require_equal(cr.PositionAxis()((a,)), cr.PositionAxis(axis="x", side="bottom", twin=False)((a,)), "default position")
    require_equal(cr.PositionXAxis()((a,)), cr.PositionAxis(axis="x", side="bottom", twin=False)((a,)), "default position")
    require_equal(cr.PositionYAxis()((a,)), cr.PositionAxis(axis="y", side="left", twin=False)((a,)), "default position")
    t = sym("t")
    require_equal(cr.PositionAxisLabel()((a,), t), cr.PositionXAxisLabel(twin=False)((a,), t), "default label position")
