from common import *
import numpy as np
from mpllayout import primitives as pr


def flags():
    return {n: choose(n, [False, True]) for n in ("xaxis", "yaxis", "twinx", "twiny")}


def expected(f):
    out = {"Frame": pr.Quadrilateral}
    for prefix, on in (("X", f["xaxis"]), ("Y", f["yaxis"]),
                       ("TwinX", f["xaxis"] and f["twinx"]), ("TwinY", f["yaxis"] and f["twiny"])):
        if on:
            out[prefix + "Axis"] = pr.Quadrilateral
            out[prefix + "AxisLabel"] = pr.Point
    return out


def ctx_default_children():
    f = flags()
    a = pr.Axes(**f)
    e = expected(f)
    require(sorted(a.keys()) == sorted(e.keys()), "the children are those the flags ask for")
    require(a.keys()[0] == "Frame", "the frame comes first")
    for k in e:
        require(type(a[k]) is e[k], "frames and axes are quadrilaterals, labels are points")
    values = [a[k].value for k in e if e[k] is pr.Point]
    values = values + [a[k + "/Line" + str(i) + "/Point0"].value for k in e if e[k] is pr.Quadrilateral for i in range(4)]
    for i in range(len(values)):
        for j in range(i):
            require(values[i] is not values[j], "the frame, the axes and the labels are independent of each other")
    require(a.value.shape == (0,), "an axes has no value of its own")


def ctx_given_children_are_paired_with_default_keys():
    """a given primitive ends up under the key that the default primitive at its position has"""
    f = flags()
    default = pr.Axes(**f)
    given = [pr.Quadrilateral() if isinstance(p, pr.Quadrilateral) else pr.Point((sym("x" + str(i)), sym("y" + str(i))))
             for i, p in enumerate(default.values())]
    a = pr.Axes(prims=tuple(given), **f)
    require_equal(a.keys(), default.keys(), "keys do not depend on how children are given")
    for i, k in enumerate(default.keys()):
        require_same(a[k], given[i], "a given primitive is used as it is")


def ctx_child_order():
    """children are ordered frame, axes, twin axes; each label follows its axis and x comes before y"""
    f = flags()
    ks = pr.Axes(**f).keys()
    order = [k for k in ("Frame", "XAxis", "XAxisLabel", "YAxis", "YAxisLabel",
                         "TwinXAxis", "TwinXAxisLabel", "TwinYAxis", "TwinYAxisLabel") if k in expected(f)]
    require_equal(ks, order, "order of the children")


def ctx_default_flags():
    require_equal(pr.Axes().keys(), ["Frame"], "an axes has only a frame by default")


def ctx_positional_flags():
    a = pr.Axes(None, None, True, False, True, False)
    require_equal(a.keys(), ["Frame", "XAxis", "XAxisLabel", "TwinXAxis", "TwinXAxisLabel"], "flags by position")
    b = pr.Axes(None, None, False, True, False, True)
    require_equal(b.keys(), ["Frame", "YAxis", "YAxisLabel", "TwinYAxis", "TwinYAxisLabel"], "flags by position")


def ctx_axes_are_independent():
    f = flags()
    require_disjoint(pr.Axes(**f), pr.Axes(**f), "two default axes are independent")
