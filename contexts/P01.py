from common import *
import numpy as np
import jax.numpy as jnp
from mpllayout import primitives as pr


def pt(name):
    return pr.Point((sym(name + "x"), sym(name + "y")))


class Other:
    """not a primitive"""


def container(kind, items):
    if kind == "tuple":
        return tuple(items)
    if kind == "list":
        return list(items)
    if kind == "array":
        return np.array(items)
    return jnp.array(items)


KINDS = ["tuple", "list", "array", "jax array"]


def ctx_point_value():
    kind = choose("kind of value", KINDS)
    n = choose("number of coordinates", range(0, bound(6, 9)))
    x = [sym("x" + str(i)) for i in range(n)]
    v = container(kind, x)
    if n == 2:
        p = pr.Point(v)
        require(p.value.shape == (2,), "a point has two coordinates")
        require(isinstance(p.value, np.ndarray), "a point value is an array")
        require_equal(p.value, np.array(x), "a point has the given coordinates")
        require(len(p) == 0, "a point has no children")
    else:
        require_raises(REJECTED, lambda: pr.Point(v), "a point with another number of coordinates")


def ctx_point_value_of_another_type():
    bad = choose("value", [1.0, "ab", Other(), {0: 1.0, 1: 2.0}])
    require_raises(REJECTED, lambda: pr.Point(bad), "a point value of another type")


def ctx_point_value_of_another_shape():
    """only a flat sequence of two numbers is a point, however the two numbers are nested"""
    rows, columns = choose("shape", [(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (3, 2)])
    x = [[sym("x" + str(i) + str(j)) for j in range(columns)] for i in range(rows)]
    v = container(choose("kind of value", KINDS), x)
    require_raises(REJECTED, lambda: pr.Point(v), "a point from nested coordinates")


def ctx_node_value_of_another_shape():
    shape = choose("shape", [(0, 1), (0, 2), (0, 0), (1, 0)])
    cls = choose("class", [pr.Line, pr.Polygon, pr.Quadrilateral, pr.Axes])
    require_raises(REJECTED, lambda: cls(np.zeros(shape)), "a composite primitive with a table as its value")


def ctx_point_does_not_alias_the_given_array():
    a = vec("x", 2)
    p, q = pr.Point(a), pr.Point(a)
    require(p.value is not q.value, "points created from one array have values of their own")
    require_equal(p.value, a, "a point has the given coordinates")


def ctx_default_values():
    cls, n = choose("class", [(pr.Point, 2), (pr.Line, 0), (pr.Polygon, 0), (pr.Quadrilateral, 0), (pr.Axes, 0)])
    p = cls()
    require(isinstance(p.value, np.ndarray) and p.value.shape == (n,), "default values have the declared size")
    q = cls()
    require_disjoint(p, q, "two default primitives are independent", arrays=True)


def ctx_composite_with_own_value_is_rejected():
    n = choose("size of the value", range(0, 5))
    make = {
        "line": lambda v: pr.Line(v, (pt("a"), pt("b"))),
        "polygon": lambda v: pr.Polygon(v, [pt("a"), pt("b"), pt("c")]),
        "quad": lambda v: pr.Quadrilateral(v, [pt("a"), pt("b"), pt("c"), pt("d")]),
        "axes": lambda v: pr.Axes(v, (pr.Quadrilateral(),)),
        "node": lambda v: pr.PrimitiveNode(v, {}),
    }[choose("class", ["line", "polygon", "quad", "axes", "node"])]
    if n == 0:
        p = make(np.array(()))
        require(p.value.shape == (0,), "a composite primitive has no value of its own")
    else:
        require_raises(REJECTED, lambda: make(vec("v", n)), "a composite primitive with a value")


def ctx_line_children():
    n = choose("number of points", range(0, bound(5, 7)))
    ps = tuple([pt("p" + str(i)) for i in range(n)])
    if choose("container", ["tuple", "list"]) == "list":
        ps = list(ps)
    if n == 2:
        line = pr.Line(prims=ps)
        require_equal(line.keys(), ["Point0", "Point1"], "keys of a line")
        require_same(line["Point0"], ps[0], "the start point")
        require_same(line["Point1"], ps[1], "the end point")
    else:
        require_raises(REJECTED, lambda: pr.Line(prims=ps), "a line through another number of points")


def ctx_line_children_of_another_type():
    good = pt("p")
    bad = choose("primitive", [pr.Line(), pr.Quadrilateral(), pr.PrimitiveNode(np.array(()), {}), Other(), None])
    first = choose("order", [True, False])
    ps = (bad, good) if first else (good, bad)
    require_raises(REJECTED + (AttributeError,), lambda: pr.Line(prims=ps), "a line through something that is no point")


def ctx_point_with_children_is_rejected():
    require_raises(REJECTED, lambda: pr.Point((sym("x"), sym("y")), (pt("p"),)), "a point with child primitives")


def ctx_subclasses_are_accepted():
    class NamedPoint(pr.Point):
        pass
    a = NamedPoint((sym("x"), sym("y")))
    line = pr.Line(prims=(a, pt("b")))
    require_same(line["Point0"], a, "a line through an instance of a subclass of points")


def ctx_polygon_children_of_another_type():
    n = choose("number of vertices", range(1, 6))
    i = choose("position", range(n))
    bad = choose("primitive", [pr.Line(), pr.Quadrilateral()])
    ps = [pt("p" + str(j)) for j in range(n)]
    ps[i] = bad
    require_raises(REJECTED, lambda: pr.Polygon(prims=ps, size=n), "a polygon through something that is no point")


def ctx_quadrilateral_has_four_vertices():
    n = choose("number of vertices", range(0, bound(8, 12)))
    ps = [pt("p" + str(j)) for j in range(n)]
    if n == 4:
        q = pr.Quadrilateral(None, ps)
        require_equal(q.keys(), ["Line0", "Line1", "Line2", "Line3"], "keys of a quadrilateral")
    else:
        require_raises(REJECTED, lambda: pr.Quadrilateral(None, ps), "a quadrilateral with another number of vertices")


def axes_children(flags):
    x, y, tx, ty = flags
    out = [pr.Quadrilateral()]
    for present in (x, y, x and tx, y and ty):
        if present:
            out = out + [pr.Quadrilateral(), pr.Point((sym("lx"), sym("ly")))]
    return out


def ctx_axes_children():
    flags = tuple([choose(n, [False, True]) for n in ("xaxis", "yaxis", "twinx", "twiny")])
    good = axes_children(flags)
    how = choose("children", ["as many as needed", "one missing", "none", "one too many", "an axis too many", "swapped types"])
    kw = dict(zip(("xaxis", "yaxis", "twinx", "twiny"), flags))
    if how == "as many as needed":
        a = pr.Axes(prims=tuple(good), **kw)
        require_equal(a.values(), good, "the children of an axes are the given primitives, in order")
        return
    if how == "one missing":
        bad = good[:-1]
    elif how == "none":
        bad = []
    elif how == "one too many":
        bad = good + [pr.Point()]
    elif how == "an axis too many":
        bad = good + [pr.Quadrilateral(), pr.Point()]
    else:
        bad = [pr.Point() if isinstance(p, pr.Quadrilateral) else pr.Quadrilateral() for p in good]
    require_raises(REJECTED, lambda: pr.Axes(prims=tuple(bad), **kw), "an axes with other children than its flags ask for")


def ctx_generic_node():
    a, b = key("a"), key("b")
    bad = choose("child", ["none", Other(), 1.0])
    if bad == "none":
        n = pr.PrimitiveNode(np.array(()), {a: pt("p"), b: pr.Axes()})
        require_equal(n.keys(), [a, b], "keys of a generic node")
    else:
        require_raises(REJECTED + (AttributeError,), lambda: pr.PrimitiveNode(np.array(()), {a: pt("p"), b: bad}),
                       "a generic node with a child that is no primitive")


def ctx_repeated_points():
    """one point may be given several times"""
    p, q = pt("p"), pt("q")
    a, b = choose("points", [(p, p), (p, q), (q, p)])
    line = pr.Line(prims=(a, b))
    require_same(line["Point0"], a, "the start point")
    require_same(line["Point1"], b, "the end point")
    n = choose("vertices", [3, 4, 5])
    ps = [(a, b, a, a, b)[i] for i in range(n)]
    for polygon in (pr.Polygon(prims=ps, size=n), pr.Quadrilateral(None, ps) if n == 4 else pr.Polygon(None, ps, size=n)):
        require(len(polygon) == n, "as many sides as vertices")
        for i in range(n):
            side = polygon["Line" + str(i)]
            require_same(side["Point0"].value, ps[i].value, "a side starts at its vertex")
            require_same(side["Point1"].value, ps[(i + 1) % n].value, "a side ends at the next vertex")


def ctx_equal_points():
    """points at the same place are still different points"""
    x, y = sym("x"), sym("y")
    p, q = pr.Point((x, y)), pr.Point((x, y))
    line = pr.Line(prims=(p, q))
    require_same(line["Point0"], p, "the start point")
    require_same(line["Point1"], q, "the end point")
    require(line["Point0"].value is not line["Point1"].value, "points at the same place are different points")
    poly = pr.Polygon(prims=[p, q, pr.Point((x, y))], size=3)
    require(poly["Line0/Point0"].value is not poly["Line1/Point0"].value, "points at the same place are different points")
    require_same(poly["Line0/Point1"].value, poly["Line1/Point0"].value, "neighbouring sides share a point")
