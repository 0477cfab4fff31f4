from common import *
import numpy as np
from mpllayout import primitives as pr


def pt(i):
    return pr.Point((sym("x" + str(i)), sym("y" + str(i))))


def check_loop(poly, n):
    require_equal(poly.keys(), ["Line" + str(i) for i in range(n)], "the edges of a polygon, in order")
    for i in range(n):
        edge, following = poly["Line" + str(i)], poly["Line" + str((i + 1) % n)]
        require(isinstance(edge, pr.Line), "the children of a polygon are lines")
        require_equal(edge.keys(), ["Point0", "Point1"], "an edge has a start and an end point")
        require_same(edge["Point1"].value, following["Point0"].value,
                     "each edge ends in the very vertex the next one starts from")
    starts = [poly["Line" + str(i) + "/Point0"].value for i in range(n)]
    for i in range(n):
        for j in range(i):
            require(starts[i] is not starts[j], "different vertices are different unknowns")


def ctx_given_vertices():
    n = choose("number of vertices", sizes(1, bound(12, 20), 130))
    ps = [pt(i) for i in range(n)]
    given = tuple(ps) if choose("container", ["list", "tuple"]) == "tuple" else list(ps)
    poly = pr.Polygon(prims=given, size=n)
    check_loop(poly, n)
    for i in range(n):
        require_same(poly["Line" + str(i) + "/Point0"].value, ps[i].value, "edge i starts in vertex i")
        require_equal(poly["Line" + str(i) + "/Point0"].value, np.array([sym("x" + str(i)), sym("y" + str(i))]),
                      "vertices have the given coordinates")
    require_equal(list(given), ps, "the given vertices are left alone")


def ctx_given_vertices_without_size():
    n = choose("number of vertices", [1, 2, 3, 4, 5, 8])
    poly = pr.Polygon(prims=[pt(i) for i in range(n)])
    check_loop(poly, n)


def ctx_default_size():
    """a polygon without any inputs is a triangle"""
    check_loop(pr.Polygon(), 3)


def ctx_default_vertices():
    n = choose("number of vertices", sizes(1, bound(12, 20), 130))
    poly = pr.Polygon(size=n)
    check_loop(poly, n)
    for i in range(n):
        require_equal(poly["Line" + str(i) + "/Point0"].value,
                      np.array([np.cos(2 * np.pi * i / n), np.sin(2 * np.pi * i / n)]),
                      "default vertices lie around the unit circle, counter-clockwise")


def ctx_quadrilateral_given():
    ps = [pt(i) for i in range(4)]
    quad = pr.Quadrilateral(None, choose("container", [list, tuple])(ps))
    check_loop(quad, 4)
    for i in range(4):
        require_same(quad["Line" + str(i) + "/Point0"].value, ps[i].value, "edge i starts in vertex i")


def side(quad, i):
    return quad["Line" + str(i) + "/Point0"].value, quad["Line" + str(i) + "/Point1"].value


def ctx_quadrilateral_default():
    q = pr.Quadrilateral()
    check_loop(q, 4)
    require_equal(side(q, 0), (np.array([0, 0]), np.array([1, 0])), "Line0 is the bottom of the unit square")
    require_equal(side(q, 1), (np.array([1, 0]), np.array([1, 1])), "Line1 is the right of the unit square")
    require_equal(side(q, 2), (np.array([1, 1]), np.array([0, 1])), "Line2 is the top of the unit square")
    require_equal(side(q, 3), (np.array([0, 1]), np.array([0, 0])), "Line3 is the left of the unit square")


def ctx_polygons_are_independent():
    makers = {"quadrilateral": lambda: pr.Quadrilateral(), "triangle": lambda: pr.Polygon(), "polygon 3": lambda: pr.Polygon(size=3),
              "polygon 4": lambda: pr.Polygon(size=4), "polygon 5": lambda: pr.Polygon(size=5)}
    x, y = choose("first", sorted(makers)), choose("second", sorted(makers))
    a, b = makers[x](), makers[y]()
    require_disjoint(a, b, "two default polygons are independent")
    # the second one is as it is without the first one
    check_loop(b, len(b))


def ctx_vertices_given_twice():
    """a polygon may go through one of its vertices several times"""
    ps = [pt(i) for i in range(3)]
    order = choose("vertices", [(0, 1, 0, 2), (0, 0, 1), (0, 1, 1, 2), (0, 1, 2, 0), (0, 1, 0, 1), (0, 1, 2, 0, 1)])
    given = [ps[i] for i in order]
    poly = pr.Quadrilateral(None, given) if len(given) == 4 and choose("class", ["quadrilateral", "polygon"]) == "quadrilateral" else \
        pr.Polygon(prims=given, size=len(given))
    n = len(order)
    require_equal(poly.keys(), ["Line" + str(i) for i in range(n)], "the edges of a polygon, in order")
    for i in range(n):
        require_same(poly["Line" + str(i) + "/Point0"].value, given[i].value, "edge i starts in vertex i")
        require_same(poly["Line" + str(i) + "/Point1"].value, given[(i + 1) % n].value, "edge i ends in vertex i + 1")


def ctx_any_vertex_given_twice():
    n = choose("number of vertices", sizes(2, bound(9, 14), 70))
    i = choose("vertex", range(n) if n < 20 else [0, 1, n // 2, n - 2, n - 1])
    j = choose("given again at", [(i + 1) % n, (i + 2) % n, (i + n // 2) % n])
    given = [pt(k) for k in range(n)]
    given[j] = given[i]
    if choose("container", ["list", "tuple"]) == "tuple":
        given = tuple(given)
    poly = pr.Polygon(prims=given, size=n)
    require_equal(poly.keys(), ["Line" + str(k) for k in range(n)], "the edges of a polygon, in order")
    for k in range(n):
        require_same(poly["Line" + str(k) + "/Point0"].value, given[k].value, "edge i starts in vertex i")
        require_same(poly["Line" + str(k) + "/Point1"].value, given[(k + 1) % n].value, "edge i ends in vertex i + 1")


def ctx_shared_vertices():
    """two polygons and a line through common vertices refer to the same unknowns"""
    ps = [pt(i) for i in range(5)]
    a = pr.Polygon(prims=ps[:3])
    b = pr.Polygon(prims=ps[2:])
    line = pr.Line(prims=(ps[2], ps[0]))
    require_same(a["Line2/Point0"].value, b["Line0/Point0"].value, "a common vertex is one unknown")
    require_same(line["Point0"].value, a["Line1/Point1"].value, "a common vertex is one unknown")
    require_same(line["Point1"].value, a["Line2/Point1"].value, "a common vertex is one unknown")
