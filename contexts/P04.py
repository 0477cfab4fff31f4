from common import *
import numpy as np
from mpllayout import containers as cn
from mpllayout import primitives as pr


def points(n):
    return [pr.Point((sym("x" + str(i)), sym("y" + str(i)))) for i in range(n)]


def root_of(children):
    return pr.PrimitiveNode(np.array(()), children)


def fresh(values, prefix="n"):
    return [np.array([sym(prefix + str(i) + "_" + str(j)) for j in range(v.size)]) for i, v in enumerate(values)]


def check(root):
    before = snapshot(root)
    flat = cn.flatten("", root)
    index, values = pr.filter_unique_values_from_prim(root)
    nodes = walk(root)
    # every node refers to its own value, and each value is listed once
    require(len(index) == len(nodes), "every node has an index")
    for p, node in nodes:
        k = "/".join([""] + list(p))
        require(k in index, "every node has an index")
        require_same(values[index[k]], node.value, "the indexed value is the value of the node")
    for i in range(len(values)):
        for j in range(i):
            require(values[i] is not values[j], "unique values are unique")
    require(len(values) == len(set(identity_classes(nodes))), "there is one unique value for each shared value")
    require_unchanged(before, root, "extracting unique values")
    # rebuilding from other values
    new = fresh(values)
    back = pr.build_prim_from_unique_values(flat, index, new)
    require_unchanged(before, root, "rebuilding from other values")
    wb = walk(back)
    require_equal([p for p, _ in wb], [p for p, _ in nodes], "rebuilding keeps paths in order")
    for (p, x), (_, y) in zip(nodes, wb):
        require(type(x) is type(y), "rebuilding keeps the type of every node")
        require_same(y.value, new[index["/".join([""] + list(p))]], "a rebuilt node has the value given for it")
        require(y.value.shape == x.value.shape, "values keep their shape")
    require_equal(identity_classes(wb), identity_classes(nodes), "rebuilding keeps exactly the sharing of values")
    # round trip with the old values
    same = pr.build_prim_from_unique_values(flat, index, values)
    for (_, x), (_, y) in zip(nodes, walk(same)):
        require_same(y.value, x.value, "rebuilding from the extracted values gives them back")
    # extracting again from the rebuilt tree finds the same structure
    index2, values2 = pr.filter_unique_values_from_prim(back)
    require_equal(index2, index, "extraction from a rebuilt tree")
    require_equal(values2, new, "extraction from a rebuilt tree")


def ctx_shared_points():
    """lines through any selection of common points"""
    ps = points(3)
    n = choose("number of lines", [1, 2, 3])
    children = {}
    for i in range(n):
        a = choose("start of line " + str(i), range(3))
        b = choose("end of line " + str(i), range(3))
        children[key("l" + str(i))] = pr.Line(prims=(ps[a], ps[b]))
    check(root_of(children))


def ctx_points_beside_lines():
    ps = points(4)
    children = {}
    first = choose("points before lines", [True, False])
    loose = choose("loose points", [(), (0,), (0, 3), (3,), (2, 1)])
    if first:
        for i in loose:
            children[key("p" + str(i))] = ps[i]
    children[key("l")] = pr.Line(prims=(ps[0], ps[1]))
    children[key("m")] = pr.Line(prims=(ps[1], ps[2]))
    if not first:
        for i in loose:
            children[key("p" + str(i))] = ps[i]
    check(root_of(children))


def ctx_equal_but_separate():
    """points with equal coordinates are separate unknowns"""
    a, b = pr.Point((sym("x"), sym("y"))), pr.Point((sym("x"), sym("y")))
    check(root_of({key("a"): a, key("b"): b}))
    v = vec("v", 2)
    check(root_of({key("a"): pr.Point(v), key("b"): pr.Point(v)}))
    _, values = pr.filter_unique_values_from_prim(root_of({key("a"): pr.Point(v), key("b"): pr.Point(v)}))
    require(len([x for x in values if x.size == 2]) == 2, "two points created from one array are two unknowns")


def ctx_polygons():
    n = choose("number of vertices", sizes(1, bound(8, 12), 130))
    poly = pr.Polygon(prims=points(n))
    check(poly)
    _, values = pr.filter_unique_values_from_prim(poly)
    require(len([v for v in values if v.size == 2]) == n, "a polygon has one unknown for each vertex")


def ctx_axes_and_figure():
    f = {n: choose(n, [False, True]) for n in ("xaxis", "yaxis", "twinx", "twiny")}
    root = root_of({key("f"): pr.Quadrilateral(), key("a"): pr.Axes(**f)})
    check(root)
    labels = len([k for k in root[key("a")].keys() if k.endswith("Label")])
    _, values = pr.filter_unique_values_from_prim(root)
    require(len([v for v in values if v.size == 2]) == 4 * (labels + 2) + labels, "one unknown for each vertex and label")


def ctx_same_primitive_twice():
    q = pr.Quadrilateral()
    check(root_of({key("a"): q, key("b"): q, key("c"): pr.Quadrilateral()}))
    axes = pr.Axes(prims=(q, pr.Quadrilateral(), pr.Point()), xaxis=True)
    check(root_of({key("a"): axes, key("b"): q, key("c"): axes["XAxisLabel"]}))


def ctx_nested_keys_that_coincide():
    """the same key below different parents is not confused"""
    ps = points(4)
    inner = root_of({key("a"): ps[0], key("b"): ps[1]})
    outer = root_of({key("b"): ps[2], key("a"): inner, key("c"): root_of({key("a"): ps[3], key("b"): ps[0]})})
    check(outer)


def ctx_values_that_are_parts_of_one_array():
    """as when all unknowns are listed in one array"""
    n = choose("points", [1, 2, 3])
    ps = points(n)
    root = root_of({key("l"): pr.Line(prims=(ps[0], ps[-1])), **{key("p" + str(i)): p for i, p in enumerate(ps)}})
    index, values = pr.filter_unique_values_from_prim(root)
    everything = vec("u", sum([v.size for v in values]))
    parts, i = [], 0
    for v in values:
        parts.append(everything[i:i + v.size])
        i = i + v.size
    check(pr.build_prim_from_unique_values(cn.flatten("", root), index, parts))


def ctx_trivial_trees():
    check(root_of({}))
    check(pr.Point((sym("x"), sym("y"))))
    check(pr.Line(prims=tuple(points(2))))


def ctx_values_beyond_points():
    """primitives with other parameter sizes"""
    class Circle(pr.Primitive):
        signature = (1, (pr.Point,))

        @classmethod
        def init_children(cls, prims):
            return ("Center",), prims

    c = points(1)[0]
    a = Circle(np.array([sym("r")]), (c,))
    b = Circle(np.array([sym("s")]), (c,))
    check(root_of({key("a"): a, key("b"): b, key("c"): c}))
