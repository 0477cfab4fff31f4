"""Layouts with constraints about which only the routing is known, as functions of the coordinates of their points.

`make(c)` builds the primitives from the values `c[i]` of the points, in the order in which the points are first met.
Where the values are not all those of points, the numbers of values of each primitive are listed instead of their count.
"""
from catalog import *
from mpllayout import layout as lay


def pt(v):
    return pr.Point.from_tree(v, {})


def ln(a, b):
    return pr.Line(prims=(a, b))


def points(c):
    return {"P": pt(c[0]), "Q": pt(c[1])}


def one_point(c):
    return {"P": pt(c[0])}


def two_roots_of_lines(c):
    """only lines at the top, more than ten of them"""
    p = [pt(c[i]) for i in range(4)]
    out = {}
    for i in range(12):
        out["Line" + str(i)] = ln(p[i % 4], p[(i + 1) % 4])
    return out


def same_point_twice(c):
    p = pt(c[0])
    return {"P": p, "Q": pt(c[1]), "R": p}


def lines_with_a_common_point(c):
    p = pt(c[0])
    return {"L": ln(p, pt(c[1])), "M": ln(pt(c[2]), p)}


def point_and_its_line(c):
    p, q = pt(c[0]), pt(c[1])
    return {"Q": p, "L": ln(q, p), "P": q}


def quadrilateral(c):
    return {"Q": pr.Quadrilateral(None, [pt(c[i]) for i in range(4)]), "P": pt(c[4])}


def neighbours(c):
    """two quadrilaterals with a common side, made of the same points"""
    p = [pt(c[i]) for i in range(6)]
    return {"A": pr.Quadrilateral(None, [p[0], p[1], p[2], p[3]]), "B": pr.Quadrilateral(None, [p[1], p[4], p[5], p[2]])}


def figure(c):
    p = [pt(c[i]) for i in range(13)]
    return {"Figure": pr.Quadrilateral(None, p[0:4]),
            "Axes1": pr.Axes(prims=(pr.Quadrilateral(None, p[4:8]), pr.Quadrilateral(None, p[8:12]), p[12]), xaxis=True)}


class Circle(pr.StaticPrimitive):
    """a primitive with a value and a part"""
    signature = (1, (pr.Point,))

    @classmethod
    def init_children(cls, prims):
        return ("Center",), prims

    @classmethod
    def default_value(cls):
        return np.array([1.0])

    @classmethod
    def default_prims(cls):
        return (pr.Point(),)


class Conic(pr.StaticPrimitive):
    """a primitive with many values"""
    signature = (6, ())

    @classmethod
    def init_children(cls, prims):
        return (), prims

    @classmethod
    def default_value(cls):
        return np.zeros(6)

    @classmethod
    def default_prims(cls):
        return ()


def circles(c):
    """two circles around one point, a conic and a circle of the same radius"""
    p = pt(c[1])
    around = lambda r, q: Circle.from_tree(r, {"Center": q})
    return {"A": around(c[0], p), "B": around(c[2], p), "C": Conic.from_tree(c[3], {}), "D": around(c[0], pt(c[4])),
            "L": ln(p, pt(c[5]))}


PP = (pr.Point, pr.Point)


def fan(name, inner=0):
    """a compound with nested parts which exchanges and repeats primitives and parameters"""
    a = unknown(name + "a", 2, PP, 1)
    b = unknown(name + "b", 1, (pr.Point,), 0)
    n = unknown(name + "n", inner, PP, 2, (a, b), ("a", "b"), (("arg1", "arg0"), ("arg1",)), lambda params: ((params[1],), ()))
    return unknown(name + "o", 1, PP, 2, (n, b), ("n", "b"), (("arg1", "arg0"), ("arg0",)),
                   lambda params: ((params[1], params[0]), ()))


def of_line(name):
    return unknown(name, 0, (pr.Line,), 1, (unknown(name + "p", 2, PP, 1),), ("p",), (("arg0/Point1", "arg0/Point0"),),
                   lambda params: (params,))


def cases():
    """name -> (make, number of points, [(constraint, primitive keys, parameters)])"""
    s, t = sym("s"), sym("t")
    f, g = unknown("f", 2, PP, 1), unknown("g", 1, (pr.Point,), 0)
    l = of_line("l")
    h = fan("h")
    return {
        "two points": (points, 2, [(f, ("P", "Q"), (s,)), (g, ("Q",), ())]),
        "no constraints": (points, 2, []),
        "one point": (one_point, 1, [(g, ("P",), ())]),
        "many": (two_roots_of_lines, 4, [(l, ("Line" + str(11 - i),), (sym("m" + str(i)),)) for i in range(12)]),
        "no constraints on a tree": (neighbours, 6, []),
        "empty constraints": (points, 2, [(unknown("z", 0, PP, 1), ("Q", "P"), (s,))]),
        "one constraint several times": (points, 2, [(f, ("P", "Q"), (s,)), (f, ("Q", "P"), (t,)), (f, ("P", "P"), (s,))]),
        "one constraint with other values": (points, 2, [(f, ("P", "Q"), (s,)), (f, ("P", "Q"), (t,))]),
        "a compound with other values": (points, 2, [(h, ("P", "Q"), (s, t)), (h, ("P", "Q"), (t, t))]),
        "one point under two keys": (same_point_twice, 2, [(f, ("P", "R"), (s,)), (f, ("R", "Q"), (t,))]),
        "a common point": (lines_with_a_common_point, 3, [(l, ("L",), (s,)), (l, ("M",), (t,)), (g, ("M/Point1",), ())]),
        "a point and its line": (point_and_its_line, 2, [(l, ("L",), (s,)), (f, ("Q", "P"), (t,))]),
        "values of other sizes": (circles, (1, 2, 1, 6, 2, 2), [
            (unknown("u", 2, (Circle, Conic), 1), ("B", "C"), (s,)), (unknown("v", 1, (Conic, Circle), 0), ("C", "D"), ()),
            (l, ("L",), (t,)), (f, ("D/Center", "A/Center"), (t,))]),
        "a compound": (quadrilateral, 5, [(fan("c"), ("Q/Line1/Point0", "P"), (s, t)), (l, ("Q/Line3",), (t,))]),
        "a common side": (neighbours, 6, [(fan("c", 2), ("A/Line1/Point0", "B/Line3/Point0"), (t, s)), (l, ("B/Line3",), (s,))]),
        "figure and axes": (figure, 13, [(l, ("Axes1/XAxis/Line2",), (s,)), (f, ("Axes1/XAxisLabel", "Figure/Line0/Point0"), (t,))]),
    }


def many_constraints(n):
    """a case with n constraints of various sizes and its layout"""
    library = ((fan("c"), ("Q/Line1/Point0", "P"), 2), (of_line("l"), ("Q/Line3",), 1), (unknown("g", 1, (pr.Point,), 0), ("P",), 0),
               (unknown("z", 0, (pr.Point,), 1), ("P",), 1))
    constraints = []
    for i in range(n):
        c, keys, m = library[(i + 1) % 4]
        constraints.append((c, keys, tuple([sym("m" + str(i) + "_" + str(j)) for j in range(m)])))
    case = (quadrilateral, 5, constraints)
    return case, layout_of(case, start_values(5))


def layout_of(case, values):
    make, n, constraints = case
    l = lay.Layout()
    l.add_prims(make(values))
    for i, (c, keys, params) in enumerate(constraints):
        l.add_constraint(c, keys, params, "c" + str(i) if i % 2 else "")
    return l


def at(prims, k):
    head, _, tail = k.partition("/")
    return prims[head][tail] if tail else prims[head]


def residual_of(case, x):
    """all constraint errors, in the order in which the constraints were added, at the point coordinates x"""
    make, n, constraints = case
    prims = make(values_of(x, n))
    out = [np.zeros(0)]
    for c, keys, params in constraints:
        out.append(c(tuple([at(prims, k) for k in keys]), *params))
    return out


def sizes_of(n):
    """the numbers of values: `n` points, or as listed"""
    return n if isinstance(n, tuple) else n * (2,)


def values_of(x, n):
    out, start = [], 0
    for size in sizes_of(n):
        out.append(x[start:start + size])
        start = start + size
    return out


def start_values(n):
    return [vec("x" + str(i) + "_", size) for i, size in enumerate(sizes_of(n))]


def same_places(root, case, x, what):
    """the primitives of a layout are those of the case, with the values x"""
    expected = case[0](values_of(x, case[1]))
    require_equal(list(root.keys()), list(expected.keys()), what + ": the same primitives in the same order")
    pairs = []
    for k in expected:
        a, b = walk(root[k]), walk(expected[k])
        require_equal([p for p, _ in a], [p for p, _ in b], what + ": the same parts")
        for (p, u), (_, v) in zip(a, b):
            require(type(u) is type(v), what + ": the same kinds of primitives")
            require_equal(u.value, v.value, what + ": value of " + join_path((k,) + p))
            pairs.append((u, v))
    for u, v in pairs:
        if v.value.size == 0:
            continue
        for w, z in pairs:
            if z.value.size > 0:
                require((u.value is w.value) == (v.value is z.value), what + ": shared points stay shared, others stay apart")
