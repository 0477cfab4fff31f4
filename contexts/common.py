"""Shared pieces of the analysis contexts (most-general clients); interpreted abstractly, never run."""


# ---- tree shapes -----------------------------------------------------------

def forests(n):
    """all ordered forests with exactly n nodes; a tree is the tuple of its child trees"""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for first in forests(k - 1):
            for rest in forests(n - k):
                out.append((first,) + rest)
    return out


def small_shapes(max_nodes):
    """all ordered trees with up to `max_nodes` nodes"""
    out = []
    for n in range(max_nodes):
        out.extend(forests(n))
    return out


def shapes(max_nodes):
    """all ordered trees with up to `max_nodes` nodes, plus deep and wide ones"""
    out = small_shapes(max_nodes)
    deep = ()
    for _ in range(6):
        deep = (deep, ())
    out.append(deep)
    out.append((((),), (), ((), ()), (), (), ((),), ()))
    # wide and deep trees, of every size near a number the code compares with
    for n in sizes(12, 12, 70):
        wide = ((),) * (n - 1) + (((),),)
        out.append(wide)
        chain = ()
        for _ in range(n):
            chain = (chain,)
        out.append(chain)
        if n > 24:
            continue
        chain = ()
        for _ in range(n):
            chain = (chain, ())
        out.append(chain)
    return out


def child_key(scheme, path, n):
    if scheme == "reused":                 # the same keys below every node
        return key("c" + str(n))
    if scheme == "numbered":               # look like automatically generated names
        return "Point" + str(n)
    return key("k" + "_".join([str(i) for i in path + (n,)]))


def build_tree(shape, make, scheme, path=()):
    """make(path, children) -> node"""
    children = {}
    for n, sub in enumerate(shape):
        children[child_key(scheme, path, n)] = build_tree(sub, make, scheme, path + (n,))
    return make(path, children)


def tag(path):
    return "v" + "_".join([str(i) for i in path])


def walk(node, path=()):
    """independent pre-order enumeration [(key tuple, node)] straight from the child dictionaries"""
    out = [(path, node)]
    for k, c in node.children.items():
        out = out + walk(c, path + (k,))
    return out


def join_path(path):
    return "/".join(list(path))


def choose_tree(make, max_nodes=5, schemes=("distinct", "reused")):
    shape = choose("tree shape", shapes(max_nodes))
    scheme = choose("child keys", schemes)
    return build_tree(shape, make, scheme)


def same_tree(a, b, what, types=True, values=True):
    """structure, key order and (optionally) types and value identity agree"""
    wa = walk(a)
    wb = walk(b)
    require_equal([p for p, _ in wa], [p for p, _ in wb], what + ": paths in order")
    for (p, x), (_, y) in zip(wa, wb):
        if types:
            require(type(x) is type(y), what + ": node types agree")
        if values:
            require_same(x.value, y.value, what + ": values are the same")


# ---- primitives ------------------------------------------------------------

REJECTED = (AssertionError, ValueError, TypeError)


def identity_classes(nodes):
    """partition of node positions by identity of their values"""
    out = []
    for _, n in nodes:
        for i, (_, m) in enumerate(nodes):
            if m.value is n.value:
                out.append(i)
                break
    return out


# ---- geometry in general position ------------------------------------------
# (coordinates are arbitrary reals; nothing is assumed about them unless a context says so)

import numpy as np
from mpllayout import primitives as pr


def point(name):
    return pr.Point((sym(name + "x"), sym(name + "y")))


def point_at(x, y):
    return pr.Point((x, y))


def line(name):
    return pr.Line(prims=(point(name + "a"), point(name + "b")))


def line_between(ax, ay, bx, by):
    return pr.Line(prims=(point_at(ax, ay), point_at(bx, by)))


def quad(name):
    return pr.Quadrilateral(None, [point(name + str(i)) for i in range(4)])


def box_at(x, y, w, h):
    """an axis-aligned rectangle from its bottom left corner and its dimensions"""
    return pr.Quadrilateral(None, [point_at(x, y), point_at(x + w, y), point_at(x + w, y + h), point_at(x, y + h)])


def axes(name, xaxis=True, yaxis=True, twinx=True, twiny=True):
    out = [quad(name + "F")]
    for i, on in enumerate((xaxis, yaxis, xaxis and twinx, yaxis and twiny)):
        if on:
            out = out + [quad(name + "A" + str(i)), point(name + "L" + str(i))]
    return pr.Axes(prims=tuple(out), xaxis=xaxis, yaxis=yaxis, twinx=twinx, twiny=twiny)


def xy(p):
    return p.value[0], p.value[1]


def start(l):
    return xy(l["Point0"])


def end(l):
    return xy(l["Point1"])


def direction(l):
    (ax, ay), (bx, by) = start(l), end(l)
    return bx - ax, by - ay


def middle(l):
    (ax, ay), (bx, by) = start(l), end(l)
    return (ax + bx) / 2, (ay + by) / 2


def length(l):
    dx, dy = direction(l)
    return np.sqrt(dx * dx + dy * dy)


def primitive_of(cls, name):
    """an arbitrary instance of a class of primitives"""
    if cls is pr.Point:
        return point(name)
    if cls is pr.Line:
        return line(name)
    if cls is pr.Quadrilateral:
        return quad(name)
    if cls is pr.Axes:
        return axes(name)
    fail("no arbitrary instance of this class")
