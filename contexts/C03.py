from common import *
import numpy as np
from mpllayout import containers as cn
from mpllayout import primitives as pr
from mpllayout import constructions as con
from mpllayout import constraints as cr


class SubNode(cn.Node):
    """a subclass with another constructor"""

    def __init__(self, a, b, c):
        raise RuntimeError("reconstruction must not run subclass constructors")


def make(path, children):
    n = sum(path) + len(path)
    if n % 3 == 0:
        return cn.Node(opaque(tag(path)), children)
    if n % 3 == 1:
        return con.ParamsNode((opaque(tag(path)),), children)
    return SubNode.from_tree(opaque(tag(path)), children)


def check_flat(t, root):
    ref = walk(t)
    it = list(cn.iter_flat(root, t))
    flat = cn.flatten(root, t)
    require(len(it) == len(ref) and len(flat) == len(ref), "one entry for each node")
    keys = []
    for (path, node), (k, n), (fk, ftype, fvalue, fkeys) in zip(ref, it, flat):
        require_equal(k, "/".join([root] + list(path)), "flat key is the root key and the path, in pre-order")
        require_equal(fk, k, "flatten and iteration agree on keys")
        require_same(n, node, "flat iteration returns the node itself")
        require(ftype is type(node), "flat type")
        require_same(fvalue, node.value, "flat value")
        require_equal(list(fkeys), list(node.children), "flat child keys")
        require(k not in keys, "flat keys are unique")
        keys.append(k)
    return flat


VALUES = [None, 0, (), "", False, np.zeros(0), [], {}]


def make_empty(path, children):
    """nodes of different types with values that are false, empty or missing"""
    n = sum(path) + len(path)
    value = VALUES[n % len(VALUES)]
    if n % 3 == 0:
        return SubNode.from_tree(value, children)
    if n % 3 == 1:
        return con.ConstructionNode.from_tree(value, children)
    return cn.Node(value, children)


def ctx_values_that_are_false():
    t = choose_tree(make_empty, bound(4, 5))
    flat = check_flat(t, "")
    back, rest = cn.unflatten(flat)
    require(len(rest) == 0, "nothing is left over")
    same_tree(t, back, "round trip")


def ctx_single_nodes():
    """a node without children, of any type, with any value"""
    cls = choose("class", [cn.Node, SubNode, con.ParamsNode, con.ConstructionNode, con.ConstraintNode if hasattr(con, "ConstraintNode") else cr.ConstraintNode,
                           pr.PrimitiveNode, pr.Point, pr.Line, pr.Quadrilateral, pr.Axes, cr.Fix, cr.PrimKeysNode, cr.ParamsNode])
    value = choose("value", VALUES + [opaque("v")])
    t = cls.from_tree(value, {})
    flat = check_flat(t, "root")
    back, rest = cn.unflatten(flat)
    same_tree(t, back, "round trip")
    same_tree(t, t.copy(), "copy")


def ctx_flatten_unflatten():
    t = choose_tree(make, bound(5, 6))
    root = choose("root key", ["", key("root"), "Figure"])
    before = snapshot(t)
    flat = check_flat(t, root)
    back, rest = cn.unflatten(flat)
    require(len(rest) == 0, "nothing is left over")
    same_tree(t, back, "round trip")
    require_unchanged(before, t, "flattening")
    # the rebuilt tree is made of new nodes
    for (_, x), (_, y) in zip(walk(t), walk(back)):
        require(x is not y, "unflattening creates new nodes")
        require(x.children is not y.children, "unflattening creates new child dictionaries")
    # flattening again gives the same description
    again = cn.flatten(root, back)
    require_equal([x[0] for x in again], [x[0] for x in flat], "flat keys after a round trip")


def ctx_leftover():
    t = choose_tree(make, bound(4, 5))
    u = build_tree(choose("second tree", small_shapes(3)), make, "reused")
    first, second = choose("root keys", [("", ""), ("", "second"), (key("first"), key("first")), (key("first"), ""), ("/", "a")])
    flat = cn.flatten(first, t) + cn.flatten(second, u)
    n = len(flat)
    back, rest = cn.unflatten(flat)
    same_tree(t, back, "first tree of a sequence")
    require(len(rest) == len(walk(u)), "entries of the second tree are left over")
    back2, rest2 = cn.unflatten(rest)
    same_tree(u, back2, "second tree of a sequence")
    require(len(rest2) == 0, "nothing is left over")
    require(len(flat) == n, "unflattening leaves its input alone")


def ctx_editing_after_flattening():
    """a flat tree is a record of the tree at that time"""
    t = choose_tree(make, bound(4, 5), ("distinct",))
    wanted = t.copy()
    flat = cn.flatten("", t)
    for _, node in walk(t):
        node.add_child(key("new"), cn.Node("new", {}))
    back, rest = cn.unflatten(flat)
    same_tree(wanted, back, "a flat tree does not change when its tree is edited")
    require(len(rest) == 0, "nothing is left over")


def ctx_editing_the_rebuilt_tree():
    t = choose_tree(make, bound(4, 5), ("distinct",))
    flat = cn.flatten("", t)
    first, _ = cn.unflatten(flat)
    for _, node in walk(first):
        node.add_child(key("new"), cn.Node("new", {}))
    second, rest = cn.unflatten(flat)
    same_tree(t, second, "a flat tree can be unflattened more than once")
    require(len(rest) == 0, "nothing is left over")


def ctx_subtrees():
    t = choose_tree(make, bound(4, 5))
    for path, node in walk(t):
        back, rest = cn.unflatten(cn.flatten("x", node))
        same_tree(node, back, "round trip of a subtree")


def ctx_flattened_addresses_find_nodes():
    t = choose_tree(make, bound(5, 6))
    for (k, node) in cn.iter_flat("", t):
        if k != "":
            require_same(t[k[1:]], node, "a flat key addresses its node")


def ctx_real_trees():
    which = choose("tree", ["point", "line", "polygon", "quad", "axes", "params", "box", "grid", "root"])
    trees = {
        "point": lambda: pr.Point((sym("x"), sym("y"))),
        "line": lambda: pr.Line(),
        "polygon": lambda: pr.Polygon(size=5),
        "quad": lambda: pr.Quadrilateral(),
        "axes": lambda: pr.Axes(xaxis=True, yaxis=True, twinx=True, twiny=True),
        "params": lambda: cr.Box().root_params(()),
        "box": lambda: cr.Box(),
        "grid": lambda: cr.RectilinearGrid(shape=(2, 3)),
        "root": lambda: pr.PrimitiveNode.from_tree(pr.Line().value, {key("a"): pr.Axes(), key("b"): pr.Point()}),
    }
    t = trees[which]()
    flat = check_flat(t, "")
    back, rest = cn.unflatten(flat)
    require(len(rest) == 0, "nothing is left over")
    same_tree(t, back, "round trip")
