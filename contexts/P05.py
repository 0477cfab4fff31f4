from common import *
import numpy as np
import jax
from mpllayout import containers as cn
from mpllayout import primitives as pr


def round_trip(t, what):
    before = snapshot(t)
    leaves, structure = jax.tree_util.tree_flatten(t)
    nodes = walk(t)
    require(len(leaves) == len(nodes), what + ": one leaf for each node")
    for leaf, (_, node) in zip(leaves, nodes):
        require_same(leaf, node.value, what + ": leaves are the values in pre-order")
    back = jax.tree_util.tree_unflatten(structure, leaves)
    same_tree(t, back, what + ": round trip")
    other = [("new", i) for i, _ in enumerate(leaves)]
    replaced = jax.tree_util.tree_unflatten(structure, [opaque("new" + str(i)) for i, _ in enumerate(leaves)])
    require_equal([p for p, _ in walk(replaced)], [p for p, _ in nodes], what + ": other leaves keep the structure")
    mapped = jax.tree_util.tree_map(lambda v: (1 * v), t) if what != "opaque" else None
    if mapped is not None:
        for (p, x), (q, y) in zip(nodes, walk(mapped)):
            require_equal(p, q, what + ": mapping keeps paths")
            require(type(x) is type(y), what + ": mapping keeps types")
            require_equal(y.value, 1 * x.value, what + ": mapping maps values")
    require_unchanged(before, t, what)


def ctx_every_primitive_class():
    """every class of primitives that can be instantiated"""
    classes = [c for c in module_classes(pr) if issubclass(c, pr.PrimitiveNode)]
    require(len(classes) >= 7, "classes of primitives are found")
    c = choose("class", classes)
    ok, p = attempt(lambda: c())
    if not ok:
        return
    require(c in registry(), "a class of primitives is registered with jax")
    round_trip(p, "primitive")


def ctx_containers():
    require(cn.Node in registry() and pr.PrimitiveNode in registry(), "generic nodes are registered with jax")
    t = pr.PrimitiveNode(np.array(()), {key("b"): pr.Axes(xaxis=True, yaxis=True, twinx=True, twiny=True),
                                         key("a"): pr.Polygon(size=5), key("c"): pr.Point((sym("x"), sym("y")))})
    round_trip(t, "root")


def make(path, children):
    return cn.Node(np.array([sym(tag(path))]), children)


def ctx_generic_trees():
    t = choose_tree(make, bound(4, 5), ("distinct", "numbered"))
    round_trip(t, "tree")


def ctx_order_of_keys_is_kept():
    names = choose("keys", [("b", "a", "c"), ("z", "y"), ("Line10", "Line9"), ("b", "B", "a")])
    t = cn.Node(np.array([sym("r")]), {k: make((i,), {}) for i, k in enumerate(names)})
    back = jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(t)))
    require_equal(back.keys(), list(names), "keys stay in order")
    require_equal([v.value for v in back.values()], [v.value for v in t.values()], "values stay with their keys")


def ctx_through_jit():
    """a compiled function receives and returns whole primitives"""
    p = pr.Quadrilateral(None, [pr.Point((sym("x" + str(i)), sym("y" + str(i)))) for i in range(4)])
    out = jax.jit(lambda q: q)(p)
    require(type(out) is pr.Quadrilateral, "a primitive passes through a compiled function")
    require_equal([k for k, _ in walk(out)], [k for k, _ in walk(p)], "structure passes through a compiled function")
    for (_, x), (_, y) in zip(walk(p), walk(out)):
        require_equal(x.value, y.value, "values pass through a compiled function")


def ctx_repeated_nodes():
    """a node which is found several times in a tree is flattened several times"""
    p = pr.Point((sym("x"), sym("y")))
    line = pr.Line(prims=(p, choose("other point", [p, pr.Point((sym("z"), sym("w"))), pr.Point((sym("x"), sym("y")))])))
    t = pr.PrimitiveNode(np.array(()), {"b": line, "a": p, "c": line, "d": p})
    round_trip(t, "repeated nodes")
    n = cn.Node(np.array([sym("v")]), {})
    round_trip(cn.Node(np.array([sym("r")]), {"x": n, "y": cn.Node(n.value, {"z": n}), "w": n}), "repeated nodes")
