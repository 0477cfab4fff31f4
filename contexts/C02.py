from common import *
import numpy as np
from mpllayout import containers as cn
from mpllayout import primitives as pr
from mpllayout import constraints as cr
from mpllayout import layout as lay


def make(path, children):
    return cn.Node(opaque(tag(path)), children)


def ctx_insert_at_new_path():
    t = choose_tree(make, bound(4, 5))
    nodes = walk(t)
    parent = choose("parent", [p for p, _ in nodes])
    new = key("new")
    child = build_tree(choose("new subtree", [(), ((), ((),))]), make, "reused")
    r = t.add_child(join_path(parent + (new,)), child)
    require_same(t[join_path(parent + (new,))], child, "lookup after insertion")
    expected = []
    for p, node in nodes:
        expected.append((p, node))
    got = walk(t)
    added = [parent + (new,) + q for q, _ in walk(child)]
    require_equal([p for p, _ in got if p not in added], [p for p, _ in nodes], "insertion keeps the other paths in order")
    require_equal([p for p, _ in got if p in added], added, "the inserted subtree is reachable")
    for p, node in nodes:
        require_same(dict([(a, b) for a, b in got])[p], node, "insertion keeps the other nodes")
    host = t if parent == () else t[join_path(parent)]
    require_equal(host.keys()[-1], new, "an inserted child comes last")


def ctx_insert_at_existing_path_is_rejected():
    t = choose_tree(make, bound(4, 5))
    p = choose("existing path", [p for p, _ in walk(t)][1:])
    child = make((9,), {})
    before = snapshot(t)
    require_raises(KeyError, lambda: t.add_child(join_path(p), child), "insertion at an existing path")
    require_unchanged(before, t, "a rejected insertion")


def ctx_insert_of_present_node_is_rejected():
    """re-inserting the very node that is already there is still an overwrite"""
    t = choose_tree(make, 4, ("distinct",))
    nodes = walk(t)
    p, node = choose("existing path", nodes[1:])
    before = snapshot(t)
    require_raises(KeyError, lambda: t.add_child(join_path(p), node), "insertion at an existing path")
    require_unchanged(before, t, "a rejected insertion")


def ctx_insert_below_missing_parent_is_rejected():
    t = choose_tree(make, bound(4, 5))
    p = choose("existing path", [p for p, _ in walk(t)])
    new, other = key("absent"), key("other")
    tail = choose("missing tail", [(new, other), (new, other, new), (new, new)])
    child = make((9,), {})
    before = snapshot(t)
    require_raises(KeyError, lambda: t.add_child(join_path(p + tail), child), "insertion below a missing parent")
    require_unchanged(before, t, "a rejected insertion")


def ctx_children_dictionary_is_not_shared_between_trees():
    """inserting into one of two independently created trees leaves the other alone"""
    shape = choose("tree shape", shapes(3))
    a = build_tree(shape, make, "reused")
    b = build_tree(shape, make, "reused")
    before = snapshot(b)
    for p, _ in walk(a):
        a.add_child(join_path(p + (key("new"),)), make((9,), {}))
    require_unchanged(before, b, "another tree")


# ---- the same guarantees through a layout's primitives

def prims():
    return {
        "point": pr.Point((sym("x"), sym("y"))),
        "line": pr.Line(),
        "quad": pr.Quadrilateral(),
        "axes": pr.Axes(xaxis=True, yaxis=True),
    }


def ctx_layout_primitives():
    layout = lay.Layout()
    a, b = key("a"), key("b")
    first = choose("first primitive", sorted(prims().keys()))
    second = choose("second primitive", sorted(prims().keys()))
    p, q = prims()[first], prims()[second]
    layout.add_prim(p, a)
    require_same(layout.root_prim[a], p, "an added primitive is found at its key")
    before = snapshot(layout.root_prim)
    require_raises(KeyError, lambda: layout.add_prim(q, a), "adding a primitive at an existing key")
    require_unchanged(before, layout.root_prim, "a rejected primitive")
    require_raises(KeyError, lambda: layout.add_prim(q, b + "/" + a), "adding a primitive below a missing one")
    require_unchanged(before, layout.root_prim, "a rejected primitive")
    layout.add_prim(q, b)
    require_same(layout.root_prim[a], p, "adding a primitive keeps the others")
    require_same(layout.root_prim[b], q, "an added primitive is found at its key")
    require_equal(layout.root_prim.keys(), [a, b], "primitives are kept in order of insertion")


def ctx_layout_many_primitives():
    layout = lay.Layout()
    n = choose("number of primitives", range(0, 6))
    ps = {key("p" + str(i)): pr.Point((sym("x" + str(i)), sym("y" + str(i)))) for i in range(n)}
    layout.add_prims(ps)
    require_equal(layout.root_prim.keys(), list(ps.keys()), "all primitives are added, in order")
    for k in ps:
        require_same(layout.root_prim[k], ps[k], "an added primitive is found at its key")
    other = lay.Layout()
    require(len(other.root_prim) == 0, "a new layout has no primitives")
    require(len(other.root_constraint) == 0 and len(other.root_prim_keys) == 0 and len(other.root_param) == 0,
            "a new layout has no constraints")


def ctx_new_trees_share_no_children():
    """a child added to one tree is not a child of any other one"""
    makes = {
        "node": lambda: cn.Node.from_tree(None, {}),
        "layout": lambda: lay.Layout().root_prim,
        "point": lambda: pr.Point((0, 0)),
        "default point": lambda: pr.Point(),
        "line": lambda: pr.Line(),
        "constraint": lambda: cr.Fix(),
        "constraints": lambda: lay.Layout().root_constraint,
        "keys": lambda: lay.Layout().root_prim_keys,
        "parameters": lambda: lay.Layout().root_param,
        "polygon": lambda: pr.Polygon(size=3),
        "root parameters": lambda: cr.Fix().root_params((sym("v"),)),
        "root keys": lambda: cr.Fix().root_prim_keys((key("p"),)),
    }
    first = choose("first tree", sorted(makes.keys()))
    second = choose("second tree", sorted(makes.keys()))
    a, b = makes[first](), makes[second]()
    before = snapshot(b)
    for _, x in walk(a):
        for _, y in walk(b):
            require(x.children is not y.children, "independent trees have their own children")
    n = len(b)
    new = key("new")
    assume(new not in a.keys())
    a.add_child(new, make((9,), {}))
    require_unchanged(before, b, "another tree")
    require(len(makes[second]()) == n, "a tree created later")
