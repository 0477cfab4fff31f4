from common import *
from mpllayout import containers as cn
from mpllayout import primitives as pr
from mpllayout import constraints as cr
from mpllayout import layout as lay


class A:
    pass


class A1:
    pass


class B:
    pass


def names(node):
    return list(node.children)


def ctx_counter_alone():
    c = cn.ItemCounter()
    n = choose("number of items", range(1, bound(6, 8)))
    got = []
    classes = [A, B]
    counts = {}
    for i in range(n):
        cls = choose("class " + str(i), classes)
        k = c.add_item(cls())
        require(isinstance(k, str), "a key is a string")
        require(k.startswith(cls.__name__), "a key names the category of its item")
        require(k not in got, "keys are unique")
        got.append(k)
        counts[cls.__name__] = counts.get(cls.__name__, 0) + 1
        for other in classes:
            require((other.__name__ in c) == (other.__name__ in counts), "a counter contains the categories it has seen")
    require_equal(dict(c.category_counts), counts, "a counter counts items by category")


def ctx_counter_with_category_function():
    c = cn.ItemCounter(lambda item: item)
    k0 = c.add_item("x")
    k1 = c.add_item("x")
    k2 = c.add_item("y")
    require(len({k0, k1, k2}) == 3, "keys are unique")
    require(k0.startswith("x") and k1.startswith("x") and k2.startswith("y"), "a key names the category of its item")
    require("x" in c and "y" in c and "z" not in c, "a counter contains the categories it has seen")


def ctx_counters_are_independent():
    c, d = cn.ItemCounter(), cn.ItemCounter()
    c.add_item(A())
    c.add_item(A())
    require("A" not in d, "another counter is unaffected")
    require_equal(d.add_item(A()), cn.ItemCounter().add_item(A()), "keys of one counter do not depend on another one")


def ctx_keys_avoid_taken_names():
    """whatever names are taken in whichever of the trees, a generated key is free in all of them"""
    c = cn.ItemCounter()
    free = [cn.ItemCounter().add_item(A())]
    d = cn.ItemCounter()
    likely = [d.add_item(A()) for _ in range(4)]
    trees = [cn.Node(None, {}) for _ in range(choose("number of trees", [1, 2, 3]))]
    for k in likely[:3]:
        where = choose("holder of " + k, list(range(len(trees))) + [-1])
        if where >= 0:
            trees[where].add_child(k, cn.Node(None, {}))
    for _ in range(2):
        k = c.add_item_to_nodes(A(), *trees)
        require(k.startswith("A"), "a key names the category of its item")
        for t in trees:
            require(k not in t, "a generated key is free in every tree")
        trees[0].add_child(k, cn.Node(None, {}))


def ctx_many_taken_names():
    """any number of taken names"""
    n = choose("taken names", sizes(1, bound(12, 24), 300))
    d = cn.ItemCounter()
    t = cn.Node(None, {})
    for _ in range(n):
        t.add_child(d.add_item(A()), cn.Node(None, {}))
    c = cn.ItemCounter()
    for _ in range(2):
        k = c.add_item_to_nodes(A(), t)
        require(k not in t, "a generated key is free")
        t.add_child(k, cn.Node(None, {}))


def ctx_categories_with_slashes():
    """keys of a category that is a path are free paths"""
    likely = [cn.ItemCounter(lambda item: "g/A")]
    likely = [likely[0].add_item(A()) for _ in range(4)]
    c = cn.ItemCounter(lambda item: "g/A")
    trees = [cn.Node(None, {"g": cn.Node(None, {})}) for _ in range(choose("number of trees", [1, 2]))]
    for k in likely[:3]:
        where = choose("holder of " + k, list(range(len(trees))) + [-1])
        if where >= 0:
            trees[where].add_child(k, cn.Node(None, {}))
    for _ in range(2):
        k = c.add_item_to_nodes(A(), *trees)
        for t in trees:
            require(k not in t, "a generated key is free in every tree")
        trees[0].add_child(k, cn.Node(None, {}))


def ctx_validity_condition():
    c = cn.ItemCounter()
    rejected = choose("number of rejected keys", range(0, 6))
    seen = []

    def valid(k):
        seen.append(k)
        return len(seen) > rejected
    k = c.add_item_until_valid(A(), valid)
    require(len(seen) == rejected + 1, "keys are offered until one is valid")
    require_equal(k, seen[-1], "the returned key is the valid one")
    require(len(set(seen)) == len(seen), "offered keys are unique")


def ctx_colliding_class_names():
    """ten items of one class and one of a class whose name ends in a digit"""
    c = cn.ItemCounter()
    t = cn.Node(None, {})
    order = choose("order", ["A first", "A1 first", "mixed"])
    items = {"A first": 12 * [A] + 2 * [A1], "A1 first": 2 * [A1] + 12 * [A], "mixed": 6 * [A] + [A1] + 6 * [A]}[order]
    for cls in items:
        k = c.add_item_to_nodes(cls(), t)
        require(k not in t, "a generated key is free")
        t.add_child(k, cn.Node(None, {}))
    require(len(t) == len(items), "every item is kept")


def ctx_layout_generated_keys():
    layout = lay.Layout()
    layout.add_prim(pr.Line(), "L")
    reference = lay.Layout()
    reference.add_prim(pr.Line(), "L")
    for _ in range(3):
        reference.add_constraint(cr.Vertical(), ("L",), ())
    likely = reference.root_constraint.keys()
    require(len(likely) == 3, "every constraint gets a key of its own")
    n = choose("number of constraints", [2, 3, 4])
    used = []
    for i in range(n):
        how = choose("key " + str(i), ["automatic"] + [k for k in likely if k not in used])
        ok, r = attempt(lambda: layout.add_constraint(cr.Vertical(), ("L",), (), "" if how == "automatic" else how))
        ks = names(layout.root_constraint)
        if how == "automatic":
            require(ok, "adding a constraint with an automatic key succeeds")
            require(len(ks) == len(used) + 1, "a constraint with an automatic key is added")
        elif how in used:
            require(not ok, "an explicit key that is taken is rejected")
        else:
            require(ok, "an explicit key that is free is accepted")
            require_equal(ks[-1], how, "an explicit key is used as it is")
        used = ks
    for t in (layout.root_constraint, layout.root_prim_keys, layout.root_param):
        require_equal(names(t), used, "the generated key is used in every tree")


def ctx_layout_keys_of_different_classes():
    layout = lay.Layout()
    layout.add_prim(pr.Line(), "L")
    layout.add_prim(pr.Quadrilateral(), "Q")
    n = 0
    for i in range(4):
        c, p, v = choose("constraint " + str(i), [
            (cr.Vertical, "L", ()), (cr.Horizontal, "L", ()), (cr.Length, "L", (sym("v"),)), (cr.Box, "Q", ())])
        layout.add_constraint(c(), (p,), v)
        n = n + 1
        require(len(layout.root_constraint) == n, "every constraint gets a key of its own")


def ctx_any_number_of_trees():
    """the holder of a taken name may be any of many trees"""
    n = choose("number of trees", sizes(1, bound(6, 10), 130))
    d = cn.ItemCounter()
    likely = [d.add_item(A()) for _ in range(2)]
    trees = [cn.Node(None, {}) for _ in range(n)]
    first = choose("holder of the first name", range(n) if n < 20 else [0, n // 2, n - 2, n - 1])
    second = choose("holder of the second name", [first, 0, n - 1])
    trees[first].add_child(likely[0], cn.Node(None, {}))
    trees[second].add_child(likely[1], cn.Node(None, {}))
    k = cn.ItemCounter().add_item_to_nodes(A(), *trees)
    for t in trees:
        require(k not in t, "a generated key is free in each tree")
