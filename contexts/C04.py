from common import *
from mpllayout import containers as cn
from mpllayout import primitives as pr
from mpllayout import constructions as con
from mpllayout import constraints as cr


class SubNode(cn.Node):
    pass


def make(path, children):
    n = sum(path) + len(path)
    if n % 2 == 0:
        return cn.Node(opaque(tag(path)), children)
    return SubNode(opaque(tag(path)), children)


def make_number(path, children):
    return cn.Node(sym(tag(path)), children)


def make_list(path, children):
    return SubNode([sym(tag(path))], children)


def ctx_map():
    t = choose_tree(make, bound(5, 6))
    before = snapshot(t)
    seen = []

    def f(v):
        seen.append(v)
        return ("mapped", v)
    m = cn.map(f, t)
    wt, wm = walk(t), walk(m)
    require_equal([p for p, _ in wm], [p for p, _ in wt], "mapping keeps paths in order")
    for (_, x), (_, y) in zip(wt, wm):
        require(y.value[0] == "mapped", "every value is mapped")
        require_same(y.value[1], x.value, "a value is mapped from the value at the same path")
        require(isinstance(y, cn.Node), "mapping returns nodes")
    require(len(seen) == len(wt), "the function is applied once to each value")
    require_unchanged(before, t, "mapping")
    for (_, x), (_, y) in zip(wt, wm):
        require(x is not y and x.children is not y.children, "mapping creates a new tree")


def ctx_map_of_shared_values():
    """one object is the value of several nodes: still one application for each node"""
    n = choose("distinct values", [1, 2])
    values = [opaque("s0"), opaque("s1")]
    t = choose_tree(lambda path, children: cn.Node(values[sum(path) % n], children), bound(4, 5), ("distinct",))
    seen = []

    def f(v):
        seen.append(v)
        return [v, len(seen)]
    m = cn.map(f, t)
    wt, wm = walk(t), walk(m)
    require(len(seen) == len(wt), "the function is applied once to each node")
    for i, ((_, x), (_, y)) in enumerate(zip(wt, wm)):
        require_same(y.value[0], x.value, "a value is mapped from the value at the same path")
        for _, z in wm[:i]:
            require(y.value is not z.value, "each node has the result of its own application")


def ctx_map_then_edit():
    t = choose_tree(make, 4)
    m = cn.map(lambda v: v, t)
    before = snapshot(t)
    for p, node in walk(m):
        node.add_child(key("new"), make((9,), {}))
    require_unchanged(before, t, "editing a mapped tree")


def ctx_copy():
    t = choose_tree(make, bound(5, 6))
    before = snapshot(t)
    c = t.copy()
    require_unchanged(before, t, "copying")
    wt, wc = walk(t), walk(c)
    require_equal([p for p, _ in wc], [p for p, _ in wt], "copying keeps paths in order")
    for (_, x), (_, y) in zip(wt, wc):
        require(type(y) is type(x), "copying keeps the type of every node")
        require_equal(x.value, y.value, "copying keeps values")
        require(x is not y and x.children is not y.children, "copying creates new nodes")
    # editing either tree leaves the other alone
    for p, node in wc:
        node.add_child(key("new"), make((9,), {}))
    require_unchanged(before, t, "editing a copy")


VALUES = [None, 0, (), "", False, [], {}]


def make_empty(path, children):
    """values that are false, empty or missing"""
    n = sum(path) + len(path)
    cls = (SubNode, con.ConstructionNode, cn.Node, cr.ConstraintNode)[n % 4]
    return cls.from_tree(VALUES[n % len(VALUES)], children)


def ctx_values_that_are_false():
    t = choose_tree(make_empty, bound(4, 5))
    c = t.copy()
    same_tree(t, c, "copy")
    for (_, x), (_, y) in zip(walk(t), walk(c)):
        require(x is not y and x.children is not y.children, "copying creates new nodes")
    seen = []

    def f(v):
        seen.append(v)
        return choose_result(v)

    def choose_result(v):
        return None if len(seen) % 2 else ()
    m = cn.map(f, t)
    require(len(seen) == len(walk(t)), "the function is applied once to each value")
    for (_, x), v in zip(walk(t), seen):
        require_same(x.value, v, "values in order")
    for i, (_, y) in enumerate(walk(m)):
        require(y.value is None if (i + 1) % 2 else y.value == (), "results in order")


def ctx_copies_without_children():
    """copies of nodes without children share nothing"""
    cls = choose("class", [cn.Node, SubNode, pr.Point, cr.Fix, cr.ConstraintNode, con.ParamsNode])
    t = cls.from_tree(opaque("v"), {})
    a, b = t.copy(), t.copy()
    m = cn.map(lambda v: v, t)
    u = cls.from_tree(opaque("w"), {})
    v = u.copy()
    nodes = [t, a, b, m, u, v]
    for i, x in enumerate(nodes):
        for y in nodes[:i]:
            require(x is not y and x.children is not y.children, "copies are new nodes")
    a.add_child(key("new"), cn.Node(0, {}))
    for x in (t, b, m, u, v, u.copy(), t.copy(), cn.map(lambda v: v, t)):
        require(len(x.children) == 0, "a child added to a copy belongs to that copy only")


def ctx_copy_assignment():
    t = choose_tree(make, 4)
    c = t.copy()
    nodes = walk(t)
    p = choose("assigned path", [q for q, _ in nodes][1:])
    before = snapshot(c)
    t[join_path(p)] = make((9,), {})
    require_unchanged(before, c, "editing the original of a copy")


def ctx_copy_of_real_trees():
    which = choose("tree", ["line", "quad", "axes", "root", "params", "keys", "constraint", "layout root"])
    trees = {
        "line": lambda: pr.Line(prims=(pr.Point((sym("a"), sym("b"))), pr.Point((sym("c"), sym("d"))))),
        "quad": lambda: pr.Quadrilateral(),
        "axes": lambda: pr.Axes(xaxis=True, yaxis=True),
        "root": lambda: pr.PrimitiveNode.from_tree(pr.Line().value, {key("a"): pr.Axes(), key("b"): pr.Point()}),
        "params": lambda: cr.Fix().root_params((sym("v"),)),
        "keys": lambda: cr.Box().root_prim_keys((key("a"),)),
        "constraint": lambda: cr.Box(),
        "layout root": lambda: cr.ConstraintNode.from_tree(None, {key("a"): cr.Box(), key("b"): cr.Fix()}),
    }
    t = trees[which]()
    c = t.copy()
    wt, wc = walk(t), walk(c)
    require_equal([p for p, _ in wc], [p for p, _ in wt], "copying keeps paths in order")
    for (_, x), (_, y) in zip(wt, wc):
        require(type(y) is type(x), "copying keeps the type of every node")
        require_same(x.value, y.value, "copying keeps values")
        require(x is not y and x.children is not y.children, "copying creates new nodes")


def subtotal(node):
    s = node.value
    for k in node.children:
        s = s + subtotal(node.children[k])
    return s


def ctx_accumulate():
    t = choose_tree(make_number, bound(5, 6))
    before = snapshot(t)
    a = cn.accumulate(lambda x, y: x + y, t, 0)
    require_unchanged(before, t, "accumulating")
    wt, wa = walk(t), walk(a)
    require_equal([p for p, _ in wa], [p for p, _ in wt], "accumulating keeps paths in order")
    for (_, x), (_, y) in zip(wt, wa):
        require_equal(y.value, subtotal(x), "the accumulated value is the total below the node")
        require(x is not y and x.children is not y.children, "accumulating creates a new tree")


def ctx_accumulate_largest():
    """another associative operation: the length of concatenated tuples"""
    t = choose_tree(lambda path, children: cn.Node((tag(path),), children), 4, ("distinct",))
    a = cn.accumulate(lambda x, y: x + y, t, ())
    for (_, x), (_, y) in zip(walk(t), walk(a)):
        require(sorted(y.value) == sorted([n.value[0] for _, n in walk(x)]), "every value below is accumulated exactly once")


def fold(node, join, initial):
    children = list(node.children.values())
    if len(children) == 0:
        return join(node.value, initial)
    r = node.value
    for c in children:
        r = join(r, fold(c, join, initial))
    return r


def ctx_accumulate_in_order():
    """values are combined from the node to its descendants, in order; the initial value enters at the nodes without children"""
    t = choose_tree(lambda path, children: cn.Node((tag(path),), children), bound(4, 5), ("distinct",))
    join = choose("operation", [lambda x, y: x + y, lambda x, y: ("(",) + x + y + (")",)])
    leaf = [n.value for _, n in walk(t) if len(n.children) == 0][-1]
    initial = choose("initial value", [("initial",), (), leaf, t.value])
    a = cn.accumulate(join, t, initial)
    for (_, x), (_, y) in zip(walk(t), walk(a)):
        require_equal(y.value, fold(x, join, initial), "values are combined in order, starting with the value of the node")


def ctx_accumulate_numbers_like_the_initial_value():
    """the initial value is like any other value"""
    v = sym("v")
    t = choose_tree(lambda path, children: cn.Node(v, children), bound(4, 5), ("distinct",))
    a = cn.accumulate(lambda x, y: x + y, t, v)
    for (_, x), (_, y) in zip(walk(t), walk(a)):
        leaves = [n for _, n in walk(x) if len(n.children) == 0]
        require_equal(y.value, (len(walk(x)) + len(leaves)) * v, "the initial value enters once at each node without children")
