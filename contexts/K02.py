from common import *
from catalog import *


def ctx_sizes():
    """the result of every construction, and of every part of it, has the declared size"""
    name, c, params = choose_entry()
    prims = prims_for(c)
    require(len(params) == len(c.signature.param_types), name + ": the documented parameters are the declared ones")
    v = c(prims, *params)
    require(v.ndim == 1, name + ": a result is a vector")
    require(v.size == total_size(c), name + ": the result has the declared size")
    for node, p, q in nodes_with_inputs(c, prims, params):
        v = node(p, *q)
        require(v.shape == (total_size(node),), name + ": a part of a construction has its declared size")


def ctx_children_are_addressable():
    """every primitive that a construction hands to its parts exists and has the declared type"""
    name, c, params = choose_entry()
    prims = prims_for(c)
    for node, p, q in nodes_with_inputs(c, prims, params):
        declared = node.signature.prim_types
        require(len(p) == len(declared), name + ": a part gets the declared number of primitives")
        for x, t in zip(p, declared):
            require(isinstance(x, t), name + ": a part gets primitives of the declared types")
        require(len(q) == len(node.signature.param_types), name + ": a part gets the declared number of parameters")


def ctx_routing_trees_match():
    name, c, params = choose_entry()
    prims = prims_for(c)
    keys = c.root_prim_keys(tuple(["arg" + str(i) for i in range(len(prims))]))
    values = c.root_params(params)
    paths = [p for p, _ in walk(c)]
    require_equal([p for p, _ in walk(keys)], paths, name + ": primitive keys have the structure of the construction")
    require_equal([p for p, _ in walk(values)], paths, name + ": parameters have the structure of the construction")


def ctx_instances_are_independent():
    """creating or evaluating one instance does not change another one"""
    table = entries()
    name = choose("construction", sorted(table.keys()))
    make, params = table[name]
    a = make()
    before = snapshot(a)
    b = make()
    p = params()
    b(prims_for(b), *p)
    require_unchanged(before, a, name + ": an instance")


def ctx_editing_the_parts_of_an_instance():
    """adding a part to a part of one instance does not add it to another instance"""
    table = entries()
    name = choose("construction", sorted(table.keys()))
    make, params = table[name]
    a = make()
    b = make()
    before = [p for p, _ in walk(a)]
    for n in [x for p, x in walk(b) if p != ""]:
        if "Extra" not in n:
            n.add_child("Extra", con.Scalar())
    require_equal([p for p, _ in walk(a)], before, name + ": the parts of an instance do not show in another one")


def as_lists(params):
    return tuple([[p[i] for i in range(p.size)] if isinstance(p, np.ndarray) and p.ndim == 1 else p for p in params])


def ctx_evaluation_is_pure():
    name, c, params = choose_entry()
    prims = prims_for(c)
    if choose("kind of parameters", ["arrays", "lists"]) == "lists":
        assume("Grid" in name and "cr." in name and any([isinstance(p, np.ndarray) for p in params]))
        params = as_lists(params)
    before = snapshot(prims)
    given = snapshot(params)
    itself = snapshot(c)
    first = c(prims, *params)
    again = c(prims, *params)
    c.root_params(params)
    c.root_prim_keys(tuple(["k" + str(i) for i in range(len(prims))]))
    require_unchanged(before, prims, name + ": primitives are left alone by an evaluation")
    require_unchanged(given, params, name + ": parameters are left alone by an evaluation")
    require_unchanged(itself, c, name + ": a construction is left alone by its evaluation")
    require_equal(first, again, name + ": evaluating again gives the same result")


def family(name):
    return name.split(" ")[0].split(".")[1].replace("X", "").replace("Y", "").replace("Outer", "").replace("Inner", "")


def evaluated(world, name, params=None):
    make, some = world.entries()[name]
    c = make()
    return c, c(world.prims_for(c), *(some() if params is None else params))


def ctx_history_of_grids_does_not_matter():
    history_does_not_matter([x for x in sorted(entries().keys()) if "Grid" in x])


def ctx_history_does_not_matter():
    history_does_not_matter([x for x in sorted(entries().keys()) if "Grid" not in x and "Margin" not in x])


def ctx_history_of_margins_does_not_matter():
    history_does_not_matter([x for x in sorted(entries().keys()) if "Margin" in x])


def history_does_not_matter(names):
    """an instance is the same whatever instances were created and evaluated before"""
    name = choose("construction", names)
    params = entries()[name][1]()
    a, expected = evaluated(other_world("catalog"), name, params)
    related = [x for x in names if family(x) == family(name)]
    i = related.index(name)
    related = (related[i + 1:] + related[:i])[:bound(5, 30)]
    if choose("order", bound(["backward"], ["forward", "backward"])) == "backward":
        related = related[::-1]
    used = other_world("catalog")
    for x in related:
        evaluated(used, x)
    b, got = evaluated(used, name, params)
    require_equal(got, expected, name + ": the result does not depend on other instances")
    require_equal([p for p, _ in walk(b)], [p for p, _ in walk(a)], name + ": the parts do not depend on other instances")
    for (_, x), (_, y) in zip(walk(a), walk(b)):
        require_equal(y.value[0], x.value[0], name + ": the routing does not depend on other instances")
        require_equal(y.signature.value_size, x.signature.value_size, name + ": sizes do not depend on other instances")


def ctx_vectors():
    """a tree of vector chunks of any sizes"""
    shape = choose("tree shape", shapes(4))
    n = [0]

    def make(path, children):
        n[0] = n[0] + 1
        return cn.Node(choose("size of chunk " + tag(path), [0, 1, 2] if n[0] < 4 else [1]), children)
    sizes_tree = build_tree(shape, make, "distinct")
    c = con.Vector(sizes_tree)
    total = sum([x.value for _, x in walk(sizes_tree)])
    v = vec("value", total)
    require_equal(c((), v), v, "a tree of vector chunks returns the whole vector")
    require_equal([p for p, _ in walk(c)], [p for p, _ in walk(sizes_tree)], "a tree of vector chunks has the given structure")
    for (_, node), (_, s) in zip(walk(c), walk(sizes_tree)):
        require(node.signature.value_size == s.value, "each chunk has the given size")


def ctx_inputs_of_the_wrong_kind_are_rejected_at_definition():
    """a construction whose parts do not fit together cannot be defined"""
    sig = con.ConstructionSignature((pr.Line, pr.Point), (), 0)
    good = con.ConstructionValue((("arg0",), ("arg1",)), lambda params: ((), ()), sig)
    children = {"a": con.Length(), "b": con.Coordinate()}
    con.ConstructionNode(good, children)
    bad = (TypeError, ValueError)
    require_raises(bad, lambda: con.ConstructionNode((good[0], good[1], good[2]), children), "a plain tuple as definition")
    require_raises(bad, lambda: con.ConstructionNode(
        con.ConstructionValue((("arg0",),), good[1], sig), children), "too few lists of primitives")
    require_raises(bad, lambda: con.ConstructionNode(
        con.ConstructionValue((("arg0",), ("arg1",), ("arg1",)), good[1], sig), children), "too many lists of primitives")
    for i in range(2):
        for wrong in ((), ("arg0", "arg1")):
            keys = [("arg0",), ("arg1",)]
            keys[i] = wrong
            require_raises(bad, lambda: con.ConstructionNode(
                con.ConstructionValue(tuple(keys), good[1], sig), children), "a wrong number of primitives for a part")
    require_raises(bad, lambda: con.ConstructionNode(con.ConstructionValue(good[0], None, sig), children), "no parameter function")
    require_raises(bad, lambda: con.ConstructionNode(con.ConstructionValue(good[0], good[1], (1, 2, 3)), children), "another signature")
    require_raises(bad + (AttributeError,), lambda: con.ConstructionNode(good, {"a": con.Length(), "b": cn.Node(0, {})}),
                   "a part that is no construction")


def ctx_shared_inputs():
    check_shared_inputs({k: v for k, v in entries().items() if "Grid" not in k or k[-6:] in ("(1, 2)", "(2, 1)")}, "the result")
