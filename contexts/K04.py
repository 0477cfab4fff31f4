from common import *
from catalog import *

LEAF_KEYS = ("arg0", "arg1/Point1", "arg1/Point0", "arg2/Line0/Point1", "arg2/Line3/Point0")


def reference(c, spec, prims, params):
    """own values, then the values of each part for its own inputs"""
    name, size, routing = spec
    out = unknown_values(name, size, prims, params)
    for keys, give, sub in routing:
        out = out + reference(None, sub, tuple([resolve(prims, k) for k in keys]), give(params))
    return out


def leaf(name, size, n_prims, n_params):
    c = unknown(name, size, n_prims * (pr.Point,), n_params)
    return c, (name, size, [])


def compound(name, size, prim_types, n_params, parts):
    """parts: [(key, construction, spec, prim keys, params function)]"""
    c = unknown(name, size, prim_types, n_params,
                children=tuple([p[1] for p in parts]), child_keys=tuple([p[0] for p in parts]),
                prim_keys=tuple([p[3] for p in parts]),
                child_params=lambda params: tuple([p[4](params) for p in parts]))
    return c, (name, size, [(p[3], p[4], p[2]) for p in parts])


def take(*idx):
    return lambda params: tuple([params[i] for i in idx])


def outer_prims():
    return (point("p"), line("l"), quad("q"))


OUTER = (pr.Point, pr.Line, pr.Quadrilateral)


def ctx_one_level():
    """a construction with parts that get any selection of primitives and parameters"""
    own = choose("own size", [0, 1, 2])
    n = choose("number of parts", [0, 1, 2, 3])
    parts = []
    for i in range(n):
        keys = choose("primitives of part " + str(i), [("arg0",), ("arg1/Point1", "arg0"), ("arg2/Line3/Point0", "arg2/Line0/Point1")]
                      if i < 2 else [("arg1/Point0",)])
        give = choose("parameters of part " + str(i), [(), (0,), (1, 0)] if i < 2 else [(1,)])
        c, spec = leaf("f" + str(i), [1, 2, 1][i], len(keys), len(give))
        parts.append((key("k" + str(i)), c, spec, keys, take(*give)))
    c, spec = compound("f", own, OUTER, 2, parts)
    prims = outer_prims()
    params = (sym("a"), sym("b"))
    require_equal(c(prims, *params), np.array(reference(c, spec, prims, params)),
                  "the result is the construction's own value followed by its parts' values")


def nested(depth, name, types, n_params, path=()):
    """a chain of compounds with a leaf beside each of them"""
    if depth == 0:
        return leaf(name + "leaf", 1, len(types), n_params)
    return None


def ctx_nested():
    """routing composes through several levels"""
    inner, ispec = leaf("i", 2, 2, 1)
    side, sspec = leaf("s", 1, 1, 0)
    mid_types = (pr.Line, pr.Point, pr.Quadrilateral)
    first = choose("primitives of the innermost part",
                   [("arg0/Point0", "arg1"), ("arg1", "arg0/Point1"), ("arg2/Line1/Point1", "arg2/Line2/Point0"), ("arg1", "arg1")])
    second = choose("primitive of the side part", [("arg1",), ("arg0/Point1",)])
    order = choose("order of parts", [0, 1])
    parts = [(key("i"), inner, ispec, first, take(1)), (key("s"), side, sspec, second, take())]
    if order:
        parts = [parts[1], parts[0]]
    mid, mspec = compound("m", 1, mid_types, 2, parts)
    to_mid = choose("primitives of the middle part",
                    [("arg1", "arg0", "arg2"), ("arg2/Line0", "arg0", "arg2"), ("arg2/Line3", "arg2/Line1/Point0", "arg2")])
    top_parts = [(key("m"), mid, mspec, to_mid, take(2, 0)), (key("t"), side, sspec, ("arg0",), take())]
    if choose("order of outer parts", [0, 1]):
        top_parts = [top_parts[1], top_parts[0]]
    top, tspec = compound("t", 0, OUTER, 3, top_parts)
    prims = outer_prims()
    params = (sym("a"), sym("b"), sym("c"))
    require_equal(top(prims, *params), np.array(reference(top, tspec, prims, params)),
                  "the result lists all values in pre-order")
    # the trees that describe the routing
    names = (key("x"), key("y") + "/" + key("z"), key("w"))
    keys = top.root_prim_keys(names)
    tree = {"arg0": names[0], "arg1": names[1], "arg2": names[2]}

    def renamed(k):
        head, _, tail = k.partition("/")
        return tree[head] + ("/" + tail if tail else "")
    require_equal(keys.value, names, "the root gets the given keys")
    require_equal(keys[key("m")].value, tuple([renamed(k) for k in to_mid]), "keys of a part are resolved in the given keys")
    def through(k):
        head, _, tail = k.partition("/")
        return renamed(to_mid[int(head[3:])]) + ("/" + tail if tail else "")
    require_equal(keys[key("m")][key("i")].value, tuple([through(k) for k in first]), "keys of a part of a part")
    values = top.root_params(params)
    require_equal(values.value, params, "the root gets the given parameters")
    require_equal(values[key("m")].value, (params[2], params[0]), "parameters of a part")
    require_equal(values[key("m")][key("i")].value, (params[0],), "parameters of a part of a part")


def ctx_deep():
    """many levels"""
    depth = choose("levels", sizes(1, bound(6, 10), 40))
    c, spec = leaf("f0", 1, 2, 2)
    for i in range(1, depth):
        c, spec = compound("f" + str(i), i % 3, 2 * (pr.Point,), 2, [(key("k"), c, spec, ("arg1", "arg0"), take(1, 0))])
    prims = (point("p"), point("q"))
    params = (sym("a"), sym("b"))
    require_equal(c(prims, *params), np.array(reference(c, spec, prims, params)), "routing composes through all levels")


def ctx_keys_which_look_like_argument_names():
    """only the first name of a key is the argument; parts may have any names"""
    part = choose("name of the part", ["arg0", "arg1", "xarg0", "arg0arg0", "arg10", "0", key("part")])
    group = choose("name of the group", ["arg1", "arg0", key("group")])
    other = choose("other part", ["arg00", "b"])
    assume(part != other)
    inner = pr.PrimitiveNode.from_tree(np.array([]), {other: point("q"), part: point("p")})
    outer = pr.PrimitiveNode.from_tree(np.array([]), {group: inner})
    n = choose("argument", [0, 1])
    f, fs = leaf("f", 1, 2, 0)
    keys = ("arg" + str(n) + "/" + group + "/" + part, "arg" + str(n) + "/" + group + "/" + other)
    types = (pr.PrimitiveNode, pr.PrimitiveNode)
    mid, ms = compound("m", 1, types, 0, [("f", f, fs, keys, take())])
    c, spec = compound("c", 0, types, 0, [("m", mid, ms, ("arg1", "arg0"), take())])
    given = (outer, outer)
    require_equal(c(given), np.array(reference(c, spec, given, ())), "each part gets the primitives at its keys")
    names = choose("names", [("arg0/x", "y/arg0"), ("arg1", "arg0"), (key("u"), key("v") + "/" + key("w"))])
    tree = c.root_prim_keys(names)
    require_equal(tree["m"].value, (names[1], names[0]), "keys of a part")
    base = (names[1], names[0])[n]
    require_equal(tree["m"]["f"].value, (base + "/" + group + "/" + part, base + "/" + group + "/" + other), "keys of a part of a part")


def ctx_many_arguments():
    """more than ten primitives: every number in a key is meant in full"""
    n = choose("number of primitives", sizes(1, bound(13, 23), 130))
    parts = []
    for i in range(n):
        c, spec = leaf("f" + str(i), 1, 1, 1)
        parts.append((key("k" + str(i)), c, spec, ("arg" + str((7 * i) % n),), take((3 * i) % n)))
    c, spec = compound("f", 0, n * (pr.Point,), n, parts)
    prims = tuple([point("p" + str(i)) for i in range(n)])
    params = tuple([sym("a" + str(i)) for i in range(n)])
    require_equal(c(prims, *params), np.array(reference(c, spec, prims, params)), "each part gets its own primitive and parameter")


def ctx_shared_part():
    """one construction used as several parts"""
    f, fs = leaf("f", 1, 1, 1)
    c, spec = compound("g", 1, (pr.Point, pr.Point), 2,
                       [(key("a"), f, fs, ("arg0",), take(0)), (key("b"), f, fs, ("arg1",), take(1)), (key("c"), f, fs, ("arg0",), take(1))])
    prims = (point("p"), point("q"))
    params = (sym("a"), sym("b"))
    require_equal(c(prims, *params), np.array(reference(c, spec, prims, params)), "a part used several times")


def ctx_same_primitive_several_times():
    f, fs = leaf("f", 1, 2, 0)
    c, spec = compound("g", 0, (pr.Point, pr.Point), 0, [(key("a"), f, fs, ("arg0", "arg1"), take()), (key("b"), f, fs, ("arg1", "arg0"), take())])
    p = point("p")
    require_equal(c((p, p)), np.array(reference(c, spec, (p, p), ())), "one primitive given several times")


def ctx_scalar_results_become_vectors():
    class Bare(con.LeafConstruction):
        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((pr.Point,), (), 1)

        @classmethod
        def assem(cls, prims):
            return prims[0].value[0]
    v = Bare()((point("p"),))
    require_equal(v, np.array([sym("px")]), "a number becomes a vector of one entry")


def ctx_library_constructions_evaluate_part_by_part():
    name, c, params = choose_entry()
    prims = prims_for(c)
    out = []
    for node, p, q in nodes_with_inputs(c, prims, params):
        v = node(p, *q)
        n = node.signature.value_size
        out = out + [v[i] for i in range(n)]
    require_equal(c(prims, *params), np.array(out), name + ": the result lists the values of all parts in pre-order")


def ctx_wrong_number_of_part_parameters():
    f, fs = leaf("f", 1, 1, 1)
    n = choose("number of parameter lists", [0, 1, 3, 4])
    c = unknown("g", 0, (pr.Point, pr.Point), 1, children=(f, f), child_keys=(key("a"), key("b")),
                prim_keys=(("arg0",), ("arg1",)), child_params=lambda params: n * (params,))
    require_raises((TypeError, ValueError), lambda: c((point("p"), point("q")), sym("a")), "a wrong number of parameter lists")


def ctx_parts_of_parts_of_arguments():
    """keys lead through any number of levels of a primitive"""
    depth = choose("levels", sizes(1, bound(6, 10), 40))
    name = choose("names", ["different", "equal", "unknown"])
    path = []
    p = q = point("p")
    for i in range(depth):
        n = {"different": "n" + str(i), "equal": "arg1", "unknown": key("n" + str(i))}[name]
        p = pr.PrimitiveNode.from_tree(np.array([]), {n: p, n + "x": point("o" + str(i))})
        path = [n] + path
    f, fs = leaf("f", 1, 1, 0)
    c, spec = compound("c", 0, (pr.PrimitiveNode, pr.Point), 0, [("f", f, fs, ("/".join(["arg0"] + path),), take())])
    require_equal(c((p, point("z"))), np.array(unknown_values("f", 1, (q,), ())), "a part gets the primitive at its key")
    keys = c.root_prim_keys(("A", "B"))
    require_equal(keys["f"].value, ("/".join(["A"] + path),), "the key of a part is resolved in the given keys")
    # the middle of the path as the argument of an intermediate construction
    cut = choose("level of the argument of the middle part", range(1, depth + 1))
    inner, ispec = compound("i", 0, (pr.PrimitiveNode,), 0, [("f", f, fs, ("/".join(["arg0"] + path[cut:]),), take())])
    outer, ospec = compound("o", 0, (pr.PrimitiveNode, pr.Point), 0, [("i", inner, ispec, ("/".join(["arg0"] + path[:cut]),), take())])
    if cut < depth:
        require_equal(outer((p, point("z"))), np.array(unknown_values("f", 1, (q,), ())), "keys of parts of parts lead on from there")
    require_equal(outer.root_prim_keys(("A", "B"))["i"]["f"].value, ("/".join(["A"] + path),), "keys of parts of parts lead on from there")
