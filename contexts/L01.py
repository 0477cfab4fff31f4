"""The constraint, primitive key and parameter trees of a layout have the same shape after any history of additions"""
from layouts import *


def lockstep(l, what):
    """the three trees agree, and every constraint finds its primitives"""
    paths = [p for p, _ in walk(l.root_constraint)]
    require_equal([p for p, _ in walk(l.root_prim_keys)], paths, what + ": primitive keys have the structure of the constraints")
    require_equal([p for p, _ in walk(l.root_param)], paths, what + ": parameters have the structure of the constraints")
    for (p, c), (_, k), (_, v) in zip(walk(l.root_constraint), walk(l.root_prim_keys), walk(l.root_param)):
        if p == ():
            continue
        require(len(k.value) == len(c.signature.prim_types), what + ": each constraint has its number of primitives")
        for name, t in zip(k.value, c.signature.prim_types):
            require(isinstance(at(l.root_prim, name), t), what + ": each primitive key leads to a primitive of the declared kind")
        require(len(v.value) == len(c.signature.param_types), what + ": each constraint has its number of parameters")


def library():
    return {
        "length": (cr.Length(), ("L",), (sym("s"),)),
        "coincident": (cr.Coincident(), ("P", "L/Point1"), ()),
        "fix": (cr.Fix(), ("P",), (vec("v", 2),)),
        "box": (cr.Box(), ("Q",), ()),
        "repeated": (cr.Parallel(), ("L", "L"), ()),
        "grid": (cr.Grid(shape=(1, 2)), ("Q", "R"), ([sym("a")], [], [sym("b")], [])),
        "margin": (cr.OuterMargin(side="left"), ("R", "Q"), (sym("m"),)),
        "nested": (fan("c"), ("Q/Line1/Point0", "P"), (sym("s"), sym("t"))),
        "thickness": (cr.XAxisThickness(), ("A/XAxis",), (None,)),
    }


def primitives():
    return {"P": point("p"), "L": line("l"), "Q": quad("q"), "R": quad("r"), "A": axes("a")}


INVALID = {
    "too few primitives": lambda l, k: l.add_constraint(cr.Coincident(), ("P",), (), k),
    "too many primitives": lambda l, k: l.add_constraint(cr.Length(), ("L", "P"), (1.0,), k),
    "no primitives": lambda l, k: l.add_constraint(cr.Box(), (), (), k),
    "another kind of primitive": lambda l, k: l.add_constraint(cr.Length(), ("P",), (1.0,), k),
    "another kind of second primitive": lambda l, k: l.add_constraint(cr.Coincident(), ("P", "L"), (), k),
    "an unknown primitive": lambda l, k: l.add_constraint(cr.Length(), (key("nothing"),), (1.0,), k),
    "an unknown second primitive": lambda l, k: l.add_constraint(cr.Coincident(), ("P", "L/Point2"), (), k),
    "too few parameters": lambda l, k: l.add_constraint(cr.Length(), ("L",), (), k),
    "too many parameters": lambda l, k: l.add_constraint(cr.Box(), ("Q",), (1.0,), k),
    "too few parameters of parts": lambda l, k: l.add_constraint(cr.Grid(shape=(1, 2)), ("Q", "R"), ([], [], [1.0], []), k),
    "too many parameters of parts": lambda l, k: l.add_constraint(cr.Grid(shape=(1, 2)), ("Q", "R"), ([1.0], [], [1.0], [1.0, 2.0]), k),
}


def new_layout():
    l = lay.Layout()
    l.add_prims(primitives())
    return l


def ctx_additions():
    """constraints of any kind, with and without keys"""
    l = new_layout()
    lockstep(l, "without constraints")
    table = library()
    names = []
    for i in range(bound(2, 3)):
        name = choose("constraint " + str(i), sorted(table.keys()))
        c, keys, params = table[name]
        k = choose("key " + str(i), ["automatic", "given"])
        if k == "given":
            k = "given" + str(i)
            l.add_constraint(c, keys, params, k)
        else:
            l.add_constraint(c, keys, params)
            k = list(l.root_constraint.keys())[-1]
        names.append(k)
        lockstep(l, "after an addition")
        require_equal(list(l.root_constraint.keys()), names, "additions come in order, under their keys")
        require_same(l.root_constraint[k], c, "the constraint which was added")
        require_equal(l.root_prim_keys[k].value, keys, "the primitive keys which were added")
        require_equal(l.root_param[k].value, params, "the parameters which were added")


def ctx_invalid_additions_leave_the_layout_alone():
    l = new_layout()
    table = library()
    first = choose("earlier constraint", ["none", "box", "nested"])
    if first != "none":
        l.add_constraint(*table[first])
    prims, constraints, keys, params = l.root_prim, l.root_constraint, l.root_prim_keys, l.root_param
    before = snapshot((prims, constraints, keys, params))
    name = choose("invalid constraint", sorted(INVALID.keys()))
    given = choose("key", ["", "given"])
    require_raises((RuntimeError, KeyError), lambda: INVALID[name](l, given), name)
    require_unchanged(before, (l.root_prim, l.root_constraint, l.root_prim_keys, l.root_param), "a rejected constraint leaves no trace")
    require_same(l.root_constraint, constraints, "the trees are still those of the layout")
    lockstep(l, "after a rejected constraint")
    # the layout is still usable
    l.add_constraint(*table["coincident"])
    lockstep(l, "an addition after a rejected constraint")
    require(len(l.root_constraint) == (1 if first == "none" else 2), "an addition after a rejected constraint")


def ctx_addresses_of_another_type():
    """positions instead of keys: accepted in full or not at all"""
    l = new_layout()
    c, keys, params = library()[choose("constraint", ["box", "length", "nested", "thickness"])]
    i = choose("position", range(bound(4, 5)))
    before = snapshot((l.root_prim, l.root_constraint, l.root_prim_keys, l.root_param))
    ok, e = attempt(lambda: l.add_constraint(c, (i,) + tuple(keys[1:]), params, key("given")))
    if not ok:
        require_unchanged(before, (l.root_prim, l.root_constraint, l.root_prim_keys, l.root_param), "a rejected constraint leaves no trace")
    require_equal([p for p, _ in walk(l.root_prim_keys)], [p for p, _ in walk(l.root_constraint)], "primitive keys have the structure of the constraints")
    require_equal([p for p, _ in walk(l.root_param)], [p for p, _ in walk(l.root_constraint)], "parameters have the structure of the constraints")


def ctx_existing_keys_are_rejected():
    """a key names one constraint"""
    l = new_layout()
    table = library()
    l.add_constraint(*table[choose("earlier constraint", ["box", "nested"])], key("same"))
    before = snapshot((l.root_constraint, l.root_prim_keys, l.root_param))
    c, keys, params = table[choose("constraint", ["box", "length", "coincident"])]
    require_raises((KeyError, ValueError, RuntimeError), lambda: l.add_constraint(c, keys, params, key("same")), "an existing key")
    require_unchanged(before, (l.root_constraint, l.root_prim_keys, l.root_param), "a rejected constraint leaves no trace")
    lockstep(l, "after a rejected constraint")


def ctx_keys_with_slashes_are_rejected():
    l = new_layout()
    before = snapshot((l.root_constraint, l.root_prim_keys, l.root_param))
    c, keys, params = library()["box"]
    k = choose("key", ["a/b", "/", "/a", "a/", "Box0/Horizontal"])
    require_raises((KeyError, ValueError, RuntimeError), lambda: l.add_constraint(c, keys, params, k), "a key of a path")
    require_unchanged(before, (l.root_constraint, l.root_prim_keys, l.root_param), "a rejected constraint leaves no trace")


def ctx_related_keys_are_accepted():
    """keys which are part of one another are different keys"""
    l = new_layout()
    table = library()
    k = key("k")
    keys_ = choose("keys", [("Width1", "Width"), ("Width", "Width1"), ("a", "A"), ("1", "11"), ("given", k), (k + "1", k), ("1" + k, k), ("1" + k, k + "1")])
    assume(keys_[0] != keys_[1])
    for name, given in zip(("box", "length"), keys_):
        l.add_constraint(*table[name], given)
        lockstep(l, "after an addition")
    require_equal(list(l.root_constraint.keys()), list(keys_), "additions come in order, under their keys")
    require_equal(list(l.root_prim_keys.keys()), list(keys_), "additions come in order, under their keys")
    require_equal(list(l.root_param.keys()), list(keys_), "additions come in order, under their keys")


def ctx_unusual_keys_are_accepted():
    """any key without a slash is a key"""
    k = choose("key", [" ", "\t", "\n", "a b", " a", "a ", ".", "..", "0", "-1", "None", "Box0 ", "*", "%s", "{}", "_", "__init__", "É"])
    l = new_layout()
    table = library()
    first = choose("constraint", ["box", "nested"])
    l.add_prim(point("new"), k)
    require_equal(list(l.root_prim.keys())[-1], k, "a primitive is added under its key")
    l.add_constraint(*table[first], k)
    require_equal(list(l.root_constraint.keys()), [k], "a constraint is added under its key")
    l.add_constraint(cr.Fix(), (k,), (vec("v", 2),))
    lockstep(l, "unusual keys")
    require_same(at(l.root_prim, l.root_prim_keys[list(l.root_prim_keys.keys())[-1]].value[0]), l.root_prim[k], "the primitive which was added")
    require_equal(len(l.root_constraint), 2, "constraints are added")


def ctx_automatic_keys_avoid_given_keys():
    l = new_layout()
    c, keys, params = library()["length"]
    probe = new_layout()
    for i in range(4):
        probe.add_constraint(c, keys, params)
    auto = list(probe.root_constraint.keys())
    given = [k for i, k in enumerate(auto) if choose("key " + str(i) + " is given", [True, False])]
    if choose("order of given keys", ["ascending", "descending"]) == "descending":
        given = given[::-1]
    for k in given:
        l.add_constraint(c, keys, params, k)
    for i in range(3):
        l.add_constraint(c, keys, params)
        lockstep(l, "an automatic key")
    require(len(l.root_constraint) == len(given) + 3, "automatic keys replace no constraint")
    require_equal(list(l.root_constraint.keys())[:len(given)], given, "additions come in order, under their keys")


def ctx_automatic_keys_after_many_given_keys():
    l = new_layout()
    c, keys, params = library()["length"]
    probe = new_layout()
    n = choose("number of given keys", sizes(1, bound(6, 12), 130))
    for i in range(n):
        probe.add_constraint(c, keys, params)
    for k in probe.root_constraint.keys():
        l.add_constraint(c, keys, params, k)
    l.add_constraint(c, keys, params)
    lockstep(l, "an automatic key")
    require(len(l.root_constraint) == n + 1, "automatic keys replace no constraint")


def ctx_primitives():
    """primitives are added in order, and an existing key names one primitive"""
    l = lay.Layout()
    p = primitives()
    how = choose("added", ["one by one", "together"])
    if how == "together":
        l.add_prims(p)
    else:
        for k, v in p.items():
            l.add_prim(v, k)
    require_equal(list(l.root_prim.keys()), list(p.keys()), "primitives come in order, under their keys")
    for k in p:
        require_same(l.root_prim[k], p[k], "the primitive which was added")
    before = snapshot(l.root_prim)
    require_raises((KeyError, ValueError), lambda: l.add_prim(point("other"), "P"), "an existing key")
    require_unchanged(before, l.root_prim, "a rejected primitive leaves no trace")


def ctx_layouts_are_independent():
    a, b = new_layout(), lay.Layout()
    c, keys, params = library()["box"]
    a.add_constraint(c, keys, params)
    require(len(b.root_prim) == 0 and len(b.root_constraint) == 0, "another layout is empty")
    require(len(b.root_prim_keys) == 0 and len(b.root_param) == 0, "another layout is empty")
    require_disjoint((a.root_prim, a.root_constraint, a.root_prim_keys, a.root_param),
                     (b.root_prim, b.root_constraint, b.root_prim_keys, b.root_param), "layouts share nothing")
    b.add_prims(primitives())
    b.add_constraint(c, keys, params)
    require_equal(list(b.root_constraint.keys()), list(a.root_constraint.keys()), "automatic keys do not depend on other layouts")


def ctx_layout_of_given_trees():
    """a layout takes the trees it is given"""
    a = new_layout()
    a.add_constraint(*library()["nested"])
    b = lay.Layout(a.root_prim, a.root_constraint, a.root_prim_keys, a.root_param)
    require_same(b.root_prim, a.root_prim, "given primitives")
    require_same(b.root_constraint, a.root_constraint, "given constraints")
    require_same(b.root_prim_keys, a.root_prim_keys, "given primitive keys")
    require_same(b.root_param, a.root_param, "given parameters")
    b.add_constraint(*library()["nested"])
    lockstep(b, "a layout of given trees")
    require(len(b.root_constraint) == 2, "an automatic key avoids the keys of the given trees")
