"""Flat lists of constraints, primitive keys and parameters"""
from layouts import *


def setting():
    name = choose("layout", sorted(cases().keys()))
    make, n, constraints = case = cases()[name]
    return case, layout_of(case, start_values(n))


def ctx_one_entry_for_each_constraint_and_part():
    case, l = setting()
    c, k, v = l.flat_constraints()
    require(len(c) == len(k) and len(c) == len(v), "the lists have the same length")
    require(len(c) == len(walk(l.root_constraint)) - 1, "an entry for each constraint and each part of a constraint")
    for (p, node), (_, keys), (_, params), a, b, d in zip(
            walk(l.root_constraint)[1:], walk(l.root_prim_keys)[1:], walk(l.root_param)[1:], c, k, v):
        require_equal(b, keys.value, "primitive keys in the order of the constraints")
        require_equal(d, params.value, "parameters in the order of the constraints")


def ctx_entries_evaluate_to_the_constraints():
    """evaluating the entries one after the other gives the errors of the constraints"""
    case, l = setting()
    c, k, v = l.flat_constraints()
    out = [np.zeros(0)]
    for f, keys, params in zip(c, k, v):
        out.append(f(tuple([at(l.root_prim, x) for x in keys]), *params))
    x = np.concatenate(start_values(case[1]))
    require_equal(np.concatenate(out), np.concatenate(residual_of(case, x)), "all entries together give all errors")


def ctx_flattening_changes_nothing():
    case, l = setting()
    before = snapshot(l)
    first = l.flat_constraints()
    again = l.flat_constraints()
    require_unchanged(before, l, "the layout is left alone")
    for a, b in zip(first, again):
        require(a is not b, "a list of its own for each caller")
    require_equal(first[1], again[1], "flattening again gives the same lists")
    require_equal(first[2], again[2], "flattening again gives the same lists")
    first[1].append(("Q",))
    first[0].clear()
    require(len(l.flat_constraints()[0]) == len(walk(l.root_constraint)) - 1, "changing a list does not change the layout")


def ctx_library_constraints():
    name, c, params = choose_entry("constraint", {
        k: v for k, v in list(value_constraints().items()) + list(relations().items()) if "Grid" not in k or "2" in k})
    prims = prims_for(c)
    l = lay.Layout()
    for i, p in enumerate(prims):
        l.add_prim(p, "p" + str(i))
    l.add_constraint(c, tuple(["p" + str(i) for i in range(len(prims))]), params)
    fs, ks, vs = l.flat_constraints()
    out = [f(tuple([at(l.root_prim, x) for x in keys]), *q) for f, keys, q in zip(fs, ks, vs)]
    require_equal(np.concatenate(out), c(prims, *params), name + ": the parts together give the constraint")


def ctx_any_number_of_constraints():
    n = choose("constraints", sizes(1, bound(11, 23), 130))
    case, l = many_constraints(n)
    c, k, v = l.flat_constraints()
    require(len(c) == len(walk(l.root_constraint)) - 1, "an entry for each constraint and each part of a constraint")
    for (_, keys), (_, params), b, d in zip(walk(l.root_prim_keys)[1:], walk(l.root_param)[1:], k, v):
        require_equal(b, keys.value, "primitive keys in the order of the constraints")
        require_equal(d, params.value, "parameters in the order of the constraints")
    out = [f(tuple([at(l.root_prim, x) for x in keys]), *q) for f, keys, q in zip(c, k, v)]
    x = np.concatenate(start_values(case[1]))
    require_equal(np.concatenate(out), np.concatenate(residual_of(case, x)), "all entries together give all errors")
