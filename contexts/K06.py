from common import *
from catalog import *


def residual_is(c, prims, params, what):
    y = c(prims, *params)
    value = vec("target", y.size)
    r = con.transform_constraint(c)
    require_equal(r(prims, *(params + (value,))), y - value, what + ": the residual is the construction minus the target")
    require(r.signature.prim_types == c.signature.prim_types, what + ": a constraint is about the same primitives")
    require(len(r.signature.param_types) == len(params) + 1, what + ": the target is one more parameter")


def ctx_library_constructions():
    name, c, params = choose_entry("construction", {k: v for k, v in measurements().items() if k != "Scalar"})
    residual_is(c, prims_for(c), params, name)


def ctx_library_constraints_as_constructions():
    name, c, params = choose_entry("construction", {k: v for k, v in relations().items() if "Grid" not in k or "2" in k})
    residual_is(c, prims_for(c), params, name)


def ctx_trees_of_any_sizes():
    """constructions with parts of any sizes, at any depth"""
    shape = choose("tree shape", shapes(bound(4, 5)))
    n = [0]

    def build(sub, path):
        children = [build(x, path + (i,)) for i, x in enumerate(sub)]
        n[0] = n[0] + 1
        size = choose("size of " + tag(path), [0, 1, 2] if n[0] < 4 else [1])
        return unknown(tag(path), size, (pr.Point, pr.Point), 1, tuple(children),
                       tuple([child_key("distinct", path, i) for i in range(len(sub))]),
                       tuple([("arg1", "arg0") for _ in sub]), lambda params: tuple([params for _ in sub]))
    c = build(shape, ())
    residual_is(c, (point("p"), point("q")), (sym("a"),), "any tree")


def ctx_plain_number_as_target():
    """a number is the target of every value"""
    name, c, params = choose_entry("construction", {
        k: v for k, v in measurements().items() if k in ("XDistance", "Length", "Angle", "Width", "OuterMargin left", "Coordinate")})
    prims = prims_for(c)
    t = choose("target", [sym("t"), 0, 2, 0.5])
    require_equal(con.transform_constraint(c)(prims, *(params + (t,))), c(prims, *params) - t, name + ": a number as target")


def ctx_number_as_target_of_a_construction_with_parts():
    """a number is the target of the own values and of every part"""
    n, m = choose("own values and values of the part", [(1, 1), (2, 1), (1, 2), (2, 3), (1, 0)])
    part = unknown("a", m, (pr.Point,), 0)
    inner = unknown("b", 1, (pr.Point,), 0, (part,), (key("a"),), (("arg0",),))
    c = unknown("c", n, (pr.Point,), 0, (inner, part), (key("b"), key("a")), (("arg0",), ("arg0",)))
    p = point("p")
    t = choose("target", [sym("t"), 0, 2, 0.5])
    require_equal(con.transform_constraint(c)((p,), t), c((p,)) - t, "a number is the target of every value")


def ctx_number_as_target_of_parts():
    a = unknown("a", 2, (pr.Point,), 0)
    b = unknown("b", 1, (pr.Point,), 0, (a,), (key("a"),), (("arg0",),))
    c = unknown("c", 0, (pr.Point,), 0, (b, a), (key("b"), key("a")), (("arg0",), ("arg0",)))
    p = point("p")
    t = choose("target", [sym("t"), 0, 2, 0.5])
    require_equal(con.transform_constraint(c)((p,), t), c((p,)) - t, "a number is the target of every part")


def ctx_targets_under_compilation():
    """a target that is traced by jax, for a construction with and without parts"""
    import jax
    name, c, params = choose_entry("construction", {k: v for k, v in measurements().items() if k != "Scalar"})
    prims = prims_for(c)
    y = c(prims, *params)
    kind = choose("target", ["array", "number"])
    v = vec("v", y.size) if kind == "array" else sym("v")
    r = con.transform_constraint(c)
    residual = lambda value: r(prims, *(params + (value,)))
    require_equal(jax.jit(residual)(v), y - v, name + ": a traced target")
    jax.jacfwd(residual)(v)


def ctx_traced_targets_of_trees():
    import jax
    n, m = choose("own values and values of the part", [(0, 1), (1, 0), (1, 1), (2, 1), (0, 2), (0, 0)])
    part = unknown("a", m, (pr.Point,), 0)
    c = unknown("c", n, (pr.Point,), 0, (part,), (key("b"),), (("arg0",),))
    p = point("p")
    y = c((p,))
    v = vec("v", y.size) if choose("target", ["array", "number"]) == "array" else sym("v")
    r = con.transform_constraint(c)
    require_equal(jax.jit(lambda value: r((p,), value))(v), y - v, "a traced target of a construction with parts")
    jax.jacfwd(lambda value: r((p,), value))(v)


def ctx_zero_exactly_at_the_measurement():
    name, c, params = choose_entry("construction", {k: v for k, v in measurements().items() if k != "Scalar"})
    prims = prims_for(c)
    y = c(prims, *params)
    require_zero(con.transform_constraint(c)(prims, *(params + (y,))), name + ": the residual vanishes at the measurement")
