from common import *
from catalog import *


def wrong_primitives(t):
    """primitives that are not instances of a type"""
    return [p for p in (point("w"), line("w"), quad("w"), axes("w"), pr.PrimitiveNode(np.array(()), {}))
            if not isinstance(p, t)]


def ctx_wrong_number_of_primitives():
    name, c, params = choose_entry()
    prims = prims_for(c)
    n = len(prims)
    extra = prims[-1:] if n else (point("w"),)
    cases = [("one too many", prims + extra), ("two too many", prims + extra + extra)]
    if n:
        cases = cases + [("one missing", prims[:-1]), ("first missing", prims[1:]), ("none", ())]
    what, bad = choose("primitives", cases)
    require_raises(TypeError, lambda: c(bad, *params), name + ": a wrong number of primitives")


def ctx_wrong_type_of_primitive():
    name, c, params = choose_entry()
    prims = prims_for(c)
    if len(prims) > 4:
        where = (0, 1, len(prims) - 1)
    else:
        where = range(len(prims))
    for i in where:
        for w in wrong_primitives(c.signature.prim_types[i]):
            bad = prims[:i] + (w,) + prims[i + 1:]
            require_raises(TypeError, lambda: c(bad, *params), name + ": a primitive of another type")


def ctx_primitives_not_in_a_tuple():
    name, c, params = choose_entry()
    prims = prims_for(c)
    require_raises(TypeError, lambda: c(list(prims), *params), name + ": a list of primitives")
    if len(prims) == 1:
        require_raises(TypeError, lambda: c(prims[0], *params), name + ": a bare primitive")
    require_raises(TypeError, lambda: c(None, *params), name + ": nothing")


def ctx_wrong_number_of_parameters():
    name, c, params = choose_entry()
    prims = prims_for(c)
    for extra in (1, 2):
        require_raises(TypeError, lambda: c(prims, *(params + extra * (sym("w"),))), name + ": too many parameters")
    for n in range(len(params)):
        require_raises(TypeError, lambda: c(prims, *params[:n]), name + ": too few parameters")


def ctx_wrong_number_of_parameters_of_a_part():
    """list-valued parameters that do not fit the number of rows, columns, ..."""
    shape = choose("shape", [s for s in GRIDS if s[0] * s[1] <= 9])
    good = grid_params(shape)
    i = choose("parameter", range(4))
    n = good[i].size
    m = choose("length", [k for k in (n - 1, n + 1, n + 2) if k >= 0])
    bad = good[:i] + (vec("bad", m),) + good[i + 1:]
    c = cr.Grid(shape=shape)
    require_raises(TypeError, lambda: c(prims_for(c), *bad), "a grid with another number of widths, heights or margins")


def ctx_parameters_of_parts_that_do_not_fit():
    """a compound construction which assigns parameters to its parts"""
    called = []

    class Part(con.LeafConstruction):
        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((pr.Point,), (float,), 1)

        @classmethod
        def assem(cls, prims, a):
            called.append(a)
            return np.array([0.0])

    n = choose("parts", [1, 2, 3])
    a = sym("a")
    fits = n * ((a,),)
    bad = choose("parameters of parts", [fits + ((a,),), fits + ((),), fits[1:], (), ((a, a),) + fits[1:], fits[:-1] + ((),), fits[:-1] + ((a, a),)])

    class Whole(con.CompoundConstruction):
        @classmethod
        def init_children(cls):
            return tuple(["P" + str(i) for i in range(n)]), tuple([Part() for _ in range(n)]), n * (("arg0",),), lambda params: bad

        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((pr.Point,), (), 0)

    require_raises(TypeError, lambda: Whole()((point("p"),)), "parameters of parts that do not fit")
    require(len(called) == 0, "nothing is evaluated for inputs that do not fit")


def ctx_parent_classes_do_not_fit():
    """an instance of a class that is more general than the declared one"""
    polygon = pr.Polygon(prims=[point("a"), point("b"), point("c"), point("d")])
    require_raises(TypeError, lambda: con.Width()((polygon,)), "a polygon is no quadrilateral")
    require_raises(TypeError, lambda: cr.Box()((polygon,)), "a polygon is no quadrilateral")
    general = pr.Primitive.from_tree(np.array([sym("x"), sym("y")]), {})
    require_raises(TypeError, lambda: con.Coordinate()((general,)), "a general primitive is no point")
    require_raises(TypeError, lambda: con.Coordinate()((pr.PrimitiveNode.from_tree(np.array([sym("x"), sym("y")]), {}),)), "a general primitive is no point")


def ctx_arbitrary_constructions():
    """the checks come before any evaluation"""
    called = []

    class Probe(con.LeafConstruction):
        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((pr.Point, pr.Line), (float, float), 1)

        @classmethod
        def assem(cls, prims, *params):
            called.append(prims)
            return np.array([0.0])
    c = Probe()
    p, l = point("p"), line("l")
    a, b = sym("a"), sym("b")
    for prims in ((), (p,), (l, p), (p, p), (l, l), (p, l, p), [p, l], (p, quad("q"))):
        require_raises(TypeError, lambda: c(prims, a, b), "primitives that do not fit")
    for params in ((), (a,), (a, b, a)):
        require_raises(TypeError, lambda: c((p, l), *params), "parameters that do not fit")
    require(len(called) == 0, "nothing is evaluated for inputs that do not fit")
    c((p, l), a, b)
    require(len(called) == 1, "fitting inputs are evaluated")


def ctx_subclasses_fit():
    class NamedPoint(pr.Point):
        pass

    class Frame(pr.Quadrilateral):
        pass
    p = NamedPoint((sym("x"), sym("y")))
    require_equal(con.Coordinate()((p,)), p.value, "an instance of a subclass is accepted")
    q = Frame()
    require_zero(con.Width()((q,)) - 1, "an instance of a subclass is accepted")


def ctx_valid_inputs_are_accepted():
    name, c, params = choose_entry()
    c(prims_for(c), *params)
    require(True, name + ": valid inputs are accepted")
