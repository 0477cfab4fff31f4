from common import *
from catalog import *
import jax


def operand(prefix):
    """a construction with parameters and parts, of which only the structure is known"""
    kind = choose("structure of " + prefix, ["leaf", "leaf without parameters", "compound", "nested", "many parts"])
    if kind == "many parts":
        n = choose("parts", sizes(5, bound(6, 9), 40))
        parts = [unknown(prefix + "m" + str(i), 1 + i % 2, (pr.Point,), i % 2) for i in range(n)]
        return unknown(prefix, 1, (pr.Point, pr.Point), 2, tuple(parts), tuple(["k" + str(n - i) for i in range(n)]),
                       tuple([("arg" + str(i % 2),) for i in range(n)]),
                       lambda params: tuple([(params[i // 2 % 2],) if i % 2 else () for i in range(n)]))
    if kind == "leaf":
        return unknown(prefix, 2, (pr.Point,), 2)
    if kind == "leaf without parameters":
        return unknown(prefix, 2, (pr.Point, pr.Line), 0)
    a = unknown(prefix + "a", 1, (pr.Point,), 1)
    b = unknown(prefix + "b", 2, (pr.Point, pr.Line), 0)
    inner = unknown(prefix + "i", 0, (pr.Line, pr.Point), 2, (a, b), (key("a"), key("b")),
                    (("arg0/Point1",), ("arg1", "arg0")), lambda params: ((params[1],), ()))
    if kind == "compound":
        return inner
    return unknown(prefix + "o", 1, (pr.Point, pr.Line), 1, (inner, a), (key("i"), key("x")),
                   (("arg1", "arg0"), ("arg1/Point0",)), lambda params: ((params[0], sym("fixed")), (params[0],)))


def pair_of_operands():
    """two constructions of the same structure, with different signatures"""
    kind = choose("structure", ["leaf", "compound", "nested", "empty", "many primitives"])
    if kind == "many primitives":
        # so many that positions in the sum have more digits than positions in a term
        n = choose("primitives", sizes(11, bound(11, 23), 40))
        fp, gp = unknown("fp", 1, (pr.Point, pr.Line), 1), unknown("gp", 1, (pr.Line, pr.Point), 0)
        fm = unknown("fm", 1, n * (pr.Point,) + (pr.Line,), 1, (fp,), ("p",),
                     (("arg" + str(n - 1), "arg" + str(n)),), lambda params: ((params[0],),))
        gm = unknown("gm", 1, n * (pr.Line,), 2, (gp,), ("p",), (("arg1", "arg" + str(n - 1) + "/Point1"),), lambda params: ((),))
        return fm, gm
    if kind == "leaf":
        return unknown("f", 2, (pr.Point,), 2), unknown("g", 2, (pr.Line, pr.Point), 1)
    if kind == "empty":
        return unknown("f", 0, (pr.Point,), 0), unknown("g", 0, (), 1)
    fa, ga = unknown("fa", 1, (pr.Point,), 1), unknown("ga", 1, (pr.Line,), 0)
    fb, gb = unknown("fb", 2, (pr.Point, pr.Line), 0), unknown("gb", 2, (pr.Point,), 2)
    fi = unknown("fi", 0, (pr.Line, pr.Point), 2, (fa, fb), (key("a"), key("b")),
                 (("arg0/Point1",), ("arg1", "arg0")), lambda params: ((params[1],), ()))
    gi = unknown("gi", 0, (pr.Point, pr.Line, pr.Point), 1, (ga, gb), (key("a"), key("b")),
                 (("arg1",), ("arg2",)), lambda params: ((), (params[0], params[0])))
    if kind == "compound":
        return fi, gi
    f = unknown("fo", 1, (pr.Point, pr.Line), 1, (fi,), (key("i"),), (("arg1", "arg0"),), lambda params: ((params[0], params[0]),))
    g = unknown("go", 1, (pr.Line, pr.Point), 2, (gi,), (key("i"),), (("arg0/Point0", "arg0", "arg1"),), lambda params: ((params[1],),))
    return f, g


def inputs(c, prefix):
    return prims_for(c, prefix), tuple([sym(prefix + "param" + str(i)) for i in range(len(c.signature.param_types))])


def ctx_sum():
    f, g = pair_of_operands()
    pf, vf = inputs(f, "f")
    pg, vg = inputs(g, "g")
    h = f + g
    require_equal(h(pf + pg, *(vf + vg)), f(pf, *vf) + g(pg, *vg),
                  "a sum takes the inputs of its terms one after the other and adds their values")
    require(h.signature.prim_types == f.signature.prim_types + g.signature.prim_types, "primitives of a sum")
    require(len(h.signature.param_types) == len(vf) + len(vg), "parameters of a sum")
    require_equal([p for p, _ in walk(h)], [p for p, _ in walk(f)], "a sum has the structure of its terms")


def ctx_sum_of_three():
    f, g = pair_of_operands()
    pf, vf = inputs(f, "f")
    pg, vg = inputs(g, "g")
    ph, vh = inputs(f, "h")
    require_equal(((f + g) + f)(pf + pg + ph, *(vf + vg + vh)), f(pf, *vf) + g(pg, *vg) + f(ph, *vh), "a sum of three terms")
    require_equal((f + (g + f))(pf + pg + ph, *(vf + vg + vh)), f(pf, *vf) + g(pg, *vg) + f(ph, *vh), "a sum of three terms")


def ctx_sum_with_itself():
    f = operand("f")
    pf, vf = inputs(f, "f")
    pg, vg = inputs(f, "g")
    require_equal((f + f)(pf + pg, *(vf + vg)), f(pf, *vf) + f(pg, *vg), "a sum of a construction with itself")


def ctx_multiples():
    f = operand("f")
    p, v = inputs(f, "f")
    y = f(p, *v)
    s = choose("factor", [2, -1, 0.5, 0, 1])
    require_equal((f * s)(p, *v), y * s, "a multiple by a number")
    require_equal((s * f)(p, *v), y * s, "a multiple by a number")
    require_equal((-f)(p, *v), -1 * y, "a negated construction")
    require_equal((+f)(p, *v), y, "a construction with a plus sign")
    if s != 0:
        require_equal((f / s)(p, *v), y / s, "a quotient by a number")
    require(len((f * s).signature.param_types) == len(v), "a multiple by a number has no other parameters")


def ctx_multiples_by_a_parameter():
    f = operand("f")
    p, v = inputs(f, "f")
    y = f(p, *v)
    s, r = sym("s", "+"), choose("sign of the factor", [sym("r"), sym("s", "+"), -sym("s", "+"), 0.0])
    require_equal((f * con.Scalar())(p, *(v + (r,))), y * r, "a multiple by a parameter, which comes last")
    require_equal((con.Scalar() * f)(p, *(v + (r,))), y * r, "a multiple by a parameter, which comes last")
    require_equal((f / con.Scalar())(p, *(v + (-s,))), -y / s, "a quotient by a parameter, which comes last")
    require_equal((f / con.Scalar())(p, *(v + (s,))), y / s, "a quotient by a parameter, which comes last")


def number(kind, value):
    """a number as it is found in programs, of the type of Python or of an array's elements"""
    if kind == "int":
        return value
    if kind == "float":
        return float(value)
    if kind == "element of integers":
        return np.array([value, 7])[0]
    if kind == "element of floats":
        return np.array([float(value), 7.0])[0]
    if kind == "array of an integer":
        return np.array(value)
    return jax.numpy.array(value)


def ctx_types_of_numbers():
    """factors, divisors and exponents of the types which numbers have in Python and in arrays"""
    f = operand("f")
    p, v = inputs(f, "f")
    y = f(p, *v)
    n = number(choose("type", ["int", "float", "element of integers", "element of floats"]), choose("number", [2, -3]))
    require_equal((f * n)(p, *v), y * n, "a multiple by a number")
    require_equal((n * f)(p, *v), y * n, "a multiple by a number")
    require_equal((f / n)(p, *v), y / n, "a quotient by a number")
    m = number(choose("type of the exponent", ["int", "float", "element of integers", "element of floats"]), 2)
    require_equal((f ** m)(p, *v), y ** 2, "a power with a number")


def ctx_types_of_parameters():
    """scalar parameters of the types which numbers have in Python and in arrays"""
    f = operand("f")
    p, v = inputs(f, "f")
    y = f(p, *v)
    n = number(choose("type", ["int", "float", "element of integers", "element of floats", "array of an integer",
                               "array of jax"]), choose("number", [2, -3]))
    require_equal((f * con.Scalar())(p, *(v + (n,))), y * n, "a multiple by a parameter")
    require_equal((con.Scalar() * f)(p, *(v + (n,))), y * n, "a multiple by a parameter")
    require_equal((f / con.Scalar())(p, *(v + (n,))), y / n, "a quotient by a parameter")
    require_equal((con.Scalar() / con.Scalar())((), n, n), np.array([1]), "a quotient of parameters")


def ctx_powers():
    f = operand("f")
    p, v = inputs(f, "f")
    y = f(p, *v)
    n = choose("exponent", [1, 2, 3, 0, -1, -2])
    require_equal((f ** n)(p, *v), y ** n, "a power with a number")


def ctx_power_of_a_parameter():
    s, t = sym("s", "+"), sym("t", "+")
    require_equal((con.Scalar() ** con.Scalar())((), s, t), np.array([s]) ** t, "a power with a parameter, which comes last")
    require_equal((con.Scalar() ** -1)((), s), np.array([1 / s]), "a reciprocal")


def scalar_factors():
    """scalars with their parameters and their value"""
    s, t = sym("s", "+"), sym("t", "+")
    return {
        "fixed": (lambda: con.transform_partial(con.Scalar(), t), (), t),
        "multiple": (lambda: 3 * con.Scalar(), (s,), 3 * s),
        "product": (lambda: con.Scalar() * con.Scalar(), (s, t), s * t),
        "quotient": (lambda: con.Scalar() / con.Scalar(), (s, t), s / t),
        "power": (lambda: con.Scalar() ** 2, (s,), s * s),
        "fixed multiple": (lambda: con.transform_partial(con.Scalar(), 2) * 3, (), 6),
    }


def ctx_factors_which_are_expressions():
    """factors, divisors and exponents which are made of scalars themselves"""
    f = operand("f")
    p, v = inputs(f, "f")
    y = f(p, *v)
    table = scalar_factors()
    name = choose("factor", sorted(table.keys()))
    make_factor, w, value = table[name]
    which = choose("operation", ["right factor", "left factor", "divisor"])
    if which == "right factor":
        c, expected = f * make_factor(), y * value
    elif which == "left factor":
        c, expected = make_factor() * f, y * value
    else:
        c, expected = f / make_factor(), y / value
    require_equal(c(p, *(v + w)), expected, which + " that is a " + name + " of scalars")
    require(len(c.signature.param_types) == len(v) + len(w), "parameters of an expression")


def ctx_exponents_which_are_expressions():
    table = scalar_factors()
    name = choose("exponent", ["fixed multiple", "multiple", "product"])
    make_factor, w, value = table[name]
    s = sym("base", "+")
    require_equal((con.Scalar() ** make_factor())((), *((s,) + w)), np.array([s]) ** value, "an exponent that is a " + name + " of scalars")


def ctx_parameters_under_compilation():
    """expressions whose parameters are traced by jax"""
    f, g = pair_of_operands()
    pf, vf = inputs(f, "f")
    pg, vg = inputs(g, "g")
    a, b = f(pf, *vf), g(pg, *vg)
    s = sym("s", "+")
    name, c, p, w, expected = choose("expression", [
        ("sum", f + g, pf + pg, vf + vg, a + b),
        ("multiple by a parameter", f * con.Scalar(), pf, vf + (s,), a * s),
        ("multiple by a parameter", con.Scalar() * f, pf, vf + (s,), a * s),
        ("quotient by a parameter", f / con.Scalar(), pf, vf + (s,), a / s),
        ("power", f ** 2, pf, vf, a ** 2),
        ("power with a parameter", con.Scalar() ** con.Scalar(), (), (s, 3), np.array([s]) ** 3),
        ("negative power with a parameter", con.Scalar() ** con.Scalar(), (), (s, -2), np.array([1 / (s * s)])),
        ("map", con.transform_map(f, [pr.Point] * len(pf)) if len(pf) == 1 else f, pf, vf, a),
    ])
    if len(w) > 0:
        require_equal(jax.jit(lambda *values: c(p, *values))(*w), expected, name + " of traced parameters")


def ctx_scalars():
    s, t = sym("s"), sym("t", "+")
    require_equal((con.Scalar() * 3)((), s), np.array([3 * s]), "a multiple of a scalar")
    require_equal((3 * con.Scalar())((), s), np.array([3 * s]), "a multiple of a scalar")
    require_equal((con.Scalar() / con.Scalar())((), s, t), np.array([s / t]), "a quotient of scalars")
    require_equal((con.Scalar() * con.Scalar())((), s, t), np.array([s * t]), "a product of scalars")
    require_equal((con.Scalar() + con.Scalar())((), s, t), np.array([s + t]), "a sum of scalars")
    require_equal((-con.Scalar())((), s), np.array([-s]), "a negated scalar")


def ctx_expressions():
    f, g = pair_of_operands()
    pf, vf = inputs(f, "f")
    pg, vg = inputs(g, "g")
    a, b = f(pf, *vf), g(pg, *vg)
    s, t = sym("s", "+"), sym("t", "+")
    which = choose("expression", range(6))
    if which == 0:
        require_equal((-(2 * f + g) / 4)(pf + pg, *(vf + vg)), -(2 * a + b) / 4, "an expression")
    elif which == 1:
        require_equal((f * con.Scalar() + g * con.Scalar())(pf + pg, *(vf + (s,) + vg + (t,))), a * s + b * t, "an expression")
    elif which == 2:
        require_equal(((f + g) * con.Scalar())(pf + pg, *(vf + vg + (s,))), (a + b) * s, "an expression")
    elif which == 3:
        require_equal(((f * con.Scalar()) / con.Scalar())(pf, *(vf + (s, t))), a * s / t, "an expression")
    elif which == 4:
        require_equal((f + -1 * g)(pf + pg, *(vf + vg)), a - b, "an expression")
    else:
        require_equal(((f + g) ** 2 + g)(pf + pg + pg, *(vf + vg + vg)), (a + b) ** 2 + b, "an expression")


def ctx_operands_are_left_alone():
    f, g = pair_of_operands()
    before_f, before_g = snapshot(f), snapshot(g)
    pf, vf = inputs(f, "f")
    pg, vg = inputs(g, "g")
    (f + g)(pf + pg, *(vf + vg))
    (2 * f)(pf, *vf)
    (f * con.Scalar())(pf, *(vf + (sym("s"),)))
    (f ** 2)(pf, *vf)
    if vf:
        con.transform_partial(f, vf[-1])(pf, *vf[:-1])
    require_unchanged(before_f, f, "the first operand")
    require_unchanged(before_g, g, "the second operand")


def ctx_unequal_sizes_are_rejected():
    f, g = unknown("f", 2, (pr.Point,), 0), unknown("g", 1, (pr.Point,), 0)
    require_raises(REJECTED, lambda: f + g, "a sum of constructions of different sizes")
    h = unknown("h", 0, (pr.Point,), 0, (f,), (key("a"),), (("arg0",),))
    k = unknown("k", 0, (pr.Point,), 0, (f,), (key("b"),), (("arg0",),))
    require_raises(REJECTED, lambda: h + k, "a sum of constructions of different structures")


def ctx_other_factors_are_rejected():
    bad = choose("factor", ["2", None, (1.0,)])
    f = unknown("f", 1, (pr.Point,), 0)
    require_raises((TypeError,), lambda: f * bad, "a multiple by something that is no number")


def ctx_partial_application():
    """fixing the last parameters"""
    f = operand("f")
    p, v = inputs(f, "f")
    n = choose("number of fixed parameters", range(0, len(v) + 1))
    g = con.transform_partial(f, *v[len(v) - n:])
    require(len(g.signature.param_types) == len(v) - n, "fixed parameters are no parameters any more")
    require_equal(g(p, *v[:len(v) - n]), f(p, *v), "fixing the last parameters")


def ctx_map():
    """one construction over a row of primitives; further primitives are common and come last"""
    extra = choose("common primitives", [0, 1, 2])
    n_params = choose("parameters", [0, 1, 2])
    types = (pr.Point, pr.Line, pr.Quadrilateral)[:extra + 1]
    f = unknown("f", choose("size", [1, 2]), types, n_params)
    count = choose("mapped primitives", sizes(0, bound(5, 8), 130))
    row = tuple([point("p" + str(i)) for i in range(count)])
    common = tuple([primitive_of(t, "c" + str(i)) for i, t in enumerate(types[1:])])
    m = con.transform_map(f, count * (pr.Point,) + tuple(types[1:]))
    params = tuple([sym("a" + str(i)) for i in range(count * n_params)])
    expected = []
    for i in range(count):
        y = f((row[i],) + common, *params[i * n_params:(i + 1) * n_params])
        expected = expected + [y[j] for j in range(y.size)]
    require(len(m) == count, "one part for each mapped primitive")
    require_equal(m(row + common, *params), np.array(expected), "the construction is applied to each primitive in turn")


def ctx_map_of_compound():
    f = operand("f")
    p0, v0 = inputs(f, "u")
    p1, v1 = inputs(f, "v")
    p2, v2 = inputs(f, "w")
    m = con.transform_map(f, 3 * (type(p0[0]),) + tuple([type(x) for x in p0[1:]]))
    common = p0[1:]
    y = [f((p[0],) + common, *v) for p, v in ((p0, v0), (p1, v1), (p2, v2))]
    require_equal(m((p0[0], p1[0], p2[0]) + common, *(v0 + v1 + v2)), np.concatenate(y), "a construction with parts is mapped")


def ctx_library_operands():
    name, c, params = choose_entry("construction", {k: v for k, v in entries().items() if "Grid" not in k and "AxisThickness" not in k})
    prims = prims_for(c)
    y = c(prims, *params)
    require_equal((c * 3)(prims, *params), 3 * y, name + ": a multiple")
    require_equal((-c)(prims, *params), -1 * y, name + ": a negated construction")
    require_equal((c * con.Scalar())(prims, *(params + (sym("s"),))), y * sym("s"), name + ": a multiple by a parameter")
    other = prims_for(c, "h")
    require_equal((c + c)(prims + other, *(params + params)), y + c(other, *params), name + ": a sum")
