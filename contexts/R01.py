from common import *
from catalog import *

TARGETS = ("zero", "arbitrary")


def target_of(y, kind):
    return np.zeros(y.size) if kind == "zero" else vec("target", y.size)


def constraint_and_measurement():
    """a library constraint on a value and the measurement of the same name"""
    table = value_constraints()
    name = choose("constraint", sorted(table.keys()))
    measured = "Coordinate" if name == "Fix" else name
    return name, table[name], measurements()[measured]


def ctx_error_is_measurement_minus_value():
    name, (make, _), (measure, params) = constraint_and_measurement()
    c, m = make(), measure()
    prims = prims_for(m)
    p = params()
    y = m(prims, *p)
    t = target_of(y, choose("target", TARGETS))
    value = t if y.size > 1 else t[0]
    require_equal(c(prims, *(p + (value,))), y - t, name + ": the error is the measurement minus the value")


def ctx_same_inputs_as_the_measurement():
    name, (make, _), (measure, params) = constraint_and_measurement()
    c, m = make(), measure()
    require(c.signature.prim_types == m.signature.prim_types, name + ": the same kinds of primitives")
    require(len(c.signature.param_types) == len(m.signature.param_types) + 1, name + ": the value is one more parameter")


def ctx_value_may_be_an_array_of_one():
    name, (make, _), (measure, params) = constraint_and_measurement()
    c, m = make(), measure()
    prims = prims_for(m)
    p = params()
    y = m(prims, *p)
    t = target_of(y, "arbitrary")
    require_equal(c(prims, *(p + (t,))), y - t, name + ": a value in an array")


def ctx_satisfied_exactly_at_the_value():
    """a geometry moved away from the value has an error, by the full difference"""
    name, (make, _), (measure, params) = constraint_and_measurement()
    c, m = make(), measure()
    prims = prims_for(m)
    p = params()
    y = m(prims, *p)
    e = vec("e", y.size)
    value = y - e if y.size > 1 else (y - e)[0]
    require_equal(c(prims, *(p + (value,))), e, name + ": the error is the difference to the value")


def ctx_errors_in_coordinates():
    """the errors written out in coordinates, independently of the constructions"""
    p, q, l, m, f = point("p"), point("q"), line("l"), line("m"), quad("f")
    (px, py), (qx, qy) = xy(p), xy(q)
    dx, dy = direction(l)
    n = length(l)
    (lx, ly), (mx, my) = middle(l), middle(m)
    (sx, sy), (ex, ey) = start(l), end(l)
    v, d = sym("v"), vec("d", 2)
    corners = [start(f["Line" + str(i)]) for i in range(4)]
    wide = [corners[1][i] - corners[0][i] for i in range(2)]
    high = [corners[2][i] - corners[1][i] for i in range(2)]
    cases = {
        "XDistance": (cr.XDistance(), (p, q), (v,), qx - px),
        "YDistance": (cr.YDistance(), (p, q), (v,), qy - py),
        "DirectedDistance": (cr.DirectedDistance(), (p, q), (d, v), (qx - px) * d[0] + (qy - py) * d[1]),
        "Length": (cr.Length(), (l,), (v,), n),
        "DirectedLength": (cr.DirectedLength(), (l,), (d, v), dx * d[0] + dy * d[1]),
        "XLength": (cr.XLength(), (l,), (v,), dx),
        "YLength": (cr.YLength(), (l,), (v,), dy),
        "MidpointXDistance": (cr.MidpointXDistance(), (l, m), (v,), mx - lx),
        "MidpointYDistance": (cr.MidpointYDistance(), (l, m), (v,), my - ly),
        "Width": (cr.Width(), (f,), (v,), wide[0]),
        "Height": (cr.Height(), (f,), (v,), high[1]),
        "AspectRatio": (cr.AspectRatio(), (f,), (v,), np.sqrt(wide[0] * wide[0] + wide[1] * wide[1]) / np.sqrt(high[0] * high[0] + high[1] * high[1])),
        "PointOnLineDistance": (cr.PointOnLineDistance(), (p, l), (False, v), ((px - sx) * dx + (py - sy) * dy) / n),
        "PointOnLineDistance reversed": (cr.PointOnLineDistance(), (p, l), (True, v), ((px - ex) * -dx + (py - ey) * -dy) / n),
        "PointToLineDistance": (cr.PointToLineDistance(), (p, l), (False, v), ((px - sx) * -dy + (py - sy) * dx) / n),
        "PointToLineDistance reversed": (cr.PointToLineDistance(), (p, l), (True, v), ((px - sx) * dy + (py - sy) * -dx) / n),
        "RelativePointOnLineDistance": (cr.RelativePointOnLineDistance(), (p, l), (False, v), ((px - sx) * dx + (py - sy) * dy) / (n * n)),
        "RelativePointOnLineDistance reversed": (cr.RelativePointOnLineDistance(), (p, l), (True, v), ((px - ex) * -dx + (py - ey) * -dy) / (n * n)),
    }
    name = choose("constraint", sorted(cases.keys()))
    c, prims, params, y = cases[name]
    r = c(prims, *params)
    require(r.shape == (1,), name + ": one error")
    require_equal(r[0], y - v, name + ": the error in coordinates")


def ctx_fixed_points():
    p, v = point("p"), vec("v", 2)
    require_equal(cr.Fix()((p,), v), p.value - v, "the error of a fixed point is the difference to the location")


def ctx_measuring_parts_of_one_primitive():
    check_shared_inputs({"cr." + k: v for k, v in value_constraints().items() if "Margin" not in k}, "the error")
