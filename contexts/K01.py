from common import *
import numpy as np
from mpllayout import constructions as con
from catalog import check_shared_inputs, measurements


def value_is(construction, prims, params, expected, what):
    v = construction(prims, *params)
    require_equal(v, np.array(list(expected)), what)


def ctx_coordinate():
    p = point("p")
    value_is(con.Coordinate(), (p,), (), (sym("px"), sym("py")), "coordinates of a point")


def ctx_directed_distance():
    p, q = point("p"), point("q")
    d = vec("d", 2)
    (px, py), (qx, qy) = xy(p), xy(q)
    value_is(con.DirectedDistance(), (p, q), (d,), ((qx - px) * d[0] + (qy - py) * d[1],),
             "distance from the first to the second point along a direction")


def ctx_axis_distances():
    p, q = point("p"), point("q")
    (px, py), (qx, qy) = xy(p), xy(q)
    value_is(con.XDistance(), (p, q), (), (qx - px,), "x distance from the first to the second point")
    value_is(con.YDistance(), (p, q), (), (qy - py,), "y distance from the first to the second point")


def ctx_line_vectors():
    l = line("l")
    dx, dy = direction(l)
    n = length(l)
    value_is(con.LineVector(), (l,), (), (dx, dy), "the line vector points from start to end")
    value_is(con.UnitLineVector(), (l,), (), (dx / n, dy / n), "the unit line vector points from start to end")


def ctx_lengths():
    l = line("l")
    dx, dy = direction(l)
    d = vec("d", 2)
    value_is(con.Length(), (l,), (), (length(l),), "length of a line")
    value_is(con.DirectedLength(), (l,), (d,), (dx * d[0] + dy * d[1],), "length along a direction")
    value_is(con.XLength(), (l,), (), (dx,), "length along x")
    value_is(con.YLength(), (l,), (), (dy,), "length along y")


def ctx_midpoints():
    l, m = line("l"), line("m")
    (lx, ly), (mx, my) = middle(l), middle(m)
    d = vec("d", 2)
    value_is(con.Midpoint(), (l,), (), (lx, ly), "midpoint of a line")
    value_is(con.MidpointDirectedDistance(), (l, m), (d,), ((mx - lx) * d[0] + (my - ly) * d[1],),
             "distance from the first to the second midpoint along a direction")
    value_is(con.MidpointXDistance(), (l, m), (), (mx - lx,), "x distance from the first to the second midpoint")
    value_is(con.MidpointYDistance(), (l, m), (), (my - ly,), "y distance from the first to the second midpoint")


def ctx_angle():
    """counter-clockwise from the first to the second line, in the principal range"""
    l, m = line("l"), line("m")
    (ax, ay), (bx, by) = direction(l), direction(m)
    a = con.Angle()((l, m))
    require(a.shape == (1,), "an angle is one number")
    # the principal value is determined by the cosine and the sine
    require_equal(a[0], np.arctan2(ax * by - ay * bx, ax * bx + ay * by), "the angle from the first to the second line")


def ctx_angle_of_special_lines():
    """right angles and straight angles, at any position, length and combination of directions"""
    r, s = sym("r", "+"), sym("s", "+")
    directions = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]
    i = choose("direction of the first line", range(8))
    j = choose("direction of the second line", range(8))
    x, y, u, v = sym("x"), sym("y"), sym("u"), sym("v")
    l = line_between(x, y, x + r * directions[i][0], y + r * directions[i][1])
    m = line_between(u, v, u + s * directions[j][0], v + s * directions[j][1])
    turn = (j - i) % 8
    if turn == 4:
        a = con.Angle()((l, m))[0]
        require_zero(a * a - PI * PI, "opposite lines make a straight angle")
        return
    if turn > 4:
        turn = turn - 8
    require_zero(con.Angle()((l, m))[0] - turn * PI / 4, "the angle from the first to the second line is in the principal range")


def ctx_point_on_line_distance():
    p, l = point("p"), line("l")
    (px, py), (ax, ay), (bx, by) = xy(p), start(l), end(l)
    dx, dy = direction(l)
    n = length(l)
    forward = ((px - ax) * dx + (py - ay) * dy) / n
    backward = -((px - bx) * dx + (py - by) * dy) / n
    value_is(con.PointOnLineDistance(), (p, l), (False,), (forward,), "distance along a line from its start")
    value_is(con.PointOnLineDistance(), (p, l), (True,), (backward,), "distance along a line from its end")
    value_is(con.RelativePointOnLineDistance(), (p, l), (False,), (forward / n,), "fraction of a line from its start")
    value_is(con.RelativePointOnLineDistance(), (p, l), (True,), (backward / n,), "fraction of a line from its end")


def ctx_relative_distance_of_end_points():
    l = line("l")
    for reverse in (False, True):
        s = con.RelativePointOnLineDistance()((l["Point0"], l), reverse)
        e = con.RelativePointOnLineDistance()((l["Point1"], l), reverse)
        require_zero(s - (1 if reverse else 0), "fraction at the start of a line")
        require_zero(e - (0 if reverse else 1), "fraction at the end of a line")


def ctx_point_to_line_distance():
    p, l = point("p"), line("l")
    (px, py), (ax, ay) = xy(p), start(l)
    dx, dy = direction(l)
    n = length(l)
    left = ((px - ax) * (-dy) + (py - ay) * dx) / n
    value_is(con.PointToLineDistance(), (p, l), (False,), (left,), "distance to a line, positive on its left")
    value_is(con.PointToLineDistance(), (p, l), (True,), (-left,), "distance to a line, positive on its right")


def ctx_quadrilateral_dimensions():
    q = quad("q")
    (ax, ay), (bx, by), (cx, cy) = start(q["Line0"]), end(q["Line0"]), end(q["Line1"])
    value_is(con.Width(), (q,), (), (bx - ax,), "width along the bottom")
    value_is(con.Height(), (q,), (), (cy - by,), "height along the right side")
    value_is(con.RectangleDim(dim="width"), (q,), (), (bx - ax,), "width along the bottom")
    value_is(con.RectangleDim(dim="height"), (q,), (), (cy - by,), "height along the right side")
    value_is(con.AspectRatio(), (q,), (), (length(q["Line0"]) / length(q["Line1"]),), "bottom width over side height")


def ctx_rectangle_dimensions():
    w, h = sym("w", "+"), sym("h", "+")
    q = box_at(sym("x"), sym("y"), w, h)
    require_zero(con.Width()((q,)) - w, "width of a rectangle")
    require_zero(con.Height()((q,)) - h, "height of a rectangle")
    require_zero(con.AspectRatio()((q,)) - w / h, "aspect ratio of a rectangle")


def ctx_unknown_options_are_rejected():
    bad = choose("option", ["", "Width", "diagonal", "depth"])
    require_raises(ValueError, lambda: con.RectangleDim(dim=bad), "an unknown dimension")


def ctx_constants():
    v = sym("v")
    value_is(con.Scalar(), (), (v,), (v,), "a scalar construction returns its parameter")


def ctx_same_primitive_in_both_places():
    l = line("l")
    require_zero(con.Angle()((l, l)), "angle of a line with itself")
    require_zero(con.MidpointXDistance()((l, l)), "distance of a line from itself")
    p = point("p")
    require_zero(con.XDistance()((p, p)), "distance of a point from itself")


def ctx_swapping_the_arguments():
    p, q, l, m = point("p"), point("q"), line("l"), line("m")
    for c in (con.XDistance(), con.YDistance()):
        require_zero(c((p, q)) + c((q, p)), "distances change sign when the points are swapped")
    for c in (con.MidpointXDistance(), con.MidpointYDistance()):
        require_zero(c((l, m)) + c((m, l)), "distances change sign when the lines are swapped")


def ctx_translation_and_reflection():
    """measurements do not depend on where the primitives are"""
    u, v = sym("u"), sym("v")

    def shifted(l):
        (ax, ay), (bx, by) = start(l), end(l)
        return line_between(ax + u, ay + v, bx + u, by + v)
    l, m = line("l"), line("m")
    for c in (con.Length(), con.LineVector(), con.UnitLineVector(), con.XLength(), con.YLength()):
        require_equal(c((l,)), c((shifted(l),)), "translating a line")
    for c in (con.Angle(), con.MidpointXDistance(), con.MidpointYDistance()):
        require_equal(c((l, m)), c((shifted(l), shifted(m))), "translating two lines")


def ctx_measuring_parts_of_one_primitive():
    check_shared_inputs({k: v for k, v in measurements().items() if "Margin" not in k}, "the measurement")
