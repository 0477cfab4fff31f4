"""Relation constraints: the error vanishes on the solutions, and does not vanish off the solutions."""
from common import *
from catalog import *


def holds(c, prims, params, what):
    require_zero(c(prims, *params), what)


def violated(c, prims, params, what):
    require_nonzero(c(prims, *params), what)


def line_along(x, y, dx, dy):
    return line_between(x, y, x + dx, y + dy)


def ctx_coincident():
    c = cr.Coincident()
    x, y, e, f = sym("x"), sym("y"), sym("e"), sym("f")
    holds(c, (point_at(x, y), point_at(x, y)), (), "points at the same place are coincident")
    for du, dv in ((e, 0), (0, e), (e, f), (e, e), (e, -e)):
        violated(c, (point_at(x, y), point_at(x + du, y + dv)), (), "points at different places are not coincident")


def ctx_vertical_and_horizontal():
    x, y, a, b = sym("x"), sym("y"), sym("a"), sym("b")
    holds(cr.Vertical(), (line_along(x, y, 0, b),), (), "a line along y is vertical")
    holds(cr.Horizontal(), (line_along(x, y, a, 0),), (), "a line along x is horizontal")
    for dx, dy in ((a, b), (a, a), (a, -a)):
        violated(cr.Vertical(), (line_along(x, y, dx, dy),), (), "an inclined line is not vertical")
        violated(cr.Horizontal(), (line_along(x, y, dx, dy),), (), "an inclined line is not horizontal")
    violated(cr.Vertical(), (line_along(x, y, a, 0),), (), "a horizontal line is not vertical")
    violated(cr.Horizontal(), (line_along(x, y, 0, b),), (), "a vertical line is not horizontal")


def two_lines(d, e):
    return line_along(sym("x"), sym("y"), d[0], d[1]), line_along(sym("u"), sym("v"), e[0], e[1])


def ctx_orthogonal_and_parallel():
    a, b, k, m = sym("a"), sym("b"), sym("k"), sym("m")
    holds(cr.Orthogonal(), two_lines((a, b), (-k * b, k * a)), (), "orthogonal lines")
    holds(cr.Parallel(), two_lines((a, b), (k * a, k * b)), (), "parallel lines")
    for e in ((k * a, k * b), (k, m), (a, 0), (0, b), (b, a), (a, -b)):
        violated(cr.Orthogonal(), two_lines((a, b), e), (), "lines which are not orthogonal")
    for e in ((-k * b, k * a), (k, m), (a, 0), (0, b), (b, a), (a, -b)):
        violated(cr.Parallel(), two_lines((a, b), e), (), "lines which are not parallel")


def ctx_collinear():
    c = cr.Collinear()
    x, y, a, b, s, t, e = sym("x"), sym("y"), sym("a"), sym("b"), sym("s"), sym("t"), sym("e")
    l = line_along(x, y, a, b)
    holds(c, (l, line_between(x + s * a, y + s * b, x + t * a, y + t * b)), (), "lines on one infinite line are collinear")
    holds(c, (l, line_between(x, y, x + a, y + b)), (), "a line and its copy are collinear")
    holds(c, (l, line_between(x + a, y + b, x, y)), (), "a line and its reverse are collinear")
    violated(c, (l, line_between(x + s * a - e * b, y + s * b + e * a, x + t * a - e * b, y + t * b + e * a)), (),
             "parallel lines with an offset are not collinear")
    for dx, dy in ((e, 0), (0, e)):
        violated(c, (l, line_along(x + dx, y + dy, a, b)), (), "parallel lines with an offset are not collinear")
    for i in range(2):
        px, py = (x, y) if i == 0 else (x + s * a, y + s * b)
        violated(c, (l, line_along(px, py, sym("g"), sym("h"))), (), "a line which only starts on the other one is not collinear")
        violated(c, (l, line_along(px, py, -b, a)), (), "a line which only starts on the other one is not collinear")
        violated(c, (l, line_between(sym("g"), sym("h"), px, py)), (), "a line which only ends on the other one is not collinear")


def ctx_coincident_lines():
    c = cr.CoincidentLines()
    x, y, u, v, e = sym("x"), sym("y"), sym("u"), sym("v"), sym("e")
    l = line_between(x, y, u, v)
    holds(c, (l, line_between(x, y, u, v)), (False,), "lines with the same ends are coincident")
    holds(c, (l, line_between(u, v, x, y)), (True,), "lines with exchanged ends are coincident in reverse")
    violated(c, (l, line_between(u, v, x, y)), (False,), "lines with exchanged ends are not coincident")
    violated(c, (l, line_between(x, y, u, v)), (True,), "lines with the same ends are not coincident in reverse")
    i = choose("moved coordinate", range(4))
    d = [0, 0, 0, 0]
    d[i] = e
    violated(c, (l, line_between(x + d[0], y + d[1], u + d[2], v + d[3])), (False,), "lines with a different end are not coincident")
    violated(c, (l, line_between(u + d[2], v + d[3], x + d[0], y + d[1])), (True,), "lines with a different end are not coincident")


def ctx_relative_length():
    c = cr.RelativeLength()
    k, a, b = sym("k", "+"), sym("a"), sym("b")
    holds(c, two_lines((k * a, k * b), (a, b)), (k,), "the first line is a multiple of the second one")
    holds(c, two_lines((-k * b, k * a), (a, b)), (k,), "the first line is a multiple of the second one")
    holds(c, two_lines((-k * a, -k * b), (a, b)), (k,), "the first line is a multiple of the second one")
    violated(c, two_lines((a, b), (k * a, k * b)), (k,), "the second line is a multiple of the first one")
    violated(c, two_lines((k * a, k * b), (a, b)), (k + sym("e", "+"),), "another multiple")
    violated(c, two_lines((k * a, b), (a, b)), (k,), "only one component is a multiple")
    violated(c, two_lines((a, k * b), (a, b)), (k,), "only one component is a multiple")
    violated(c, two_lines((a, b), (a, b)), (k,), "equally long lines")


def ctx_relative_length_is_linear_in_length():
    l, m = line("l"), line("m")
    k = sym("k")
    require_equal(cr.RelativeLength()((l, m), k), np.array([length(l) - k * length(m)]), "error of a relative length")


def ctx_box():
    c = cr.Box()
    x, y, w, h, e = sym("x"), sym("y"), sym("w"), sym("h"), sym("e")
    holds(c, (box_at(x, y, w, h),), (), "an axis-aligned rectangle is a box")
    i = choose("moved vertex", range(4))
    j = choose("moved coordinate", range(2))
    q = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
    q[i][j] = q[i][j] + e
    violated(c, (pr.Quadrilateral(None, [point_at(p[0], p[1]) for p in q]),), (), "moving one vertex makes it no box")
    # a rectangle in another orientation: the first side is vertical
    r = [[x, y], [x, y + h], [x + w, y + h], [x + w, y]]
    violated(c, (pr.Quadrilateral(None, [point_at(p[0], p[1]) for p in r]),), (), "the first side of a box is horizontal")
    # a rotated rectangle
    a, b = sym("a"), sym("b")
    r = [[x, y], [x + a, y + b], [x + a - b, y + b + a], [x - b, y + a]]
    violated(c, (pr.Quadrilateral(None, [point_at(p[0], p[1]) for p in r]),), (), "a rotated square is no box")


def rows_and_columns():
    return (("row", cr.Align(row=True), cr.AlignRow()), ("column", cr.Align(row=False), cr.AlignColumn()))


def ctx_align():
    x, y, w, h = sym("x"), sym("y"), sym("w"), sym("h")
    u, v, s, t = sym("u"), sym("v"), sym("s"), sym("t")
    q = box_at(x, y, w, h)
    for c in (cr.Align(row=True), cr.AlignRow(), cr.Align()):
        holds(c, (q, box_at(u, y, s, h)), (), "boxes with the same bottom and top make a row")
        violated(c, (q, box_at(u, v, s, h)), (), "a shifted box is not in the row")
        violated(c, (q, box_at(u, y, s, t)), (), "a box of another height is not in the row")
        violated(c, (q, box_at(u, v, s, h + y - v)), (), "a box with another bottom is not in the row")
        violated(c, (q, box_at(x, v, w, t)), (), "a box in the same column is not in the row")
    for c in (cr.Align(row=False), cr.AlignColumn()):
        holds(c, (q, box_at(x, v, w, t)), (), "boxes with the same left and right side make a column")
        violated(c, (q, box_at(u, v, w, t)), (), "a shifted box is not in the column")
        violated(c, (q, box_at(x, v, s, t)), (), "a box of another width is not in the column")
        violated(c, (q, box_at(u, v, w + x - u, t)), (), "a box with another left side is not in the column")
        violated(c, (q, box_at(u, y, s, h)), (), "a box in the same row is not in the column")


def ctx_align_other_quadrilaterals():
    """the sides of quadrilaterals in general position, extended to infinite lines"""
    x, y, a, b, g, i, j, k = sym("x"), sym("y"), sym("a"), sym("b"), sym("g"), sym("i"), sym("j"), sym("k")
    e, f = sym("e"), sym("f")
    # bottom vertices on a line through (x, y), top vertices on a line through (e, f)

    def make(i, j, k, m, cd):
        bl, br = (x + i * a, y + i * b), (x + j * a, y + j * b)
        tr, tl = (e + k * cd[0], f + k * cd[1]), (e + m * cd[0], f + m * cd[1])
        return bl, br, tr, tl

    def quad_of(ps):
        return pr.Quadrilateral(None, [point_at(p[0], p[1]) for p in ps])
    cd = (sym("c"), sym("d"))
    p = make(0, 1, 1, 0, cd)
    q = make(sym("q0"), sym("q1"), sym("q2"), sym("q3"), cd)
    holds(cr.AlignRow(), (quad_of(p), quad_of(q)), (), "sides on common lines make a row")
    n = choose("moved vertex", range(4))
    moved = [list(r) for r in q]
    moved[n][choose("coordinate", range(2))] = sym("z")
    violated(cr.AlignRow(), (quad_of(p), quad_of(moved)), (), "a vertex off the common line breaks the row")
    # the same turned into columns: left is the old bottom, right the old top
    pc = (p[1], p[2], p[3], p[0])
    qc = (q[1], q[2], q[3], q[0])
    holds(cr.AlignColumn(), (quad_of(pc), quad_of(qc)), (), "sides on common lines make a column")
    mc = (moved[1], moved[2], moved[3], moved[0])
    violated(cr.AlignColumn(), (quad_of(pc), quad_of(mc)), (), "a vertex off the common line breaks the column")


def ctx_relations_do_not_depend_on_position():
    """translating all primitives leaves the error as it is"""
    name, c, params = choose_entry("constraint", {
        k: v for k, v in relations().items() if "Axis" not in k and "Grid" not in k and "Array" not in k})
    u, v = sym("du"), sym("dv")

    def shift(q):
        if isinstance(q, pr.Point):
            return pr.Point((q.value[0] + u, q.value[1] + v))
        if isinstance(q, pr.Line):
            return pr.Line(prims=(shift(q["Point0"]), shift(q["Point1"])))
        return pr.Quadrilateral(None, [shift(q["Line" + str(i)]["Point0"]) for i in range(4)])
    prims = prims_for(c)
    require_equal(c(prims, *params), c(tuple([shift(p) for p in prims]), *params), name + ": translating the primitives")


def ctx_relations_between_parts_of_one_primitive():
    check_shared_inputs({k: v for k, v in relations().items() if "Margin" not in k and "Outward" not in k and "Grid" not in k}, "the error")


def ctx_relation_of_a_primitive_with_itself():
    """a line compared with itself is as long, parallel, collinear and coincident, but neither reversed nor orthogonal to itself"""
    l = line("l")
    k = sym("k", "+")
    for c in (cr.Parallel(), cr.Collinear()):
        holds(c, (l, l), (), "a line and itself")
        back = pr.Line(prims=(l["Point1"], l["Point0"]))
        holds(c, (l, back), (), "a line and its reverse")
    holds(cr.CoincidentLines(), (l, l), (False,), "a line is coincident with itself")
    violated(cr.CoincidentLines(), (l, l), (True,), "a line is not coincident with its reverse")
    violated(cr.Orthogonal(), (l, l), (), "a line is not orthogonal to itself")
    holds(cr.RelativeLength(), (l, l), (1.0,), "a line is as long as itself")
    violated(cr.RelativeLength(), (l, l), (1.0 + k,), "a line is not longer than itself")
    holds(cr.Coincident(), (l["Point0"], l["Point0"]), (), "a point is coincident with itself")
    q = quad("q")
    holds(cr.AlignRow(), (q, q), (), "a quadrilateral and itself")
    holds(cr.AlignColumn(), (q, q), (), "a quadrilateral and itself")
