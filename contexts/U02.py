"""Labels of lines are in their middle, along them"""
from drawing import *


def along(theta, l, what):
    """theta is the direction of a line, in degrees"""
    dx, dy = direction(l)
    n = np.sqrt(dx * dx + dy * dy)
    require_equal(np.cos(theta * PI / 180), dx / n, what + ": cosine")
    require_equal(np.sin(theta * PI / 180), dy / n, what + ": sine")


def ctx_any_direction():
    """lines in general position, in each quadrant"""
    x, y, a, b = sym("x"), sym("y"), sym("a", "+"), sym("b", "+")
    sx, sy = choose("x direction", [1, -1]), choose("y direction", [1, -1])
    l = line_between(x, y, x + sx * a, y + sy * b)
    along(ui.rotation_from_line(l), l, "direction of a line")


def ctx_along_the_axes():
    x, y, a = sym("x"), sym("y"), sym("a", "+")
    dx, dy = choose("direction", [(1, 0), (0, 1), (-1, 0), (0, -1)])
    l = line_between(x, y, x + a * dx, y + a * dy)
    along(ui.rotation_from_line(l), l, "direction of a line along an axis")


def ctx_opposite_lines():
    """the direction goes from the first to the second point"""
    a, b = sym("a", "+"), sym("b", "+")
    p, q = point_at(0, 0), point_at(a, b)
    u = ui.rotation_from_line(pr.Line(prims=(p, q)))
    v = ui.rotation_from_line(pr.Line(prims=(q, p)))
    require_equal(np.cos((u - v) * PI / 180), -1, "directions of a line and its reverse")


def ctx_label_of_a_line():
    x, y, a, b = sym("x"), sym("y"), sym("a", "+"), sym("b", "+")
    sx, sy = choose("x direction", [1, -1, 0]), choose("y direction", [1, -1, 0])
    assume(sx != 0 or sy != 0)
    l = line_between(x, y, x + sx * a, y + sy * b)
    ax = canvas()
    ui.plot_line(ax, l, "label")
    require(len(ax.texts) == 1 and ax.texts[0][0] == "label", "one label")
    require_equal(ax.texts[0][1], middle(l), "place of a label")
    along(ax.texts[0][2]["rotation"], l, "rotation of a label")
