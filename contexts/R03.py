"""Sides, margins and faces of rectangles"""
from common import *
from catalog import *


def two_boxes():
    return (box_at(sym("x"), sym("y"), sym("w", "+"), sym("h", "+")),
            box_at(sym("u"), sym("v"), sym("s", "+"), sym("t", "+")))


def edges(q):
    """left, right, bottom, top of a rectangle with positive sides"""
    (x0, y0), (x1, y1) = start(q["Line0"]), end(q["Line1"])
    return x0, x1, y0, y1


def outer(side, q, r):
    """the gap between the given side of the first and the opposite side of the second rectangle"""
    l0, r0, b0, t0 = edges(q)
    l1, r1, b1, t1 = edges(r)
    return {"left": l0 - r1, "right": l1 - r0, "bottom": b0 - t1, "top": b1 - t0}[side]


def inner(side, q, r):
    """how far the first rectangle is inside of the same side of the second one"""
    l0, r0, b0, t0 = edges(q)
    l1, r1, b1, t1 = edges(r)
    return {"left": l0 - l1, "right": r1 - r0, "bottom": b0 - b1, "top": t1 - t0}[side]


def ctx_outer_margin():
    q, r = two_boxes()
    side = choose("side", SIDES)
    for c in (con.OuterMargin(side=side), con.Margin(outer=True, side=side), con.Margin(side=side)):
        require_equal(c((q, r)), np.array([outer(side, q, r)]), "outer margin on the " + side + " side")
    m = sym("m")
    require_equal(cr.OuterMargin(side=side)((q, r), m), np.array([outer(side, q, r) - m]), "outer margin error on the " + side)


def ctx_inner_margin():
    q, r = two_boxes()
    side = choose("side", SIDES)
    for c in (con.InnerMargin(side=side), con.Margin(outer=False, side=side)):
        require_equal(c((q, r)), np.array([inner(side, q, r)]), "inner margin on the " + side + " side")
    m = sym("m")
    require_equal(cr.InnerMargin(side=side)((q, r), m), np.array([inner(side, q, r) - m]), "inner margin error on the " + side)


def ctx_opposite_sides():
    """exchanging the rectangles exchanges the sides"""
    q, r = two_boxes()
    opposite = {"left": "right", "right": "left", "bottom": "top", "top": "bottom"}
    side = choose("side", SIDES)
    require(con.opposite_side(side) == opposite[side], "the opposite of a side")
    require_equal(con.OuterMargin(side=side)((q, r)), con.OuterMargin(side=opposite[side])((r, q)),
                  "the outer margin is the same seen from the other rectangle")
    require_zero(con.InnerMargin(side=side)((q, r)) + con.InnerMargin(side=side)((r, q)),
                 "the inner margin changes sign seen from the other rectangle")


def ctx_signs():
    """margins of separate and of nested rectangles are positive"""
    x, y = sym("x"), sym("y")
    w, h, s, t = sym("w", "+"), sym("h", "+"), sym("s", "+"), sym("t", "+")
    m = sym("m", "+")
    side = choose("side", SIDES)
    q = box_at(x, y, w, h)
    apart = {"left": (x - m - s, y), "right": (x + w + m, y), "bottom": (x, y - m - t), "top": (x, y + h + m)}[side]
    require_equal(con.OuterMargin(side=side)((q, box_at(apart[0], apart[1], s, t))), np.array([m]), "margin between separate rectangles")
    l, r, b, u = sym("l", "+"), sym("r", "+"), sym("b", "+"), sym("u", "+")
    around = box_at(x - l, y - b, w + l + r, h + b + u)
    require_equal(con.InnerMargin(side=side)((q, around)), np.array([{"left": l, "right": r, "bottom": b, "top": u}[side]]),
                  "margin of a nested rectangle")


def ctx_unknown_sides_are_rejected():
    bad = choose("side", ["", "Left", "middle", "up", None])
    for make in (lambda: con.OuterMargin(side=bad), lambda: con.InnerMargin(side=bad), lambda: con.Margin(side=bad),
                 lambda: cr.OuterMargin(side=bad), lambda: cr.InnerMargin(side=bad), lambda: cr.CoincidentOutwardFaces(side=bad),
                 lambda: con.opposite_side(bad)):
        require_raises((ValueError, KeyError), make, "an unknown side")


def ctx_default_side():
    q, r = two_boxes()
    require_equal(con.OuterMargin()((q, r)), np.array([outer("left", q, r)]), "the default side is left")
    require_equal(con.InnerMargin()((q, r)), np.array([inner("left", q, r)]), "the default side is left")


def neighbour(side, x, y, w, h, s, t):
    """a box sharing the given side of the box (x, y, w, h)"""
    if side == "left":
        return (x - s, y, s, h)
    if side == "right":
        return (x + w, y, s, h)
    if side == "bottom":
        return (x, y - t, w, t)
    return (x, y + h, w, t)


def ctx_outward_faces():
    x, y, w, h, s, t, e = sym("x"), sym("y"), sym("w", "+"), sym("h", "+"), sym("s", "+"), sym("t", "+"), sym("e")
    side = choose("side", SIDES)
    c = cr.CoincidentOutwardFaces(side=side)
    q = box_at(x, y, w, h)
    n = neighbour(side, x, y, w, h, s, t)
    require_zero(c((q, box_at(*n))), "rectangles with a common " + side + " side")
    for i in range(4):
        moved = list(n)
        moved[i] = moved[i] + e
        if i >= 2 and (side, i) in (("right", 2), ("top", 3)):
            # extent away from the common side is free
            require_zero(c((q, box_at(*moved))), "the extent away from the common side is free")
        else:
            require_nonzero(c((q, box_at(*moved))), "rectangles which do not share the side")
    for other in SIDES:
        if other != side:
            require_nonzero(c((q, box_at(*neighbour(other, x, y, w, h, s, t)))), "a neighbour on another side")


def row_of_boxes(n, side, gaps):
    """boxes one after the other towards the given side, with the given gaps and arbitrary other extents"""
    out = []
    x, y = sym("x"), sym("y")
    for i in range(n):
        w, h, z = sym("w" + str(i), "+"), sym("h" + str(i), "+"), sym("z" + str(i))
        if side == "right":
            out.append(box_at(x, z, w, h))
            x = x + w + (gaps[i] if i < n - 1 else 0)
        elif side == "left":
            out.append(box_at(x - w, z, w, h))
            x = x - w - (gaps[i] if i < n - 1 else 0)
        elif side == "top":
            out.append(box_at(z, y, w, h))
            y = y + h + (gaps[i] if i < n - 1 else 0)
        else:
            out.append(box_at(z, y - h, w, h))
            y = y - h - (gaps[i] if i < n - 1 else 0)
    return tuple(out)


def ctx_margin_array():
    side = choose("side", SIDES)
    n = choose("number of rectangles", sizes(1, bound(5, 7), 40))
    c = cr.OuterMarginArray(shape=choose("shape", [(n,), n]), side=side)
    gaps = [sym("m" + str(i)) for i in range(n - 1)]
    boxes = row_of_boxes(n, side, gaps)
    require(len(c.signature.param_types) == n - 1, "one margin between each two rectangles")
    v = c(boxes, *gaps)
    require(v.size == n - 1, "one error for each margin")
    require_zero(v, "rectangles with the given margins")
    for i in range(n - 1):
        wrong = [g + sym("e") if i == j else g for j, g in enumerate(gaps)]
        require_nonzero(c(boxes, *wrong), "another margin")
        w = c(boxes, *wrong)
        require_equal(w * w, np.array([sym("e") * sym("e") if i == j else 0 for j in range(n - 1)]), "each margin has its own error")


def ctx_shared_rectangles():
    check_shared_inputs({k: v for k, v in entries().items() if "Margin" in k or "Outward" in k}, "the margin")
