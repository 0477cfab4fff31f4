"""Grids of rectangles, listed row by row from the top left one"""
from common import *
from catalog import *


def shapes_of_grids():
    n = bound(4, 5)
    return [(r, c) for r in range(1, n + 1) for c in range(1, n + 1) if r * c <= bound(12, 20)] + [(1, 6), (6, 1), (1, 11), (11, 1), (2, 6), (6, 2)]


def grid(shape, cw, rh, cm, rm):
    """[row][column] of (x, y, w, h), rows from top to bottom, columns from left to right;
    sizes are relative to the first column and row, margins absolute"""
    rows, cols = shape
    w0, h0 = sym("w0", "+"), sym("h0", "+")
    x, y = sym("x"), sym("y")
    ws = [w0] + [w0 * c for c in cw]
    hs = [h0] + [h0 * r for r in rh]
    out = []
    for i in range(rows):
        y = y - hs[i]
        row = []
        xj = x
        for j in range(cols):
            row.append((xj, y, ws[j], hs[i]))
            xj = xj + ws[j] + (cm[j] if j < cols - 1 else 0)
        out.append(row)
        y = y - (rm[i] if i < rows - 1 else 0)
    return out


def parameters(shape):
    rows, cols = shape
    return ([sym("cw" + str(i), "+") for i in range(cols - 1)], [sym("rh" + str(i), "+") for i in range(rows - 1)],
            [sym("cm" + str(i)) for i in range(cols - 1)], [sym("rm" + str(i)) for i in range(rows - 1)])


def boxes(cells):
    return tuple([box_at(*cell) for row in cells for cell in row])


def ctx_grid_holds():
    shape = choose("rows and columns", shapes_of_grids())
    p = parameters(shape)
    q = boxes(grid(shape, *p))
    kind = choose("parameters", ["lists", "arrays"])
    given = p if kind == "lists" else [np.array(v) for v in p]
    require_zero(cr.Grid(shape=shape)(q, *given), "a grid with the given widths, heights and margins")
    require_zero(cr.RectilinearGrid(shape=shape)(q), "a grid of rectangles is rectilinear")


def ctx_grid_parameters_matter():
    """changing any one parameter is an error"""
    shape = choose("rows and columns", [s for s in shapes_of_grids() if s[0] * s[1] > 1])
    p = parameters(shape)
    q = boxes(grid(shape, *p))
    c = cr.Grid(shape=shape)
    for i in range(4):
        for j in range(len(p[i])):
            wrong = [[v + sym("e", "+") if (i, j) == (k, l) else v for l, v in enumerate(row)] for k, row in enumerate(p)]
            require_nonzero(c(q, *wrong), "another width, height or margin is an error")


def ctx_grid_members_matter():
    """moving or resizing any one rectangle of a grid is an error"""
    shape = choose("rows and columns", [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2)] + ([(3, 3), (3, 4)] if TIER == "thorough" else []))
    rows, cols = shape
    p = parameters(shape)
    cells = grid(shape, *p)
    c = cr.Grid(shape=shape)
    r = cr.RectilinearGrid(shape=shape)
    i = choose("row", range(rows))
    j = choose("column", range(cols))
    for k in range(4):
        cell = list(cells[i][j])
        cell[k] = cell[k] + sym("e", "+")
        q = boxes([[tuple(cell) if (a, b) == (i, j) else cells[a][b] for b in range(cols)] for a in range(rows)])
        aligned_along = cols if k in (1, 3) else rows
        if aligned_along > 1:
            require_nonzero(r(q), "a rectangle out of line makes the grid no grid")
        # the only rectangle of its row (column) may grow if the other cells do not depend on it
        if aligned_along > 1 or (k in (0, 1) and (rows > 1 or cols > 1) and len(p[2 if k == 0 else 3]) > 0):
            require_nonzero(c(q, *p), "a moved or resized rectangle is an error")


def ctx_columns_and_rows_are_independent():
    """a rectilinear grid does not constrain the widths, heights and gaps"""
    shape = choose("rows and columns", [(2, 2), (2, 3), (3, 2), (3, 4), (1, 3), (3, 1)])
    rows, cols = shape
    xs = [(sym("x" + str(j)), sym("w" + str(j))) for j in range(cols)]
    ys = [(sym("y" + str(i)), sym("h" + str(i))) for i in range(rows)]
    q = boxes([[(xs[j][0], ys[i][0], xs[j][1], ys[i][1]) for j in range(cols)] for i in range(rows)])
    require_zero(cr.RectilinearGrid(shape=shape)(q), "any widths, heights and gaps make a rectilinear grid")
    if rows > 1 and cols > 1:
        transposed = boxes([[(xs[j][0], ys[i][0], xs[j][1], ys[i][1]) for i in range(rows)] for j in range(cols)])
        require_nonzero(cr.RectilinearGrid(shape=shape)(transposed), "rectangles listed column by column are no grid")


def ctx_bottom_to_top_is_no_grid():
    shape = choose("rows and columns", [(2, 1), (2, 2), (3, 2)])
    p = parameters(shape)
    cells = grid(shape, *p)
    upside_down = boxes([cells[shape[0] - 1 - i] for i in range(shape[0])])
    require_nonzero(cr.Grid(shape=shape)(upside_down, *p), "rows listed from the bottom")


def ctx_right_to_left_is_no_grid():
    shape = choose("rows and columns", [(1, 2), (2, 2), (2, 3)])
    p = parameters(shape)
    cells = grid(shape, *p)
    mirrored = boxes([[row[shape[1] - 1 - j] for j in range(shape[1])] for row in cells])
    require_nonzero(cr.Grid(shape=shape)(mirrored, *p), "columns listed from the right")


def ctx_numbers_of_rectangles():
    """a grid is about as many rectangles as it has places"""
    shape = choose("rows and columns", shapes_of_grids())
    for c in (cr.Grid(shape=shape), cr.RectilinearGrid(shape=shape)):
        require(len(c.signature.prim_types) == shape[0] * shape[1], "a grid has a rectangle for each place")
        for t in c.signature.prim_types:
            require(t is pr.Quadrilateral, "a grid is made of quadrilaterals")
    require(len(cr.Grid(shape=shape).signature.param_types) == 4, "a grid has four parameters")


def ctx_wrong_numbers_of_parameters_are_rejected():
    shape = choose("rows and columns", [(1, 2), (2, 1), (2, 2), (2, 3)])
    p = parameters(shape)
    q = boxes(grid(shape, *p))
    i = choose("parameter", range(4))
    d = choose("difference", [-1, 1])
    wrong = [list(v) for v in p]
    if d == 1:
        wrong[i] = wrong[i] + [sym("more")]
    elif wrong[i]:
        wrong[i] = wrong[i][:-1]
    else:
        return
    require_raises((TypeError, ValueError, IndexError, AssertionError, RuntimeError),
                   lambda: cr.Grid(shape=shape)(q, *wrong), "a wrong number of widths, heights or margins")


def ctx_positions_row_by_row():
    """positions in arrays of any number of axes, the last axis first"""
    shape = choose("shape", [(4,), (3, 2), (2, 3), (2, 3, 4), (3, 1, 2), (2, 2, 2, 3)])
    n = 0
    places = [()]
    for m in shape:
        places = [p + (i,) for p in places for i in range(m)]
    for p in places:
        require_equal(cr.idx_1d(p, shape), n, "position in an array")
        n = n + 1
