"""The constructions and constraints of the library with all their configurations.

name -> (make, params): `make()` returns the construction, `params()` arbitrary valid parameters.
"""
from common import *
from mpllayout import containers as cn
from mpllayout import constructions as con
from mpllayout import constraints as cr

SIDES = ("bottom", "top", "left", "right")


def none():
    return ()


def number():
    return (sym("value"),)


def pair():
    return (vec("value", 2),)


def along():
    return (vec("dir", 2),)


def along_and_number():
    return (vec("dir", 2), sym("value"))


def flag():
    return (choose("reverse", [False, True]),)


def flag_and_number():
    return (choose("reverse", [False, True]), sym("value"))


def no_axis():
    return (None,)


def measurements():
    out = {
        "Scalar": (lambda: con.Scalar(), number),
        "Coordinate": (lambda: con.Coordinate(), none),
        "DirectedDistance": (lambda: con.DirectedDistance(), along),
        "XDistance": (lambda: con.XDistance(), none),
        "YDistance": (lambda: con.YDistance(), none),
        "LineVector": (lambda: con.LineVector(), none),
        "UnitLineVector": (lambda: con.UnitLineVector(), none),
        "Length": (lambda: con.Length(), none),
        "DirectedLength": (lambda: con.DirectedLength(), along),
        "XLength": (lambda: con.XLength(), none),
        "YLength": (lambda: con.YLength(), none),
        "Midpoint": (lambda: con.Midpoint(), none),
        "MidpointDirectedDistance": (lambda: con.MidpointDirectedDistance(), along),
        "MidpointXDistance": (lambda: con.MidpointXDistance(), none),
        "MidpointYDistance": (lambda: con.MidpointYDistance(), none),
        "Angle": (lambda: con.Angle(), none),
        "PointOnLineDistance": (lambda: con.PointOnLineDistance(), flag),
        "PointToLineDistance": (lambda: con.PointToLineDistance(), flag),
        "RelativePointOnLineDistance": (lambda: con.RelativePointOnLineDistance(), flag),
        "RectangleDim width": (lambda: con.RectangleDim(dim="width"), none),
        "RectangleDim height": (lambda: con.RectangleDim(dim="height"), none),
        "Width": (lambda: con.Width(), none),
        "Height": (lambda: con.Height(), none),
        "AspectRatio": (lambda: con.AspectRatio(), none),
    }
    for side in SIDES:
        out["Margin outer " + side] = (lambda side=side: con.Margin(outer=True, side=side), none)
        out["Margin inner " + side] = (lambda side=side: con.Margin(outer=False, side=side), none)
        out["OuterMargin " + side] = (lambda side=side: con.OuterMargin(side=side), none)
        out["InnerMargin " + side] = (lambda side=side: con.InnerMargin(side=side), none)
    return out


def value_constraints():
    """constraint -> the measurement it is about"""
    out = {
        "Fix": (lambda: cr.Fix(), pair),
        "DirectedDistance": (lambda: cr.DirectedDistance(), along_and_number),
        "XDistance": (lambda: cr.XDistance(), number),
        "YDistance": (lambda: cr.YDistance(), number),
        "Length": (lambda: cr.Length(), number),
        "DirectedLength": (lambda: cr.DirectedLength(), along_and_number),
        "XLength": (lambda: cr.XLength(), number),
        "YLength": (lambda: cr.YLength(), number),
        "MidpointXDistance": (lambda: cr.MidpointXDistance(), number),
        "MidpointYDistance": (lambda: cr.MidpointYDistance(), number),
        "Angle": (lambda: cr.Angle(), number),
        "PointOnLineDistance": (lambda: cr.PointOnLineDistance(), flag_and_number),
        "PointToLineDistance": (lambda: cr.PointToLineDistance(), flag_and_number),
        "RelativePointOnLineDistance": (lambda: cr.RelativePointOnLineDistance(), flag_and_number),
        "Width": (lambda: cr.Width(), number),
        "Height": (lambda: cr.Height(), number),
        "AspectRatio": (lambda: cr.AspectRatio(), number),
    }
    for side in SIDES:
        out["OuterMargin " + side] = (lambda side=side: cr.OuterMargin(side=side), number)
        out["InnerMargin " + side] = (lambda side=side: cr.InnerMargin(side=side), number)
    return out


def relations():
    out = {
        "Coincident": (lambda: cr.Coincident(), none),
        "Vertical": (lambda: cr.Vertical(), none),
        "Horizontal": (lambda: cr.Horizontal(), none),
        "RelativeLength": (lambda: cr.RelativeLength(), number),
        "Orthogonal": (lambda: cr.Orthogonal(), none),
        "Parallel": (lambda: cr.Parallel(), none),
        "Collinear": (lambda: cr.Collinear(), none),
        "CoincidentLines": (lambda: cr.CoincidentLines(), flag),
        "Box": (lambda: cr.Box(), none),
        "AxisThickness x": (lambda: cr.AxisThickness(axis="x"), no_axis),
        "AxisThickness y": (lambda: cr.AxisThickness(axis="y"), no_axis),
        "XAxisThickness": (lambda: cr.XAxisThickness(), no_axis),
        "YAxisThickness": (lambda: cr.YAxisThickness(), no_axis),
        "Align row": (lambda: cr.Align(row=True), none),
        "Align column": (lambda: cr.Align(row=False), none),
        "AlignRow": (lambda: cr.AlignRow(), none),
        "AlignColumn": (lambda: cr.AlignColumn(), none),
        "PositionXAxisLabel": (lambda: cr.PositionXAxisLabel(), number),
        "PositionYAxisLabel": (lambda: cr.PositionYAxisLabel(), number),
        "PositionXAxisLabel twin": (lambda: cr.PositionXAxisLabel(twin=True), number),
        "PositionYAxisLabel twin": (lambda: cr.PositionYAxisLabel(twin=True), number),
    }
    for side in SIDES:
        out["CoincidentOutwardFaces " + side] = (lambda side=side: cr.CoincidentOutwardFaces(side=side), none)
        for n in (2, 3, 4):
            out["OuterMarginArray " + side + " " + str(n)] = (
                lambda side=side, n=n: cr.OuterMarginArray(shape=(n,), side=side),
                lambda n=n: tuple([sym("m" + str(i)) for i in range(n - 1)]))
        for twin in (False, True):
            axis = "x" if side in ("bottom", "top") else "y"
            out["PositionAxis " + side + " " + str(twin)] = (
                lambda axis=axis, side=side, twin=twin: cr.PositionAxis(axis=axis, side=side, twin=twin), none)
    for twin in (False, True):
        for side in ("bottom", "top"):
            out["PositionXAxis " + side + " " + str(twin)] = (
                lambda side=side, twin=twin: cr.PositionXAxis(side=side, twin=twin), none)
        for side in ("left", "right"):
            out["PositionYAxis " + side + " " + str(twin)] = (
                lambda side=side, twin=twin: cr.PositionYAxis(side=side, twin=twin), none)
    for shape in GRIDS:
        out["RectilinearGrid " + str(shape)] = (lambda shape=shape: cr.RectilinearGrid(shape=shape), none)
        out["Grid " + str(shape)] = (lambda shape=shape: cr.Grid(shape=shape), lambda shape=shape: grid_params(shape))
    return out


GRIDS = ((1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 4), (4, 3))


def grid_params(shape):
    rows, cols = shape
    return (vec("cw", cols - 1), vec("rh", rows - 1), vec("cm", cols - 1), vec("rm", rows - 1))


def entries():
    out = {}
    for prefix, table in (("con.", measurements()), ("cr.", value_constraints()), ("cr.", relations())):
        for k in table:
            out[prefix + k] = table[k]
    return out


def choose_entry(label="construction", table=None):
    table = entries() if table is None else table
    name = choose(label, sorted(table.keys()))
    make, params = table[name]
    return name, make(), params()


def prims_for(c, prefix="g"):
    return tuple([primitive_of(t, prefix + str(i)) for i, t in enumerate(c.signature.prim_types)])


def resolve(prims, k):
    """the primitive a key 'arg{n}/...' of a root call refers to"""
    head, _, tail = k.partition("/")
    p = prims[int(head[3:])]
    return p[tail] if tail else p


def nodes_with_inputs(c, prims, params):
    """[(node, its primitives, its parameters)] in pre-order, by the routing trees of the root construction"""
    keys = c.root_prim_keys(tuple(["arg" + str(i) for i in range(len(prims))]))
    values = c.root_params(params)
    out = []
    for (p, n), (q, k), (r, v) in zip(walk(c), walk(keys), walk(values)):
        out.append((n, tuple([resolve(prims, x) for x in k.value]), v.value))
    return out


def total_size(c):
    return sum([n.signature.value_size for _, n in walk(c)])


# ---- arbitrary constructions: uninterpreted functions with chosen routing

def coords(prims):
    out = []
    for p in prims:
        for _, n in walk(p):
            out = out + [n.value[i] for i in range(n.value.size)]
    return out


def flat_numbers(params):
    out = []
    for p in params:
        out = out + ([p[i] for i in range(p.size)] if isinstance(p, np.ndarray) and p.shape != () else [p])
    return out


def unknown_values(name, size, prims, params):
    return [uf(name + "_" + str(i), *(coords(prims) + flat_numbers(params))) for i in range(size)]


def unknown(name, size, prim_types, n_params=0, children=(), child_keys=(), prim_keys=(), child_params=None):
    """a construction about which nothing is known but its signature and routing"""
    class Unknown(con.ConstructionNode):
        label = name

        def __init__(self):
            value = con.ConstructionValue(
                tuple(prim_keys),
                child_params if child_params is not None else (lambda params: tuple([() for _ in children])),
                con.ConstructionSignature(tuple(prim_types), n_params * (float,), size))
            super().__init__(value, dict(zip(child_keys, children)))

        @classmethod
        def assem(cls, prims, *params):
            return np.array(unknown_values(name, size, prims, params))
    return Unknown()


# ---- one primitive, or one point, in several of the inputs

def fresh(p):
    """a primitive with the coordinates of `p` that has all its points to itself"""
    if isinstance(p, pr.Point):
        return pr.Point((p.value[0], p.value[1]))
    if isinstance(p, pr.Line):
        return pr.Line(prims=(fresh(p["Point0"]), fresh(p["Point1"])))
    return pr.Quadrilateral(None, [fresh(p["Line" + str(i)]["Point0"]) for i in range(4)])


def shared_inputs(c):
    """inputs of `c` in which a later one shares points with the first one of its kind (none if there is no such pair)"""
    prims = list(prims_for(c))
    kinds = c.signature.prim_types
    pairs = [(i, j) for i in range(len(prims)) for j in range(i) if issubclass(kinds[i], kinds[j]) and kinds[i] is not pr.Axes]
    if not pairs:
        return None
    i, j = choose("inputs", pairs)
    a, b = prims[j], prims[i]
    if isinstance(a, pr.Point):
        how = "same"
    elif isinstance(a, pr.Line):
        how = choose("sharing", ["same", "reversed", "first point", "last point", "first is last"])
    elif isinstance(a, pr.Quadrilateral):
        how = choose("sharing", ["same", "turned", "a side"])
    else:
        return None
    if how == "same":
        prims[i] = a
    elif how == "reversed":
        prims[i] = pr.Line(prims=(a["Point1"], a["Point0"]))
    elif how == "first point":
        prims[i] = pr.Line(prims=(a["Point0"], b["Point1"]))
    elif how == "last point":
        prims[i] = pr.Line(prims=(b["Point0"], a["Point1"]))
    elif how == "first is last":
        prims[i] = pr.Line(prims=(a["Point1"], b["Point1"]))
    else:
        ps = [a["Line" + str(k)]["Point0"] for k in range(4)]
        qs = [b["Line" + str(k)]["Point0"] for k in range(4)]
        prims[i] = pr.Quadrilateral(None, ps[2:] + ps[:2] if how == "turned" else [ps[1], qs[1], qs[2], ps[2]])
    return tuple(prims)


def check_shared_inputs(table, what):
    name, c, params = choose_entry("construction", table)
    prims = shared_inputs(c)
    if prims is None:
        return
    require_equal(c(prims, *params), c(tuple([fresh(p) for p in prims]), *params),
                  name + ": " + what + " depends on where the primitives are, not on which objects they share")
