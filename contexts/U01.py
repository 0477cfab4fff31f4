"""Drawings of primitives"""
from drawing import *


def primitive_named(kind, name):
    if kind == "point":
        return point(name)
    if kind == "line":
        return line(name)
    if kind == "flat line":
        p = point(name)
        return pr.Line(prims=(p, p))
    if kind == "quadrilateral":
        x, y, w, h = sym(name + "x"), sym(name + "y"), sym(name + "w", "+"), sym(name + "h", "+")
        return pr.Quadrilateral(None, [point_at(x, y), point_at(x + w, y), point_at(x + w + 1, y + h), point_at(x, y + h)])
    if kind == "dodecagon":
        p = [point_at(i * (12 - i), sym(name + "y") + i) for i in range(12)]
        return pr.Polygon(None, p)
    if kind == "triangle":
        p = [point_at(1, sym(name + "y")), point_at(2, sym(name + "y")), point_at(5, sym(name + "z"))]
        return pr.Polygon(None, p)
    if kind == "axes":
        x, y = sym(name + "x"), sym(name + "y")
        return pr.Axes(prims=(box_at(x, y, 3, 2), box_at(x, y - 1, 3, 1), point(name + "l")), xaxis=True)
    if kind == "points":
        return pr.Primitive.from_tree(np.array([]), {"P": point(name + "p"), "Q": point(name + "q")})
    if kind == "lines":
        return pr.Primitive.from_tree(np.array([]), {"L": line_between(0, 0, 1, 2), "G": pr.Primitive.from_tree(np.array([]), {}), "M": line_between(1, 2, 1, 0)})
    if kind == "shared":
        p, l = point(name + "p"), line_between(0, 0, 1, 2)
        return pr.Primitive.from_tree(np.array([]), {"P": p, "L": l, "Q": p, "M": l, "R": l["Point0"]})
    if kind == "collapsed axes":
        x, y = sym(name + "x"), sym(name + "y")
        return pr.Axes(prims=(box_at(x, y, 3, 2), box_at(x, y, 3, 0), point(name + "l")), xaxis=True)
    return pr.Primitive.from_tree(np.array([]), {key("g"): primitive_named("axes", name + "a"), "P": point(name + "p")})


KINDS = ["point", "line", "flat line", "quadrilateral", "triangle", "dodecagon", "axes", "collapsed axes", "group", "points", "lines", "shared"]


def root(children):
    return pr.Primitive.from_tree(np.array([]), children)


def ctx_one_primitive():
    """each kind of primitive, on its own"""
    p = primitive_named(choose("primitive", KINDS), "p")
    ax = canvas()
    before = snapshot(p)
    ui.plot_prim(ax, p, choose("key", ["", "Prim0", key("k")]))
    check_drawing(ax, [p], "drawing")
    require_unchanged(before, p, "primitives are left alone")


def ctx_direct():
    """the functions for single kinds, with and without label and options"""
    kind = choose("primitive", ["point", "line", "quadrilateral", "triangle", "dodecagon"])
    p = primitive_named(kind, "p")
    if kind == "line":
        assume(length(p) != 0)
    f = {"point": ui.plot_point, "line": ui.plot_line, "quadrilateral": ui.plot_polygon, "triangle": ui.plot_polygon, "dodecagon": ui.plot_polygon}[kind]
    ax = canvas()
    label = choose("label", [None, "L"])
    options = choose("options", [{}, {"alpha": 0.5, "color": "red"}])
    if label is None:
        f(ax, p, **options)
    else:
        f(ax, p, label, **options)
    if kind in ("point", "line"):
        check_drawing(ax, [p], "drawing")
        require_equal(ax.curves[0][3].get("color"), options.get("color"), "options of a drawing")
        require_equal(ax.curves[0][3].get("alpha"), options.get("alpha"), "options of a drawing")
    else:
        require(len(ax.curves) == 0 and len(ax.patches) == 1, "one polygon is drawn")
        require_equal(np.array(ax.patches[0].xy), np.array(vertices(p)), "vertices of a polygon")
        require_equal(ax.patches[0].kwargs.get("color"), options.get("color"), "options of a drawing")
    texts = [t for t in ax.texts if t[0] is not None]
    require_equal([t[0] for t in texts], [] if label is None else [label], "label of a primitive")
    for t in texts:
        if kind == "point":
            require_equal(t[1], xy(p), "the label of a point is at the point")
        elif kind != "line":
            require_equal(t[1], start(p["Line0"]), "the label of a polygon is at its first vertex")


def ctx_several_primitives():
    """a layout's primitives, each in a color of its own"""
    kinds = [choose("primitive " + str(i), KINDS if i == 0 else ["line", "axes"]) for i in range(choose("primitives", bound([0, 1, 2], [0, 1, 2, 3])))]
    prims = {"p" + str(i): primitive_named(k, "p" + str(i)) for i, k in enumerate(kinds)}
    shades = []

    def cmap(x):
        shades.append(x)
        return ("color", len(shades))

    ax = canvas()
    r = root(prims)
    before = snapshot(r)
    ui.plot_prims(ax, r, cmap)
    check_drawing(ax, list(prims.values()), "drawing")
    require_unchanged(before, r, "primitives are left alone")
    require(len(shades) == len(prims), "each primitive has a color")
    for i, x in enumerate(shades):
        require(0 <= x and x <= 1, "colors are in the color map")
        for y in shades[:i]:
            require(x != y, "different primitives have different colors")
    n = 0
    for i, p in enumerate(prims.values()):
        alone = canvas()
        ui.plot_prim(alone, p)
        for curve in ax.curves[n:n + len(alone.curves)]:
            require_equal(curve[3].get("color"), ("color", i + 1), "all of a primitive is in its color")
        n = n + len(alone.curves)


def ctx_any_number_of_primitives():
    n = choose("number of primitives", sizes(0, bound(9, 14), 130))
    kind = choose("primitive", ["point", "line"])
    prims = {"p" + str(i): point("p" + str(i)) if kind == "point" else line_between(i, 0, sym("x"), i + 1) for i in range(n)}
    shades = []

    def cmap(x):
        shades.append(x)
        return ("color", len(shades))

    ax = canvas()
    ui.plot_prims(ax, root(prims), cmap)
    check_drawing(ax, list(prims.values()), "drawing")
    require(len(shades) == n, "each primitive has a color")
    for i, x in enumerate(shades):
        require(0 <= x and x <= 1, "colors are in the color map")
        for y in shades[:i]:
            require(x != y, "different primitives have different colors")


def ctx_one_primitive_under_several_keys():
    """each key is drawn, in its color, whether or not its primitive has been drawn"""
    p = primitive_named(choose("primitive", ["point", "line", "quadrilateral", "points"]), "p")
    inner = choose("also in a group", [False, True])
    prims = {"a": p, "b": point("b"), "c": root({"p": p}) if inner else p}
    ax = canvas()
    ui.plot_prims(ax, root(prims))
    check_drawing(ax, list(prims.values()), "drawing")


def ctx_labels():
    """a label ends in the last key of its primitive, unless it is too deep"""
    depth = choose("label depth", [0, 1, 2, 99])
    inner = key("inner")
    r = root({"A": primitive_named("quadrilateral", "a"), inner: root({"B": line_between(0, 1, 2, 3), "C": point("c")})})
    ax = canvas()
    ui.plot_prim(ax, r, key("top"), max_label_depth=depth)
    keys = [(1, "A"), (2, "Line0"), (2, "Line1"), (2, "Line2"), (2, "Line3"), (2, "B"), (2, "C")]
    expected = ["/" + k for d, k in keys if d <= depth]
    shown = [t[0] for t in ax.texts if t[0] is not None]
    require(len(shown) == len(expected), "each drawn primitive above the label depth has a label")
    for a, b in zip(shown, expected):
        require(a.endswith(b), "a label ends in the key of its primitive")


def ctx_opacity():
    """outer primitives are not fainter than inner ones, and all are visible"""
    p = primitive_named(choose("primitive", KINDS), "p")
    ax = canvas()
    ui.plot_prim(ax, p, choose("key", ["", "Prim0"]))
    alphas = [c[3]["alpha"] for c in ax.curves]
    for a in alphas:
        require(a > 0 and a <= 1, "opacity of a drawn primitive")
    for q in ax.patches:
        require(q.kwargs["alpha"] > 0 and q.kwargs["alpha"] <= 1, "opacity of a polygon")
    if isinstance(p, (pr.Point, pr.Line)):
        for a in alphas:
            require(a == 1, "a primitive without parts is opaque")


def ctx_labels_without_a_key():
    """a primitive that is drawn without a key has no label, its parts have theirs"""
    kind = choose("primitive", KINDS)
    p = primitive_named(kind, "p")
    ax = canvas()
    ui.plot_prim(ax, p)
    drawn = []
    of_primitive(p, drawn)
    keys = []

    def collect(k, q):
        if isinstance(q, pr.Point) or isinstance(q, pr.Polygon) or (isinstance(q, pr.Line) and not degenerate(q)):
            keys.append(k)
        if not isinstance(q, pr.Line):
            for name, c in q.children.items():
                collect(name, c)

    collect(None, p)
    if keys and keys[0] is None:
        keys = keys[1:]
    shown = [t[0] for t in ax.texts if t[0] is not None]
    require(len(shown) == len(keys), "parts have labels, the primitive has none")
    for a, b in zip(shown, keys):
        require(a.endswith("/" + b), "a label ends in the key of its primitive")


def ctx_figure_ticks():
    """ticks are at multiples of the given intervals"""
    ax = canvas()
    register_model("matplotlib.pyplot.subplots", lambda *args, **kwargs: ("figure", ax))
    register_model("matplotlib.ticker.MultipleLocator", Locator)
    major, minor = sym("major", "+"), sym("minor", "+")
    how = choose("intervals", ["given", "given by position", "default"])
    r = root({"P": primitive_named("line", "p")})
    if how == "given":
        ui.figure_prims(r, minor_tick_interval=minor, major_tick_interval=major)
    elif how == "given by position":
        ui.figure_prims(r, (8, 8), major, minor)
    else:
        ui.figure_prims(r)
        major, minor = 1, 1 / 8
    for axis in (ax.xaxis, ax.yaxis):
        require(isinstance(axis.major, Locator) and isinstance(axis.minor, Locator), "ticks at multiples of an interval")
        require_equal((axis.major.base, axis.major.offset), (major, 0.0), "interval of major ticks")
        require_equal((axis.minor.base, axis.minor.offset), (minor, 0.0), "interval of minor ticks")


def ctx_figure():
    """figures of primitives have equal scales"""
    ax = canvas()
    sizes_ = []

    def subplots(*args, **kwargs):
        sizes_.append(kwargs.get("figsize"))
        return "figure", ax

    register_model("matplotlib.pyplot.subplots", subplots)
    p = primitive_named(choose("primitive", KINDS), "p")
    size = (sym("w", "+"), sym("h", "+"))
    fig, out = ui.figure_prims(root({"P": p}), size)
    require(fig == "figure" and out is ax, "the drawn figure is returned")
    require_equal(sizes_, [size], "size of a figure")
    require(ax.aspect == 1 or ax.aspect == "equal", "equal scales")
    check_drawing(ax, [p], "figure")
