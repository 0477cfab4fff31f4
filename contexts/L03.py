"""Updating a layout with the thickness of matplotlib axes"""
from stubs import *
from layouts import *


def region(name, w, h):
    return box_at(sym(name + "x"), sym(name + "y"), w, h)


def axes_primitive(name):
    out = [quad(name + "F")]
    for i in range(4):
        out = out + [quad(name + "A" + str(i)), point(name + "L" + str(i))]
    return pr.Axes(prims=tuple(out), xaxis=True, yaxis=True, twinx=True, twiny=True)


def mpl_axes(name):
    fig = Figure(sym("W", "+"), sym("H", "+"), sym("dpi", "+"))
    ax = AxesStub(fig, (sym(name + "l"), sym(name + "b"), sym(name + "w", "+"), sym(name + "h", "+")))
    for axis, side in ((ax.xaxis, "bottom"), (ax.yaxis, "left")):
        n = name + axis.axis_name
        axis.tick_position = side
        axis.box = Box(sym(n + "0"), sym(n + "1"), sym(n + "2"), sym(n + "3"))
        axis.box_with_label = axis.box
    return ax


def both_thicknesses():
    """thickness constraints as parts of another constraint"""
    return unknown("both", 0, (pr.Quadrilateral, pr.Quadrilateral), 0, (cr.YAxisThickness(), cr.XAxisThickness(), cr.Box()),
                   ("y", "x", "b"), (("arg1",), ("arg0",), ("arg0",)), lambda params: ((None,), (None,), ()))


def constraints():
    return {
        "x": (cr.XAxisThickness(), ("{}/XAxis",), (None,)),
        "y": (cr.YAxisThickness(), ("{}/YAxis",), (None,)),
        "twin x": (cr.XAxisThickness(), ("{}/TwinXAxis",), (None,)),
        "twin y": (cr.YAxisThickness(), ("{}/TwinYAxis",), (None,)),
        "frame": (cr.YAxisThickness(), ("{}/Frame",), (None,)),
        "twice": (cr.XAxisThickness() * 2, ("{}/XAxis",), (None,)),
        "factor": (cr.YAxisThickness() * con.Scalar(), ("{}/YAxis",), (None, sym("factor"))),
        "both": (both_thicknesses(), ("{}/XAxis", "{}/YAxis"), ()),
        "width": (cr.Width(), ("{}/Frame",), (sym("width"),)),
        "position": (cr.PositionXAxis(side="bottom"), ("{}",), ()),
    }


def setting(count=1):
    """a layout with two axes and several constraints"""
    if count > 1:
        names = choose("axes", bound([("Axes0", "Axes1")], [("Axes0", "Axes1"), ("AxesTop", "Axes")]))
    else:
        names = choose("axes", bound([("AxesTop", "Axes"), (key("ax"), key("bx"))],
                                     [("Axes0", "Axes1"), ("AxesTop", "Axes"), (key("ax"), key("bx"))]))
    l = lay.Layout()
    for n in names:
        l.add_prim(axes_primitive("p" + str(names.index(n))), n)
    table = constraints()
    added = []
    for i in range(count):
        k = choose("constraint " + str(i), sorted(table.keys()))
        w = names[choose("axes of constraint", [0, 1]) if i == 0 else 1]
        c, keys, params = table[k]
        keys = tuple([w + x[2:] for x in keys])
        l.add_constraint(c, keys, params, "c" + str(i))
        added.append((k, w, c, keys, params))
    return names, l, added


def error(axs, k, n, c, l, keys, params):
    """what each constraint is about after the update"""
    prims = tuple([at(l.root_prim, x) for x in keys])
    if k in ("x", "twin x"):
        return c(prims, axs[n].xaxis)
    if k in ("y", "twin y", "frame"):
        return c(prims, axs[n].yaxis)
    if k == "twice":
        return 2 * cr.XAxisThickness()(prims, axs[n].xaxis)
    if k == "factor":
        return params[1] * cr.YAxisThickness()(prims, axs[n].yaxis)
    if k == "both":
        return np.concatenate([cr.YAxisThickness()((prims[1],), axs[n].yaxis), cr.XAxisThickness()((prims[0],), axs[n].xaxis),
                               cr.Box()((prims[0],))])
    return c(prims, *params)


def ctx_thickness_is_replaced():
    """after an update, thickness constraints are about the matplotlib axes and all others are as before"""
    names, l, added = setting(choose("constraints", [1, 2]))
    axs = {n: mpl_axes("m" + str(i)) for i, n in enumerate(names)}
    u = lay.update_layout_constraints(l, axs)
    fs, ks, vs = u.flat_constraints()
    out = [f(tuple([at(u.root_prim, x) for x in keys]), *q) for f, keys, q in zip(fs, ks, vs)]
    expected = [error(axs, k, n, c, l, keys, params) for k, n, c, keys, params in added]
    require_equal(np.concatenate(out), np.concatenate(expected), "errors after an update")


def ctx_names_of_axes():
    """axes may have any names, also such which look like those of their parts"""
    names = choose("axes", [("XAxis", "YAxis"), ("AxesY", "Axes"), ("TwinX", "Frame"), ("Yes", "Xaxis Y"), ("x", "X"), ("0", "Axes10"),
                            (key("ax"), key("bx"))])
    l = lay.Layout()
    for i, n in enumerate(names):
        l.add_prim(axes_primitive("p" + str(i)), n)
    k = choose("constraint", ["x", "y", "twin x", "factor", "both"])
    c, keys, params = constraints()[k]
    axs = {n: mpl_axes("m" + str(i)) for i, n in enumerate(names)}
    added = []
    for n in names:
        given = tuple([n + x[2:] for x in keys])
        l.add_constraint(c, given, params)
        added.append(error(axs, k, n, c, l, given, params))
    u = lay.update_layout_constraints(l, axs)
    fs, ks, vs = u.flat_constraints()
    out = [f(tuple([at(u.root_prim, x) for x in given]), *q) for f, given, q in zip(fs, ks, vs)]
    require_equal(np.concatenate(out), np.concatenate(added), "errors after an update")


def ctx_axes_in_groups():
    """axes primitives at any depth, under any names"""
    path = choose("path", [("Group", "Axes0"), ("Axes0", "Axes0"), ("a", "b", "c"), ("XAxis", "YAxis"), (key("g"), key("ax"))])
    outer = choose("axes on the path as well", [False, True])
    l = lay.Layout()
    where = []
    for n in path[:-1]:
        l.add_prim(pr.PrimitiveNode(np.array(()), {}), "/".join(where + [n]))
        where.append(n)
    full = "/".join(path)
    l.add_prim(axes_primitive("p"), full)
    axs = {full: mpl_axes("m")}
    if outer:
        assume(path[-1] != path[0])
        l.add_prim(axes_primitive("q"), path[-1])
        axs[path[-1]] = mpl_axes("n")
    expected = []
    for k in choose("constraints", [("x",), ("y", "twin x"), ("both",)]):
        for n in axs:
            c, keys, params = constraints()[k]
            given = tuple([n + x[2:] for x in keys])
            l.add_constraint(c, given, params)
            expected.append(error(axs, k, n, c, l, given, params))
    u = lay.update_layout_constraints(l, axs)
    fs, ks, vs = u.flat_constraints()
    out = [f(tuple([at(u.root_prim, x) for x in given]), *q) for f, given, q in zip(fs, ks, vs)]
    require_equal(np.concatenate(out), np.concatenate(expected), "errors after an update")


def ctx_structure_is_kept():
    names, l, added = setting()
    axs = {n: mpl_axes("m" + str(i)) for i, n in enumerate(names)}
    u = lay.update_layout_constraints(l, axs)
    for a, b, what in ((l.root_prim, u.root_prim, "primitives"), (l.root_constraint, u.root_constraint, "constraints"),
                       (l.root_prim_keys, u.root_prim_keys, "primitive keys"), (l.root_param, u.root_param, "parameters")):
        require_equal([p for p, _ in walk(b)], [p for p, _ in walk(a)], what + " have the same structure")
        for (p, x), (_, y) in zip(walk(a), walk(b)):
            require(type(x) is type(y), what + " have the same kinds")
    for (_, x), (_, y) in zip(walk(l.root_prim), walk(u.root_prim)):
        require_equal(y.value, x.value, "primitives keep their values")
    for (_, x), (_, y) in zip(walk(l.root_prim_keys), walk(u.root_prim_keys)):
        require_equal(y.value, x.value, "constraints keep their primitives")


def ctx_original_is_left_alone():
    names, l, added = setting()
    axs = {n: mpl_axes("m" + str(i)) for i, n in enumerate(names)}
    before = snapshot(l)
    u = lay.update_layout_constraints(l, axs)
    require_unchanged(before, l, "the original layout is left alone")
    require(u is not l, "an updated layout is another layout")
    trees = lambda x: [x.root_prim, x.root_constraint, x.root_prim_keys, x.root_param]
    for t in trees(u):
        for s in trees(l):
            require(t is not s, "an updated layout has trees of its own")


def ctx_layouts_without_anything_to_update():
    """an update of a layout without thickness constraints is another layout as well"""
    l = lay.Layout()
    what = choose("layout", ["empty", "primitives", "other constraints"])
    if what != "empty":
        l.add_prim(axes_primitive("p"), "Axes")
        l.add_prim(point("q"), "P")
    if what == "other constraints":
        l.add_constraint(cr.Width(), ("Axes/Frame",), (sym("width"),))
        l.add_constraint(both_parts(), ("Axes/XAxis",), ())
    axs = choose("matplotlib axes", [{}, {"Axes": mpl_axes("m")}])
    u = lay.update_layout_constraints(l, axs)
    require(u is not l, "an updated layout is another layout")
    for a, b in ((l.root_prim, u.root_prim), (l.root_constraint, u.root_constraint), (l.root_prim_keys, u.root_prim_keys),
                 (l.root_param, u.root_param)):
        require(a is not b and a.children is not b.children, "an updated layout has trees of its own")
        require_equal([p for p, _ in walk(b)], [p for p, _ in walk(a)], "trees have the same structure")
    for (p, x), (_, y) in zip(walk(l.root_param), walk(u.root_param)):
        if p != ():
            require_equal(y.value, x.value, "other parameters stay")
    a, b = (l, u) if choose("extended layout", ["original", "updated"]) == "original" else (u, l)
    before = snapshot((b.root_prim, b.root_constraint, b.root_prim_keys, b.root_param))
    a.add_prim(point("new"), "New")
    a.add_constraint(cr.Fix(), ("New",), (vec("v", 2),))
    require_unchanged(before, (b.root_prim, b.root_constraint, b.root_prim_keys, b.root_param), "the other layout is left alone")


def both_parts():
    return unknown("parts", 0, (pr.Quadrilateral,), 0, (cr.Box(), cr.Width()), ("b", "w"), (("arg0",), ("arg0",)),
                   lambda params: ((), (sym("fixed"),)))


def ctx_layouts_evolve_separately():
    """additions to one of the layouts are not additions to the other one"""
    names, l, added = setting()
    axs = {n: mpl_axes("m" + str(i)) for i, n in enumerate(names)}
    u = lay.update_layout_constraints(l, axs)
    a, b = (l, u) if choose("extended layout", ["original", "updated"]) == "original" else (u, l)
    before = snapshot((b.root_prim, b.root_constraint, b.root_prim_keys, b.root_param))
    a.add_prim(point("new"), "New")
    a.add_constraint(cr.Fix(), ("New",), (vec("v", 2),))
    a.add_constraint(cr.Box(), (names[0] + "/Frame",), (), "Box")
    require_unchanged(before, (b.root_prim, b.root_constraint, b.root_prim_keys, b.root_param), "the other layout is left alone")
    require(len(a.root_constraint) == len(added) + 2, "the extended layout has all constraints")
    require_equal([p for p, _ in walk(a.root_param)], [p for p, _ in walk(a.root_constraint)], "trees agree")
    require_equal([p for p, _ in walk(a.root_prim_keys)], [p for p, _ in walk(a.root_constraint)], "trees agree")


def ctx_updating_again():
    """an update replaces the parameters of an earlier update"""
    names, l, added = setting()
    first = {n: mpl_axes("m" + str(i)) for i, n in enumerate(names)}
    second = {n: mpl_axes("s" + str(i)) for i, n in enumerate(names)}
    a = lay.update_layout_constraints(lay.update_layout_constraints(l, first), second)
    b = lay.update_layout_constraints(l, second)
    for (p, x), (_, y) in zip(walk(a.root_param), walk(b.root_param)):
        if p != ():
            require_equal(len(x.value), len(y.value), "parameters of the last update")
            for v, w in zip(x.value, y.value):
                require_equal(v, w, "parameters of the last update")


def ctx_updating_again_from_changed_axes():
    """an update measures the axes anew, also if they are the axes of an earlier update"""
    names, l, added = setting()
    axs = {n: mpl_axes("m" + str(i)) for i, n in enumerate(names)}
    a = lay.update_layout_constraints(l, axs)
    changed = choose("changed", ["region", "side", "position", "figure size", "other axes under the key"])
    for i, n in enumerate(names):
        ax = axs[n]
        if changed == "other axes under the key":
            axs[n] = mpl_axes("other" + str(i))
        if changed == "position":
            ax.set_position((sym(n + "nl"), sym(n + "nb"), sym(n + "nw", "+"), sym(n + "nh", "+")))
        if changed == "figure size":
            ax.figure.set_size_inches(sym(n + "W", "+"), sym(n + "H", "+"))
        for axis, side in ((ax.xaxis, "top"), (ax.yaxis, "right")):
            if changed == "side":
                axis.set_ticks_position(side)
            if changed == "region":
                axis.box = Box(sym(n + side + "0"), sym(n + side + "1"), sym(n + side + "2"), sym(n + side + "3"))
                axis.box_with_label = axis.box
    a = lay.update_layout_constraints(a, axs)
    fs, ks, vs = a.flat_constraints()
    out = [f(tuple([at(a.root_prim, x) for x in keys]), *q) for f, keys, q in zip(fs, ks, vs)]
    expected = [error(axs, k, n, c, l, keys, params) for k, n, c, keys, params in added]
    require_equal(np.concatenate(out), np.concatenate(expected), "errors after a second update")


def ctx_shared_points_stay_shared():
    p = point("p")
    l = lay.Layout()
    l.add_prim(p, "P")
    l.add_prim(pr.Line(prims=(p, point("q"))), "L")
    u = lay.update_layout_constraints(l, {})
    require((u.root_prim["P"].value is u.root_prim["L/Point0"].value), "a shared point is still one unknown")
    require(u.root_prim["P"].value is not u.root_prim["L/Point1"].value, "different points are different unknowns")


def ctx_missing_axes_are_reported():
    l = lay.Layout()
    l.add_prim(axes_primitive("p"), "Axes0")
    l.add_constraint(cr.XAxisThickness(), ("Axes0/XAxis",), (None,))
    require_raises((KeyError,), lambda: lay.update_layout_constraints(l, {}), "no matplotlib axes for a thickness constraint")
