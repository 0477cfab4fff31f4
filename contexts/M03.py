"""Which axes are created in a new figure"""
from stubs import *
from M01 import *


def new_figures():
    made = []
    numbered = {}

    def figure(num=None, *args, **kwargs):
        if isinstance(num, Figure):
            return num
        if num is not None and num in numbered:
            return numbered[num]
        fig = Figure(sym("W" + str(len(made)), "+"), sym("H" + str(len(made)), "+"), sym("dpi", "+"))
        made.append(fig)
        if num is not None:
            numbered[num] = fig
        return fig

    register_model("matplotlib.pyplot.figure", figure)
    return made


def scene():
    """figure, axes, and primitives which are no axes"""
    where, quad_, prims, said = figure_and_axes(("Axes0", "Axes_b", "Colorbar", "Inner", "InsetAxes"), ("xy", "x", "", "y", "x"))
    fig_key = choose("figure key", ["Figure", "Fig 2"])
    children = {"Axes0": prims["Axes0"], fig_key: quad_, "Point": point("p"), "Colorbar": prims["Colorbar"], "Line": line("l"),
                "InsetAxes": prims["InsetAxes"], "Axes_b": prims["Axes_b"], "Group": root({"Axes0": prims["Inner"], "Axis": point("o")})}
    said["Group/Axes0"] = said["Inner"]
    return fig_key, where, root(children), said


def created(made, fig, axs, keys, where, said):
    require(len(made) == 1, "one figure is created")
    require(fig is made[0], "the created figure is returned")
    require_equal(list(axs.keys()), keys, "axes are returned under the keys of their primitives, in order")
    for i, k in enumerate(keys):
        for j in range(i):
            require(axs[keys[j]] is not axs[k], "each axes primitive has axes of its own")
    require(len(fig.added) == len(keys), "no other axes are created")
    for k in keys:
        require(len([a for a in fig.added if a is axs[k]]) == 1, "the axes are in the figure")
    check(fig, axs, where, said, "new figure")


def ctx_all_axes():
    """without keys: all axes primitives directly below the root"""
    fig_key, where, r, said = scene()
    made = new_figures()
    before = snapshot(r)
    fig, axs = mu.subplots(r, fig_key)
    created(made, fig, axs, ["Axes0", "InsetAxes", "Axes_b"], where, said)
    require_unchanged(before, r, "primitives are left alone")


def ctx_keys_of_any_shape():
    """whatever else the key of axes says"""
    k = key("k")
    where, quad_, prims, said = figure_and_axes((k, "Axes0"), ("xy", ""))
    r = root({"Figure": quad_, **prims})
    made = new_figures()
    fig, axs = mu.subplots(r)
    created(made, fig, axs, [n for n in (k, "Axes0") if "Axes" in n], where, said)


def ctx_where_the_word_is_in_the_key():
    names = choose("names", [("Axes", "MyAxes", "AxesAxes"), ("TheAxesOfTheOtherFigure", "FiguresWithAVeryLongNameHaveAxes", "axes"),
                             ("Axe s", "AXES", "a b Axes"), ("AxesFigure", "Figure Axes", "Ax es"), ("_Axes_", "0Axes", ".Axes")])
    where, quad_, prims, said = figure_and_axes(names, ("", "x", ""))
    made = new_figures()
    fig, axs = mu.subplots(root({"Figure": quad_, **prims}))
    created(made, fig, axs, [n for n in names if "Axes" in n], where, said)


def ctx_any_number_of_axes():
    n = choose("number of axes", sizes(0, bound(5, 8), 40))
    names = tuple(["Axes" + str(n - i) for i in range(n)])
    where, quad_, prims, said = figure_and_axes(names, n * ("",))
    made = new_figures()
    fig, axs = mu.subplots(root({"Figure": quad_, **prims}))
    created(made, fig, axs, list(names), where, said)


def ctx_given_axes():
    fig_key, where, r, said = scene()
    made = new_figures()
    keys = choose("axes", [[], ["Axes_b"], ["Axes_b", "Axes0"], ["Colorbar"], ["Group/Axes0", "Colorbar", "Axes0"]])
    fig, axs = mu.subplots(r, fig_key, axs_keys=list(keys))
    created(made, fig, axs, keys, where, said)


def ctx_default_figure_key():
    where, quad_, prims, said = figure_and_axes(("Axes0",), ("xy",))
    made = new_figures()
    fig, axs = mu.subplots(root({"Other": quad("o"), "Figure": quad_, "Axes0": prims["Axes0"]}))
    created(made, fig, axs, ["Axes0"], where, said)


def ctx_new_figures_each_time():
    where, quad_, prims, said = figure_and_axes(("Axes0",), ("xy",))
    made = new_figures()
    r = root({"Figure": quad_, "Axes0": prims["Axes0"]})
    a, b = mu.subplots(r), mu.subplots(r)
    require(len(made) == 2 and a[0] is made[0] and b[0] is made[1], "each call creates a figure")
    require(a[1]["Axes0"] is not b[1]["Axes0"], "each figure has axes of its own")
    check(a[0], a[1], where, said, "first figure")
    check(b[0], b[1], where, said, "second figure")


def ctx_missing_primitives_are_reported():
    where, quad_, prims, said = figure_and_axes(("Axes0",), ("xy",))
    r = root({"Figure": quad_, "Axes0": prims["Axes0"]})
    new_figures()
    require_raises((KeyError,), lambda: mu.subplots(r, key("nothing")), "a figure key without a primitive")
    require_raises((KeyError,), lambda: mu.subplots(r, "Figure", ["Axes0", key("nothing")]), "an axes key without a primitive")
