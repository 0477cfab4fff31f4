#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the two are kept in step here)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/mpllayout/"
CN, PR, CO, CR, LA, SO, MU, UI = (S + x + ".py" for x in (
    "containers", "primitives", "constructions", "constraints", "layout", "solver", "matplotlibutils", "ui"))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[{"name": n, "where": w} for n, w in mechanism], technique=technique, note=note,
                  observe=list(observe), state=[{"name": n, "meaning": m, "where": w} for n, m, w in state]))


PI = "trace-partitioned abstract interpretation (heap/alias and string domains)"
PV = "trace-partitioned abstract interpretation with symbolic value numbering (polynomial normal form, random interpretation)"
TRUST = "Trusts the transfer functions of Python built-ins, numpy, jax and matplotlib in sa/."

# ------------------------------------------------------------------ trees
prop("C01", "Tree paths address exactly one node, consistently across all lookups",
     "In a tree of keyed nodes a slash separated path denotes at most one node, and indexing, membership tests, positional access and "
     "key/value/item enumeration agree on it and on the order of insertion; a path without a node is absent from membership tests and raises a key error when indexed. "
     "Assigning to an existing path replaces exactly that node and keeps the order of its siblings, and assigning to a missing path is an error which changes nothing. "
     "The height of a node is the number of levels below it.",
     ["inputs", "programs"], "all trees, all keys (also keys that repeat at several levels or look like generated names), all paths, positions and slices",
     "the tests look at a couple of two-level trees with fixed keys", [CN],
     [("path lookup", CN + ":Node.get_child"), ("membership", CN + ":Node.__contains__"), ("indexing", CN + ":Node.__getitem__"),
      ("assignment", CN + ":Node.__setitem__"), ("height", CN + ":Node.node_height")], PI,
     "All ordered trees up to 5 (thorough 6) nodes plus a deep and a wide one, with keys that are arbitrary strings without a slash. " + TRUST)
prop("C02", "Inserting a node never overwrites one and changes only its parent",
     "Adding a node under a new path makes it the last child of the existing parent node and changes nothing else; adding under a path that exists, or below a parent that does not exist, raises a key error and leaves the tree as it was. "
     "Trees that were created independently never share their children.",
     ["inputs", "histories"], "all trees, all paths, any number of insertions, also through a layout",
     "tests insert a few nodes into empty trees; rejected insertions and their after-effects are not looked at", [CN, LA],
     [("insertion", CN + ":Node.add_child"), ("insertion of primitives", LA + ":Layout.add_prim"), ("fresh trees", LA + ":Layout.__init__")], PI,
     "All ordered trees up to 4 (thorough 5) nodes, arbitrary keys. " + TRUST)
prop("C03", "Flattening lists every node once, parents first; unflattening restores the tree",
     "Flattening a tree gives one entry for every node, parents before children and siblings in order, with the node's path, kind, value and number of children, and the flattened paths find those nodes. "
     "Unflattening gives a tree of the same keys, order, kinds and values; entries that do not belong to the tree are handed back, no part of the original tree is changed, and a flattened tree is not affected by later additions to the tree.",
     ["inputs", "programs"], "all trees of nodes of any kind, under any root path",
     "tests round-trip one or two small trees", [CN],
     [("pre-order", CN + ":iter_flat"), ("flatten", CN + ":flatten"), ("unflatten", CN + ":unflatten")], PI,
     "All ordered trees up to 5 (6) nodes, arbitrary keys and opaque values; also trees of primitives and constraints. " + TRUST)
prop("C04", "Mapping, copying and accumulating respect structure, kinds and independence",
     "Mapping a function over a tree applies it once to the value of every node, in a tree with the same keys and order; accumulating combines the value of a node with the accumulated values of all its descendants, in order, where the initial value enters at the leaves. "
     "A copy has the same keys, order, kinds and values and can be edited without any effect on the original, at any depth, and vice versa.",
     ["inputs", "histories"], "all trees, all functions, all later edits of either tree",
     "aliasing between a copy and its original shows only after a later edit, which the tests do not make", [CN],
     [("map", CN + ":map"), ("accumulate", CN + ":accumulate"), ("copy", CN + ":Node.copy")], PI,
     "All ordered trees up to 5 (6) nodes with opaque functions and values; storage identity decides independence. " + TRUST)
prop("C05", "Generated keys are always fresh",
     "A key which is generated for an item names the category of the item and differs from every key generated for the same category before and from every key taken in any of the given trees, whatever was added under explicit keys before. "
     "Keys generated by one counter do not depend on other counters, and a counter contains exactly the categories it has seen.",
     ["histories", "inputs"], "all sequences of explicit and generated keys, also with class names that end in digits",
     "a collision needs a particular interleaving of explicit and generated names", [CN, LA],
     [("counter", CN + ":ItemCounter.add_item"), ("retry until free", CN + ":ItemCounter.add_item_to_nodes"), ("constraint keys", LA + ":Layout.add_constraint")], PI,
     "All histories of up to 6 (8) items; up to three trees which hold any selection of the likely keys. " + TRUST)

# ------------------------------------------------------------------ primitives
prop("P01", "A primitive exists only with parameters and children that fit its kind",
     "A primitive can be created exactly when its own parameters and its parameterizing primitives have the number, shape and kinds its class declares; everything else is rejected with an error. "
     "A point holds a flat sequence of two numbers in an array of its own, which is never the array it was created from nor that of another point, and primitives that are created by default share nothing.",
     ["inputs"], "all numbers and kinds of parameters and parameterizing primitives, including subclasses",
     "tests create valid primitives and very few invalid ones", [PR],
     [("value check", PR + ":PrimitiveNode.__init__"), ("kinds of primitives", PR + ":validate_prims"), ("children", PR + ":Primitive.__init__")], PI,
     "Sizes 0 to 7 (12), every class of primitives, every position of a wrong kind. " + TRUST)
prop("P02", "Polygons are closed chains through their vertices, in order",
     "A polygon of n vertices has n sides, of which each one ends where the next one begins, and the last one ends where the first one begins, at the very same points. "
     "Vertices that are given are the vertices in the given order; the default vertices (three, or as many as asked for) are distinct, go around counter-clockwise, and a default quadrilateral is the unit square from its bottom left corner; polygons created separately share no points.",
     ["inputs"], "all numbers of vertices, given and default",
     "sharing and order are looked at for three and four vertices at most", [PR],
     [("sides from vertices", PR + ":Polygon.init_children"), ("default vertices", PR + ":Polygon.default_prims"), ("default square", PR + ":Quadrilateral.default_prims")], PV,
     "1 to 12 (20) vertices and the sizes next to every number in the source; vertices are arbitrary reals. " + TRUST)
prop("P03", "Axes primitives have the documented parts for all combinations of options",
     "Axes have a frame, and for each of the options x axis, y axis and their twins a region and a label, under the documented keys and in the documented order; an option that is off adds nothing. "
     "Primitives which are given take the places of the default primitives at the same positions, and axes created separately share nothing.",
     ["configurations", "inputs"], "all combinations of the four options, with given or default primitives",
     "tests use one or two of the sixteen combinations", [PR],
     [("keys", PR + ":Axes.init_children"), ("defaults", PR + ":Axes.default_prims")], PI,
     "All 16 combinations. " + TRUST)
prop("P04", "Shared points are one unknown, equal points are separate unknowns",
     "The unknowns of a tree of primitives are its parameter arrays, one for each distinct array in order of first appearance, so that a point used in several places counts once and points that merely have equal coordinates count separately. "
     "Rebuilding the tree with new values gives the same keys, order and kinds, with the value of each unknown at all of its places, new sharing equal to the old sharing, and the old tree unchanged.",
     ["inputs", "programs"], "all trees of primitives with any pattern of sharing, and all values",
     "sharing patterns multiply; tests look at one polygon and one line", [PR],
     [("unknowns by identity", PR + ":filter_unique_values_from_prim"), ("rebuild", PR + ":build_prim_from_unique_values")], PI,
     "Lines through any selection of common points, polygons up to 8 (12) vertices, axes in all combinations, figures. " + TRUST)
prop("P05", "Every kind of primitive survives a jax pytree round trip",
     "Every class of primitives and of nodes is registered as a pytree, and flattening and unflattening one (also through compiled functions) gives back the same class, keys, order and values, with exactly the parameter arrays as leaves.",
     ["programs", "inputs"], "all classes of primitives in the source, all trees, all orders of keys",
     "tests round-trip two classes; a class that is added later without registration fails only inside a compiled function", [PR, CN],
     [("registration", PR + ":_PRIMITIVE_CLASSES"), ("flatten/unflatten functions", CN + ":_make_flatten_unflatten")],
     "exhaustiveness over the class hierarchy and abstract interpretation of the registered functions",
     "Every class which the source defines below the base class; trees up to 4 (5) nodes. " + TRUST)

# ------------------------------------------------------------------ constructions
prop("K01", "Measurements equal their documented geometric quantities",
     "Each measurement of points, lines and quadrilaterals (coordinates, directed distances, lengths, unit vectors, midpoints, angles, distances along, from and relative to a line, widths, heights, aspect ratios) equals the documented geometric quantity, with its documented sign and order of arguments. "
     "Angles go counter-clockwise from the first to the second line in the principal range, and measurements other than coordinates depend neither on where the primitives are nor on whether they are shared.",
     ["inputs"], "all coordinates in general position, plus right and straight angles and degenerate selections",
     "tests sample random coordinates of a few measurements and seldom a sign or a reversed line", [CO],
     [("formulas", CO + ":Angle.assem"), ("formulas", CO + ":PointOnLineDistance.assem"), ("formulas", CO + ":PointToLineDistance.assem"),
      ("formulas", CO + ":RelativePointOnLineDistance.assem"), ("formulas", CO + ":MidpointDirectedDistance.assem"), ("rectangles", CO + ":RectangleDim.init_children")], PV,
     "Coordinates are symbolic reals: identities are decided by normal form, or by random interpretation at 24 points where radicals and inverse functions nest. " + TRUST)
prop("K02", "Every construction is consistent with its signature, all the way down",
     "For every construction and constraint of the library the result, and the result of every part, has the declared size; every primitive that is handed to a part exists and has the kind the part declares; and its trees of primitive keys and parameters have the same shape as the construction. "
     "Evaluating changes neither primitives nor parameters nor the construction, instances do not influence each other, and parts that do not fit together are rejected when a construction is defined.",
     ["programs", "configurations"], "all constructions and constraints in the source with all their options, grids of many shapes",
     "one wrong key or size matters only for the option or grid shape that uses it", [CO, CR],
     [("definition checks", CO + ":ConstructionNode.__init__"), ("routing of keys", CO + ":ConstructionNode.child_prim_keys"), ("routing of parameters", CO + ":ConstructionNode.child_params"),
      ("size check", CO + ":ConstructionNode.validate_value")],
     "signature/shape analysis by abstract interpretation over the whole construction library",
     "All library entries of contexts/catalog.py (checked to be complete against the source), grids up to 3x3. " + TRUST)
prop("K03", "Constructions reject inputs which do not fit their signature",
     "Evaluating a construction with a wrong number or kind of primitives, or a wrong number of parameters (for itself or for any of its parts), raises an error before anything is computed, while instances of subclasses of the declared kinds are accepted.",
     ["inputs", "programs"], "all library constructions, all numbers and kinds of inputs, arbitrary constructions",
     "a check that is missing for one kind or position is invisible with valid inputs", [CO],
     [("primitives", CO + ":ConstructionNode.validate_prims"), ("parameters", CO + ":ConstructionNode.validate_params"), ("parts", CO + ":ConstructionNode.root_params")], PI,
     "Every library entry and arbitrary (opaque) constructions; numbers of inputs around the declared ones. " + TRUST)
prop("K04", "Compound constructions route the right inputs to each part, results in order",
     "The result of a compound construction is its own value followed by the results of its parts in order, where each part is evaluated on exactly the primitives its keys name (whole arguments or parts of them, repeated or exchanged, however many arguments there are) and exactly the parameters it is assigned. "
     "This composes through any number of levels.",
     ["programs", "inputs"], "all routings of primitives and parameters, any nesting, arbitrary parts",
     "tests evaluate two fixed compounds", [CO],
     [("prefix replacement", CO + ":ConstructionNode.child_prim_keys"), ("primitive tree", CO + ":ConstructionNode.root_prim"), ("key tree", CO + ":ConstructionNode.root_prim_keys"),
      ("parameter tree", CO + ":ConstructionNode.root_params"), ("concatenation", CO + ":ConstructionNode.assem_from_tree")], PV,
     "Parts are uninterpreted functions, so a wrong input cannot cancel; all routings of up to two arguments over two levels, deeper ones by example. " + TRUST)
prop("K05", "Arithmetic on constructions is arithmetic on their values",
     "Sums, differences of signs, multiples, quotients and powers of constructions, by numbers or by scalar parameters, evaluate to the same arithmetic on the values of the operands, where the inputs of the operands are concatenated in order; this holds for numbers of any type, and also while tracing. "
     "Fixing trailing parameters and mapping over a row of primitives evaluate the given construction on the corresponding inputs; operands are never changed, and operands of different sizes or other kinds are rejected.",
     ["programs", "inputs"], "all expressions over all (arbitrary and library) constructions",
     "tests evaluate single operations on a length; combinations, shared operands and compounds are not covered", [CO],
     [("sum", CO + ":transform_sum"), ("multiple", CO + ":transform_scalar_mul"), ("quotient", CO + ":transform_scalar_div"), ("power", CO + ":transform_scalar_pow"),
      ("partial", CO + ":transform_partial"), ("map", CO + ":transform_map")], PV,
     "Operands are uninterpreted functions with parts; expressions up to depth three. " + TRUST)
prop("K06", "A constraint made from a construction is its deviation from a target",
     "A construction which is turned into a constraint keeps its primitives and its own parameters, takes one more parameter as target, and evaluates to the construction's value minus the target, component by component, also for compound constructions and traced targets.",
     ["programs", "inputs"], "all constructions with parts of any sizes at any depth, all targets",
     "tests turn single leaf constructions into constraints", [CO],
     [("difference with the target", CO + ":transform_constraint"), ("target vector", CO + ":Vector.init_children"), ("chunks", CO + ":chunk")], PV,
     "All library constructions, and arbitrary ones with part sizes 0 to 3 at two levels. " + TRUST)

# ------------------------------------------------------------------ constraints
prop("R01", "Measuring constraints are the measurement minus the given value",
     "The error of each measuring constraint (fixed point, distances, lengths, angles, midpoint distances, distances to lines, width, height, margins) is the documented measurement of the same primitives minus the given value.",
     ["inputs"], "all primitives, all values (numbers or arrays)",
     "tests solve for a few values; a wrong sign or measurement can still converge for those", [CR],
     [("constraints from constructions", CR + ":Fix"), ("constraints from constructions", CR + ":AspectRatio"), ("constraints from constructions", CR + ":OuterMargin")], PV,
     "Symbolic reals for all coordinates and values. " + TRUST)
prop("R02", "Relation constraints hold exactly on their documented configurations",
     "The errors of coincident, horizontal, vertical, orthogonal, parallel, collinear, coincident-line, relative-length, rectangle and alignment constraints vanish for every configuration in the documented relation and not for configurations outside of it, and they do not depend on where the primitives are.",
     ["inputs"], "all configurations in the relation, and all generic ways to leave it",
     "tests check that solutions satisfy the relation; a constraint that is too weak or too strong converges as well", [CR],
     [("errors", CR + ":Collinear.assem"), ("errors", CR + ":CoincidentLines.assem"), ("errors", CR + ":Orthogonal.assem"), ("errors", CR + ":Parallel.assem"),
      ("rectangles", CR + ":Box.init_children"), ("alignment", CR + ":Align.init_children")], PV,
     "Configurations are parameterized by symbolic reals; non-vanishing is decided per generic direction, not for every single point. " + TRUST)
prop("R03", "Margins and faces are about the named sides",
     "Outer and inner margins measure the gap between two rectangles on the named side (positive for separate, respectively nested rectangles), exchanging the rectangles of an outer margin exchanges the sides, and arrays of margins of any shape (an integer or a tuple) measure consecutive rectangles. "
     "Face constraints hold exactly if the named sides lie outward on each other, and unknown sides are rejected.",
     ["inputs", "configurations"], "all rectangles, all sides, all lengths of arrays",
     "four sides, two kinds and two orders are sampled once or twice by the tests", [CO, CR],
     [("margins", CO + ":Margin.init_children"), ("arrays", CR + ":OuterMarginArray.init_children"), ("faces", CR + ":CoincidentOutwardFaces.init_children")], PV,
     "Symbolic rectangles. " + TRUST)
prop("R04", "Grid constraints describe exactly the documented grid",
     "The errors of a grid vanish if its rectangles, listed row by row from the top left one, are aligned and have the given gaps and relative widths and heights, and do not vanish after changing any one parameter or moving or resizing any one rectangle. "
     "A rectilinear grid leaves widths, heights and gaps free; numbers of rectangles and parameters that do not fit the shape are rejected.",
     ["inputs", "configurations"], "all numbers of rows and columns, all sizes, gaps, positions",
     "tests solve one or two grid shapes with equal gaps", [CR],
     [("members", CR + ":Grid.init_children"), ("alignment", CR + ":RectilinearGrid.init_children"), ("row by row", CR + ":idx_1d")], PV,
     "Shapes up to 3x3 (4x4), symbolic sizes and gaps. " + TRUST)
prop("R05", "Axis regions and labels are positioned on the documented side",
     "Axis position constraints hold exactly if the region of the given axis lies outside the frame along the given side (that of a twin axis along the opposite side), whatever other regions and labels are. "
     "Label position constraints measure the label of the given axis along the frame as a fraction from its left or bottom, minus the given value.",
     ["inputs", "configurations"], "all frames, regions, labels, axes, sides, twins",
     "the options multiply to more than the tests look at", [CR],
     [("axis position", CR + ":PositionAxis.init_children"), ("label position", CR + ":PositionAxisLabel.init_children")], PV,
     "Symbolic rectangles, all options. " + TRUST)
prop("R06", "Thickness constraints equal the extent of the matplotlib axis in inches",
     "The thickness of a matplotlib axis is the distance in inches from the axes frame to the outer end of its ticks and tick labels, on the side where the ticks are, for any figure size, resolution and axes position; it is zero without an axis or for an axis without extent. "
     "A thickness constraint is the height (x axis) or width (y axis) of its region minus that thickness.",
     ["inputs", "configurations"], "all figures, axes, extents and resolutions, four sides",
     "tests have a single figure at most; position, side and resolution errors cancel there", [CR],
     [("thickness", CR + ":get_axis_thickness"), ("constraint", CR + ":AxisThickness.init_children")], PV,
     "matplotlib objects are stand-ins with the documented interface and symbolic geometry (contexts/stubs.py). " + TRUST)
prop("R07", "Measuring a matplotlib axis leaves the axis as it was",
     "Measuring the thickness of an axis ignores the axis label and leaves the visibility of the label as it was, also if the measurement fails and if it is repeated.",
     ["inputs", "fault_sequences"], "visible and invisible labels, failing measurements, any number of measurements",
     "failures during the measurement and invisible labels do not occur in the tests", [CR],
     [("label visibility", CR + ":get_axis_thickness")], "typestate of the label visibility over all normal and exceptional paths",
     "Every call of the axis interface may be observed; failing measurement raises at the call. " + TRUST)

# ------------------------------------------------------------------ layout
prop("L01", "The trees of a layout stay in step over any history of additions",
     "After any sequence of additions each constraint of a layout and each of its parts has its list of primitives of the declared kinds and its parameters, in additions order and under the key that was given, or a fresh one. "
     "An addition that is rejected (wrong number or kind of primitives, unknown primitives, wrong number of parameters, an existing key, a key with a slash) leaves the layout exactly as it was and usable.",
     ["histories", "inputs"], "all sequences of valid and invalid additions of all kinds of constraints",
     "tests add valid constraints only; a half-done addition shows later", [LA],
     [("validate, then add to all trees", LA + ":Layout.add_constraint"), ("primitives", LA + ":Layout.add_prim")],
     "heap analysis of the lockstep invariant over addition histories",
     "Histories of two (three) constraints of eight kinds and eleven kinds of invalid additions. " + TRUST,
     state=[("three trees", "constraints, primitive keys and parameters have the same keys", LA + ":Layout.__init__")])
prop("L02", "Flat constraint lists contain each constraint part once, in step",
     "The flat lists of a layout have one entry for each constraint and each of its parts, in order, with the primitives and parameters which that constraint or part was added with; evaluating the entries one after the other on the layout's primitives gives the errors of the constraints, and flattening changes nothing.",
     ["inputs", "programs"], "all layouts with all kinds of (nested) constraints",
     "tests flatten layouts of one constraint", [LA],
     [("flattening", LA + ":Layout.flat_constraints")], PV,
     "Eleven layouts with shared points and nested uninterpreted constraints, and all library constraints. " + TRUST)
prop("L03", "Updating a layout changes only the axes of thickness constraints",
     "After an update from matplotlib axes every thickness constraint of an x or a y axis, also one that is part of another constraint or is about axes in a group, measures the axis of the matplotlib axes under its primitive's key, and all other constraints are as before. "
     "The original layout is left alone, later additions to either layout do not show in the other one, and the latest update counts.",
     ["histories", "inputs"], "all layouts with thickness constraints at any place, all keys of axes, any number of updates and additions",
     "the tests do not update layouts at all; sharing shows only after later additions", [LA],
     [("update", LA + ":update_layout_constraints"), ("parameters", LA + ":update_root_param")],
     "abstract interpretation with storage identity (aliasing) and symbolic values",
     "Two axes, one or two constraints of six kinds. " + TRUST)

# ------------------------------------------------------------------ solver
prop("S01", "Solving leaves the layout alone and returns independent primitives",
     "Solving a layout changes nothing that is reachable from the layout, with either method and any number of iterations. "
     "The result has the keys, order, kinds and sharing of the layout's primitives and shares no storage with it; with the minimizing method it holds the minimizer's result.",
     ["inputs", "histories"], "all layouts, both methods, repeated solving",
     "aliasing between solution and layout shows only after later edits", [SO, PR],
     [("unknowns", SO + ":solve_newton"), ("unknowns", SO + ":solve_minimize"), ("rebuild", PR + ":build_prim_from_unique_values")],
     "effect and alias analysis by abstract interpretation",
     "Eleven layouts with shared points; linear solver and minimizer are uninterpreted. " + TRUST)
prop("S02", "Solvers use every constraint's error, on its own primitives and parameters",
     "The errors which the solvers reduce are those of all constraints in the order of addition, each evaluated at the current values of the unknowns on the primitives and parameters it was added with; Newton steps use the derivatives of all of them, and the minimized objective is the sum of their squares with its gradient. "
     "Every constraint of the library can be assembled and differentiated by the solvers.",
     ["inputs", "programs"], "all layouts, all constraints, all parameters, all points",
     "a constraint that is dropped, evaluated at the wrong point or on the wrong parameters still lets simple layouts converge", [SO],
     [("residual", SO + ":assem_constraint_residual"), ("Newton", SO + ":solve_newton"), ("objective", SO + ":solve_minimize")], PV,
     "Constraints are uninterpreted functions, so errors cannot cancel; derivatives are symbolic. " + TRUST)
prop("S03", "Newton iterations take full steps, record errors and stop by the limits",
     "Each Newton iteration records the norm of all errors before its step, and that norm relative to the first one, and then adds the least squares solution of the linearized problem. "
     "Iterations go on exactly until the recorded absolute or relative error is within its tolerance or the maximum number of iterations is reached, and the result includes the step of the last iteration.",
     ["inputs", "histories"], "all layouts, all tolerances, all numbers of iterations",
     "tests look at the converged result only", [SO],
     [("loop", SO + ":solve_newton"), ("options", SO + ":solve")], PV,
     "Up to 3 (4) iterations with symbolic tolerances, all outcomes of the comparisons. " + TRUST)
prop("S04", "The selected solver is used, within its limits, and records its errors",
     "The named method is used and Newton is the default, while other names are rejected. "
     "The minimizing method runs without bounds or constraints for at most the given number of iterations, stops as soon as an intermediate absolute or relative error (norm of all errors) is within its tolerance, and both methods report lists of absolute and relative errors that belong to that call only.",
     ["configurations", "inputs", "histories"], "all methods, limits, tolerances, intermediate results",
     "tests run both methods on convergent layouts", [SO],
     [("dispatch", SO + ":solve"), ("callback", SO + ":solve_minimize")],
     "abstract interpretation against a stand-in minimizer with arbitrary intermediate results",
     "Up to four intermediate results with symbolic objectives and tolerances. " + TRUST)

# ------------------------------------------------------------------ matplotlib
prop("M01", "Figures, axes and axis labels get the sizes and positions of primitives",
     "After creating or updating a figure from primitives its size in inches is that of the figure primitive, and each axes and each axis label is where its primitive is, in inches from the bottom left corner of the figure primitive, wherever that corner is. "
     "Axis labels without a primitive and axes that are not given are left alone, primitives are not changed, and the latest update counts.",
     ["inputs", "histories", "configurations"], "all figure and axes rectangles, all combinations of axes parts, keys, nested axes, repeated updates",
     "the tests do not create figures; a figure at the origin hides offset errors", [MU],
     [("figure size, axes and labels", MU + ":update_subplots"), ("relative rectangle", MU + ":rect_from_box"), ("size", MU + ":width_and_height_from_quad")], PV,
     "Symbolic rectangles; matplotlib objects are stand-ins with the documented interface. " + TRUST)
prop("M02", "Axis ticks are on the side of the frame where the axis region is",
     "An axis region that lies outside along a side of the frame puts the ticks of its axis on that side, without a warning; otherwise the best aligned one of the sides that the axis can have is used, and a region that touches no side is reported by a warning. "
     "The ticks of an axis without a region stay where they are.",
     ["inputs", "configurations"], "all frames and regions, thin and thick, four sides",
     "the tests do not create figures", [MU],
     [("best side", MU + ":find_axis_position"), ("ticks", MU + ":update_subplots")], PV,
     "Symbolic rectangles and quadrilaterals in general position. " + TRUST)
prop("M03", "A new figure has exactly the axes of the primitives",
     "Creating a figure from primitives makes one new figure with one new axes for each given key, or without keys for each primitive directly below the root whose key contains the word Axes, and returns them under those keys in order. "
     "Keys without a primitive are reported as key errors.",
     ["inputs", "configurations"], "all selections of keys, other primitives in between, nested axes, repeated calls",
     "the tests do not create figures", [MU],
     [("selection and creation", MU + ":subplots")], PI,
     "One scene of primitives with axes in several places; all documented ways to select. " + TRUST)
prop("U01", "Drawings show every primitive once, where it is",
     "A drawing of primitives contains each point as a marker, each line of nonzero length as a segment between its ends and each polygon as a closed patch through its vertices, at any depth except for the points of lines, and nothing else. "
     "Each top-level primitive has one color from the color map, labels end in the key of their primitive, are at their point or at the first vertex of their polygon and are omitted below the label depth, and the primitives are not changed. Figures of primitives have equal scales and ticks at the given intervals.",
     ["inputs", "programs"], "all trees of primitives, all options",
     "the tests do not draw", [UI],
     [("recursion", UI + ":plot_prim"), ("dispatch", UI + ":make_plot"), ("colors", UI + ":plot_prims")], PI,
     "Each kind of primitive, alone and in trees; the canvas is a stand-in which records what is drawn. " + TRUST)
prop("U02", "Line labels are in the middle of their line, along its direction",
     "The label of a line is at its midpoint, rotated by the angle of the direction from its first to its second point, in all quadrants and along the axes.",
     ["inputs"], "all lines of nonzero length",
     "the tests do not draw", [UI], [("rotation", UI + ":rotation_from_line"), ("label", UI + ":plot_line")], PV,
     "Symbolic lines in each quadrant; trigonometric identities by random interpretation. " + TRUST)

NA = []


def na(id, title, statement, over, text, why, files, mechanism, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[{"name": n, "where": w} for n, w in mechanism], reason=reason, observe=[], state=[]))


na("N01", "Solvable layouts are solved to the requested accuracy",
   "For every layout whose constraints have a common solution near the starting primitives, solving with enough iterations gives primitives that satisfy all constraints within the requested tolerance.",
   ["inputs"], "all layouts and starting points in the basin of a solution", "tests solve a handful of layouts",
   [SO], [("Newton iterations", SO + ":solve_newton"), ("minimization", SO + ":solve_minimize")],
   "Convergence quantifies over floating point iterates and basins of attraction of nonlinear systems; no static argument over the source bounds these. What the source determines (errors, steps, stopping) is decided by S02, S03 and S04.")
na("N02", "Numerical results are accurate in floating point arithmetic",
   "Measurements and errors are accurate to a small multiple of the machine precision, also for nearly degenerate primitives.",
   ["inputs"], "all floating point coordinates", "tests compare with loose tolerances at random points",
   [CO, CR], [("formulas", CO + ":Angle.assem")],
   "Rounding errors depend on the runtime libraries (XLA fusion, BLAS) and on magnitudes of runtime values; the analysis decides identities over the reals.")
na("N03", "Rendered figures show ticks and labels inside their regions",
   "In a rendered figure ticks, tick labels and axis labels lie inside the regions which the layout reserved for them.",
   ["configurations"], "all matplotlib styles, backends, fonts", "the tests do not render",
   [MU, CR], [("thickness", CR + ":get_axis_thickness")],
   "Text extents come from fonts and renderers at run time; the part which the source determines is decided by R06, L03, M01 and M02.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
               "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P if "technique" in p]
    m = {"version": 1, "setup_cmd": "true", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if "reason" in p],
         "notes": "Static analysis of the syntax trees under /repo/src; the repository is never imported or run by a check. "
                  "Only the Python standard library is needed."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)


main()
