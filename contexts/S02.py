"""Every constraint contributes its error, evaluated on the primitives and parameters it was added with"""
from layouts import *
from mpllayout import solver
import jax


class Result:
    def __init__(self, x):
        self.x = x

    def __getitem__(self, k):
        return {"x": self.x, "fun": 0.0}[k]


seen = {}


def minimizer(fun, x0, args=(), method=None, jac=None, callback=None, options=None, **kw):
    seen["fun"], seen["x0"], seen["jac"] = fun, x0, jac
    return Result(x0)


register_model("scipy.optimize.minimize", minimizer)


def setting():
    name = choose("layout", sorted(cases().keys()))
    make, n, constraints = case = cases()[name]
    return case, layout_of(case, start_values(n)), np.concatenate(start_values(n))


def ctx_newton_error_is_the_norm_of_all_errors():
    case, l, x = setting()
    _, info = solver.solve(l, abs_tol=-1, max_iter=1, method="newton")
    r = np.concatenate(residual_of(case, x))
    require(len(info["abs_errs"]) == 1, "one iteration, one error")
    require_equal(info["abs_errs"][0], np.sqrt(np.sum(r * r)), "the error is the 2-norm of the errors of all constraints")


def ctx_newton_step_uses_all_errors():
    case, l, x = setting()
    root, _ = solver.solve(l, abs_tol=-1, max_iter=1, method="newton")
    r = np.concatenate(residual_of(case, x))
    jac = jax.jacfwd(lambda y: jax.numpy.concatenate(residual_of(case, y)))(x)
    step = np.linalg.lstsq(jac, -r, rcond=None)[0]
    same_places(root, case, x + step, "after one iteration")


def ctx_minimization_objective():
    """the minimized function is the sum of squares of the errors, at every point, together with its gradient"""
    case, l, x = setting()
    solver.solve(l, method="minimize")
    require_equal(seen["x0"], x, "the minimization starts at the values of the layout")
    y = vec("y", x.size)
    v = seen["fun"](y)
    r = np.concatenate(residual_of(case, y))
    require_equal(v[0] if seen["jac"] is True else v, np.sum(r * r), "the objective is the sum of squares of all errors")
    grad = jax.grad(lambda z: jax.numpy.sum(jax.numpy.concatenate(residual_of(case, z)) ** 2))(y)
    require_equal(v[1] if seen["jac"] is True else seen["jac"](y), grad, "the gradient of the objective")


def ctx_direct_assembly():
    """residuals of a list of constraints, each with its own primitives and parameters"""
    case, l, x = setting()
    make, n, constraints = case
    out = solver.assem_constraint_residual(l.root_prim, [c for c, _, _ in constraints], [k for _, k, _ in constraints],
                                           [p for _, _, p in constraints])
    expected = residual_of(case, x)[1:]
    require(len(out) == len(expected), "one residual for each constraint")
    for a, b in zip(out, expected):
        require_equal(a, b, "a residual is the constraint at its primitives with its parameters")


def ctx_changing_any_parameter_changes_the_error():
    name = choose("layout", [k for k, v in cases().items() if v[2] and k != "empty constraints"])
    make, n, constraints = case = cases()[name]
    l = layout_of(case, start_values(n))
    _, info = solver.solve(l, abs_tol=-1, max_iter=1)
    i = choose("constraint", range(len(constraints)))
    c, keys, params = constraints[i]
    for j in range(len(params)):
        other = list(constraints)
        other[i] = (c, keys, tuple([sym("other") if k == j else p for k, p in enumerate(params)]))
        _, changed = solver.solve(layout_of((make, n, other), start_values(n)), abs_tol=-1, max_iter=1)
        require_nonzero(np.array([changed["abs_errs"][0] - info["abs_errs"][0]]), "a parameter of a constraint matters")


def ctx_library_constraints_are_traceable():
    """each constraint of the library can be assembled and differentiated by the solvers"""
    name, c, params = choose_entry("constraint", {
        k: v for k, v in list(value_constraints().items()) + list(relations().items()) if "Grid" not in k or "2, 2" in k})
    method = choose("method", ["newton", "minimize"])
    l = lay.Layout()
    prims = prims_for(c)
    for i, p in enumerate(prims):
        l.add_prim(p, "p" + str(i))
    l.add_constraint(c, tuple(["p" + str(i) for i in range(len(prims))]), params)
    if method == "newton":
        _, info = solver.solve(l, abs_tol=-1, max_iter=1)
        r = c(prims, *params)
        require_equal(info["abs_errs"][0], np.sqrt(np.sum(r * r)), name + ": error of a layout with this constraint only")
    else:
        solver.solve(l, method="minimize")
        v = seen["fun"](seen["x0"])
        r = c(prims, *params)
        require_equal(v[0] if seen["jac"] is True else v, np.sum(r * r), name + ": objective of a layout with this constraint only")


def ctx_any_number_of_constraints():
    n = choose("constraints", sizes(1, bound(11, 23), 130))
    case, l = many_constraints(n)
    x = np.concatenate(start_values(case[1]))
    r = np.concatenate(residual_of(case, x))
    if choose("method", ["newton", "minimize"]) == "newton":
        _, info = solver.solve(l, abs_tol=-1, max_iter=1, method="newton")
        require_equal(info["abs_errs"][0], np.sqrt(np.sum(r * r)), "the error is the 2-norm of the errors of all constraints")
    else:
        solver.solve(l, method="minimize")
        v = seen["fun"](x)
        require_equal(v[0] if seen["jac"] is True else v, np.sum(r * r), "the objective is the sum of squares of all errors")
