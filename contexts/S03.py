"""Newton iterations: steps, recorded errors and stopping"""
from layouts import *
from mpllayout import solver
import jax


def setting():
    name = choose("layout", ["two points", "a common point", "no constraints", "one point under two keys"]
                  + (["a compound", "one constraint several times"] if TIER == "thorough" else []))
    make, n, constraints = case = cases()[name]
    return case, layout_of(case, start_values(n)), np.concatenate(start_values(n))


def residual(case, x):
    return np.concatenate(residual_of(case, x))


def newton_step(case, x):
    jac = jax.jacfwd(lambda y: jax.numpy.concatenate(residual_of(case, y)))(x)
    return x + np.linalg.lstsq(jac, -residual(case, x), rcond=None)[0]


def norm(r):
    return np.sqrt(np.sum(r * r))


def check_iterations(case, l, x, max_iter):
    abs_tol, rel_tol = sym("abs_tol", "+"), sym("rel_tol", "+")
    root, info = solver.solve(l, abs_tol, rel_tol, max_iter)
    a, r = info["abs_errs"], info["rel_errs"]
    k = len(a)
    require(len(r) == k, "one absolute and one relative error for each iteration")
    require(k <= max_iter, "not more iterations than the maximum")
    require(k > 0 or max_iter == 0, "at least one iteration")
    points = [x]
    for i in range(k):
        points.append(newton_step(case, points[i]))
    same_places(root, case, points[k], "after each iteration the least squares solution of the linearized problem is added")
    for i in range(k):
        require_equal(a[i], norm(residual(case, points[i])), "absolute error of each iteration")
    if k > 0 and len(case[2]) > 0:
        for i in range(k):
            require_equal(r[i] * a[0], a[i], "relative error of each iteration")
    for i in range(k - 1):
        require(a[i] > abs_tol and r[i] > rel_tol, "iterations stop as soon as an error is in its tolerance")
    if 0 < k < max_iter and len(case[2]) > 0:
        require(a[k - 1] <= abs_tol or r[k - 1] <= rel_tol, "iterations go on while the errors are larger than the tolerances")


def ctx_iterations():
    """any number of iterations, with arbitrary tolerances"""
    case, l, x = setting()
    check_iterations(case, l, x, choose("maximum number of iterations", range(0, bound(4, 6))))


def ctx_many_iterations():
    """a large number of iterations"""
    case = cases()["two points"]
    l, x = layout_of(case, start_values(case[1])), np.concatenate(start_values(case[1]))
    check_iterations(case, l, x, choose("maximum number of iterations", [7, bound(12, 24)]))


def ctx_tolerances_are_separate():
    """either tolerance is enough to stop"""
    case, l, x = setting()
    assume(len(case[2]) > 0)
    which = choose("large tolerance", ["absolute", "relative", "none"])
    big = 1 + norm(residual(case, x))
    _, info = solver.solve(l, abs_tol=big if which == "absolute" else -1, rel_tol=2 if which == "relative" else -1,
                           max_iter=2)
    require(len(info["abs_errs"]) == (2 if which == "none" else 1), "a large tolerance stops after the first iteration")


def ctx_keyword_and_positional_arguments():
    case, l, x = setting()
    f = choose("call", [
        lambda: solver.solve(l, -1, -1, 2), lambda: solver.solve(l, -1, -1, 2, "newton"),
        lambda: solver.solve(l, abs_tol=-1, rel_tol=-1, max_iter=2, method="newton"),
        lambda: solver.solve_newton(l, -1, -1, 2), lambda: solver.solve_newton(l, max_iter=2, rel_tol=-1, abs_tol=-1)])
    assume(len(case[2]) > 0)
    root, info = f()
    require(len(info["abs_errs"]) == 2, "the number of iterations")
    same_places(root, case, newton_step(case, newton_step(case, x)), "after two iterations")


def ctx_information():
    case, l, x = setting()
    _, info = solver.solve(l, abs_tol=-1, max_iter=1)
    require(set(info.keys()) >= {"abs_errs", "rel_errs"}, "the documented information")
    require(isinstance(info["abs_errs"], list) and isinstance(info["rel_errs"], list), "errors are lists")
    if len(case[2]) > 0:
        require_equal(info["rel_errs"][0], 1, "the first relative error is one")

