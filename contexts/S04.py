"""Choice of the solver, and the minimizing solver"""
from layouts import *
from mpllayout import solver


class Result:
    """access by key or attribute, like results of scipy"""

    def __init__(self, **kw):
        self.kw = kw

    def __getitem__(self, k):
        return self.kw[k]

    def __getattr__(self, k):
        if k in self.kw:
            return self.kw[k]
        raise AttributeError(k)

    def get(self, k, default=None):
        return self.kw.get(k, default)


calls = []
steps = [0]


def minimizer(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None,
              callback=None, options=None):
    """reports arbitrary intermediate results, until it is told to stop"""
    calls.append({"method": method, "options": options, "bounds": bounds, "constraints": constraints, "args": args, "stopped": None})
    for i in range(steps[0]):
        ok, e = attempt(lambda: callback(intermediate_result=Result(fun=objective(i), x=vec("mid" + str(i) + "_", x0.size))))
        if not ok:
            require(isinstance(e, StopIteration), "a callback only raises to stop")
            calls[-1]["stopped"] = i
            break
    return Result(x=vec("opt", x0.size), fun=0.0, success=True)


def objective(i):
    return sym("objective" + str(i), "+")


register_model("scipy.optimize.minimize", minimizer)


def setting():
    name = choose("layout", ["two points", "no constraints"])
    make, n, constraints = case = cases()[name]
    return case, layout_of(case, start_values(n))


def ctx_method_names():
    case, l = setting()
    method = choose("method", ["newton", "minimize"])
    solver.solve(l, max_iter=1, method=method)
    require(len(calls) == (1 if method == "minimize" else 0), "the given method is used")


def ctx_default_method_is_newton():
    case, l = setting()
    solver.solve(l, max_iter=1)
    require(calls == [], "the default method is newton")


def ctx_unknown_methods_are_rejected():
    case, l = setting()
    bad = choose("method", ["", "Newton", "newton-cg", "newton ", "min", "minimizer", " minimize", "MINIMIZE", None, 0, key("method")])
    assume(bad not in ("newton", "minimize"))
    steps[0] = 0
    require_raises((ValueError,), lambda: solver.solve(l, method=bad, max_iter=0), "an unknown method")
    require(calls == [], "no minimization")


def ctx_minimizer_limits():
    case, l = setting()
    n = choose("maximum number of iterations", [0, 1, 2, 10, 17, 1000])
    f = choose("call", [lambda: solver.solve(l, max_iter=n, method="minimize"), lambda: solver.solve(l, 1e-3, 1e-2, n, "minimize"),
                        lambda: solver.solve_minimize(l, max_iter=n)])
    f()
    require(len(calls) == 1, "one minimization")
    require(calls[0]["method"] == "L-BFGS-B", "the documented minimization")
    require(calls[0]["options"]["maxiter"] == n, "not more iterations than the maximum")
    require(calls[0]["bounds"] is None and calls[0]["constraints"] == (), "the minimization is unconstrained")


def ctx_minimizer_stops_and_records():
    case, l = setting()
    abs_tol, rel_tol = sym("abs_tol", "+"), sym("rel_tol", "+")
    steps[0] = choose("intermediate results", range(0, bound(4, 5)))
    root, info = solver.solve(l, abs_tol=abs_tol, rel_tol=rel_tol, method="minimize")
    stopped = calls[0]["stopped"]
    k = steps[0] if stopped is None else stopped + 1
    a, r = info["abs_errs"], info["rel_errs"]
    require(len(a) == k and len(r) == k, "one absolute and one relative error for each intermediate result")
    for i in range(k):
        require_equal(a[i], np.sqrt(objective(i)), "an absolute error is the 2-norm of the errors")
        require_equal(r[i] * a[0], a[i], "a relative error is relative to the first absolute error")
        if stopped == i:
            require(a[i] <= abs_tol or r[i] <= rel_tol, "minimization goes on while the errors are larger than the tolerances")
        else:
            require(a[i] >= abs_tol and r[i] >= rel_tol, "minimization stops as soon as an error is in its tolerance")


def ctx_both_solvers_return_the_same_kind_of_information():
    case, l = setting()
    steps[0] = 1
    method = choose("method", ["newton", "minimize"])
    out = solver.solve(l, max_iter=1, method=method)
    require(len(out) == 2, "primitives and information")
    require(isinstance(out[0], pr.PrimitiveNode), "a primitive")
    require_equal(sorted(out[1].keys()), ["abs_errs", "rel_errs"], "information about the iterations")
    for v in out[1].values():
        require(isinstance(v, list) and len(v) == 1, "a list with an error for each iteration")


def ctx_histories_are_not_shared():
    """errors of one solution do not show up in another one"""
    case, l = setting()
    method = choose("method", ["newton", "minimize"])
    before, after = choose("steps of the first and second solution", [(2, 2), (0, 2), (2, 0), (1, 2), (0, 0)])
    steps[0] = before
    _, first = solver.solve(l, abs_tol=-1, rel_tol=-1, max_iter=before, method=method)
    n = len(first["abs_errs"])
    if choose("the first errors are read and removed", [False, True]):
        first["abs_errs"].clear()
        first["rel_errs"].clear()
        n = 0
    steps[0] = after
    _, second = solver.solve(l, abs_tol=-1, rel_tol=-1, max_iter=after, method=method)
    require(len(first["abs_errs"]) == n and len(first["rel_errs"]) == n, "a solution leaves the errors of others alone")
    require(len(second["abs_errs"]) <= after + 1 and len(second["rel_errs"]) == len(second["abs_errs"]), "each solution has its own errors")
    require(first is not second, "own information")
    require(first["abs_errs"] is not second["abs_errs"] and first["rel_errs"] is not second["rel_errs"], "own lists")
    require(second["abs_errs"] is not second["rel_errs"], "own lists")
