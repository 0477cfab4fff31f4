"""The result of solving, and what solving leaves alone"""
from layouts import *
from mpllayout import solver


class Result:
    def __init__(self, **kw):
        self.kw = kw

    def __getitem__(self, k):
        return self.kw[k]

    def __getattr__(self, k):
        if k in self.kw:
            return self.kw[k]
        raise AttributeError(k)

    def get(self, k, default=None):
        return self.kw.get(k, default)


def minimizer(fun, x0, args=(), method=None, jac=None, callback=None, options=None, **kw):
    """an arbitrary point"""
    y = vec("opt", x0.size)
    fun(x0)
    return Result(x=y, fun=sym("optfun"), success=True, nit=1, message="")


register_model("scipy.optimize.minimize", minimizer)

METHODS = ("newton", "minimize")


def run(method, l, n):
    return solver.solve(l, max_iter=n, method=method) if method == "newton" else solver.solve(l, method=method)


def ctx_layout_is_left_alone():
    """solving changes nothing reachable from the layout"""
    name = choose("layout", sorted(cases().keys()))
    method = choose("method", METHODS)
    case = cases()[name]
    l = layout_of(case, start_values(case[1]))
    before = snapshot(l)
    run(method, l, 1)
    require_unchanged(before, l, "the layout, its primitives, constraints and parameters are left alone")


def ctx_result_is_independent():
    """the result shares no array and no primitive with the layout"""
    name = choose("layout", sorted(cases().keys()))
    method = choose("method", METHODS)
    n = choose("iterations", [0, 1]) if method == "newton" else 1
    case = cases()[name]
    l = layout_of(case, start_values(case[1]))
    root, _ = run(method, l, n)
    require(root is not l.root_prim, "the result is another tree")
    inputs = [v for _, v in walk(l.root_prim)]
    for p, node in walk(root):
        for v in inputs:
            require(node is not v, "a primitive of the result is not one of the layout")
            if node.value.size > 0:
                require(not same_storage(node.value, v.value), "a value of the result is not one of the layout")


def ctx_result_has_the_structure_of_the_layout():
    """same keys, order, kinds and sharing of primitives, whatever the values"""
    name = choose("layout", sorted(cases().keys()))
    method = choose("method", METHODS)
    n = choose("iterations", [0, 1, 2]) if method == "newton" else 1
    make, count, _ = case = cases()[name]
    l = layout_of(case, start_values(count))
    root, _ = solver.solve(l, abs_tol=0, rel_tol=-1, max_iter=n, method=method)
    require(type(root) is type(l.root_prim), "the root of the result has the kind of the root of the layout")
    a, b = walk(l.root_prim), walk(root)
    require_equal([p for p, _ in b], [p for p, _ in a], "paths of the result in order")
    for (p, u), (_, v) in zip(a, b):
        require(type(u) is type(v), "kinds of primitives")
        require(isinstance(v.value, np.ndarray) and v.value.shape == u.value.shape, "values are arrays of the same shape")
        require(array_kind(v.value) == "np", "values are plain arrays")
    full = [i for i, (_, u) in enumerate(a) if u.value.size > 0]
    for i in full:
        for j in full:
            require((a[i][1].value is a[j][1].value) == (b[i][1].value is b[j][1].value),
                    "shared values stay shared and others stay apart")


def ctx_minimizer_result_is_returned():
    name = choose("layout", sorted(cases().keys()))
    make, count, _ = case = cases()[name]
    l = layout_of(case, start_values(count))
    root, _ = solver.solve(l, method="minimize")
    same_places(root, case, vec("opt", sum(sizes_of(count))), "result of the minimization")


def ctx_solving_again():
    """a result can be the start of another layout, and solving twice gives the same result"""
    name = choose("layout", ["two points", "a common point", "a compound", "one point under two keys"])
    make, count, constraints = case = cases()[name]
    l = layout_of(case, start_values(count))
    first, _ = solver.solve(l, max_iter=1)
    second, _ = solver.solve(l, max_iter=1)
    for (_, u), (_, v) in zip(walk(first), walk(second)):
        require_equal(u.value, v.value, "solving again gives the same result")
