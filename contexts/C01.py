from common import *
from mpllayout import containers as cn


def make(path, children):
    return cn.Node(opaque(tag(path)), children)


def ctx_lookup_agrees_with_structure():
    t = choose_tree(make, bound(5, 6))
    for path, node in walk(t):
        if path == ():
            continue
        k = join_path(path)
        require(k in t, "membership of an existing path")
        require_same(t[k], node, "indexing an existing path")
        require_same(t.get_child(k), node, "getting an existing path")
        # relative lookup composes
        for n in range(1, len(path)):
            head, tail = join_path(path[:n]), join_path(path[n:])
            require_same(t[head][tail], node, "lookup in steps")
            require(tail in t[head], "membership in steps")


def ctx_missing_paths_are_absent_and_raise():
    t = choose_tree(make, bound(4, 5))
    new = key("absent")
    paths = [p for p, _ in walk(t)]
    all_keys = []
    for p in paths:
        for k in p:
            if k not in all_keys:
                all_keys.append(k)
    tried = []
    for p in paths:
        for k in all_keys + [new]:
            for q in (p + (k,), p + (k, new), p + (new, k)):
                if q not in paths and q not in tried:
                    tried.append(q)
    for q in tried:
        s = join_path(q)
        ok, r = attempt(lambda: s in t)
        require(ok, "membership of a missing path does not raise")
        require(not r, "membership of a missing path is false")
        require_raises(KeyError, lambda: t[s], "indexing a missing path")
        require_raises(KeyError, lambda: t.get_child(s), "getting a missing path")
    for p in paths[1:]:
        s = join_path(p)
        for bad in (s + "/", "/" + s, s + "//" + new):
            ok, r = attempt(lambda: bad in t)
            require(ok and not r, "a path with an empty component is absent")
            require_raises(KeyError, lambda: t[bad], "indexing a path with an empty component")


def ctx_positional_access():
    t = choose_tree(make, bound(4, 5))
    for path, node in walk(t):
        ks = list(node.children)
        cs = [node.children[k] for k in ks]
        n = len(ks)
        require(len(node) == n, "length is the number of children")
        require_equal(node.keys(), ks, "keys in order")
        require_equal(list(node), ks, "iteration over keys in order")
        require_equal(node.values(), cs, "values in order")
        require_equal(list(node.items()), list(zip(ks, cs)), "items in order")
        for i in range(n):
            require_same(node[i], cs[i], "integer index")
            require_same(node[i - n], cs[i], "negative index")
        for i in (n, n + 1, -n - 1):
            require_raises(IndexError, lambda: node[i], "index out of range")
        require_equal(node[:], cs, "full slice")
        require_equal(node[1:], cs[1:], "tail slice")
        require_equal(node[:-1], cs[:-1], "head slice")
        for i, j, k in ((None, None, 2), (None, None, -1), (None, None, -2), (1, 3, None), (-2, None, None), (None, -2, None), (-1, 0, -1),
                        (2, None, -1), (0, 2 * n + 1, None), (n, None, None), (None, None, n + 1)):
            require_equal(node[i:j:k], cs[i:j:k], "other slices")


def ctx_other_index_types_are_rejected():
    t = choose_tree(make, 3, ("distinct",))
    for bad in (None, 1.5, (0,), ("a",), b"a"):
        require_raises(TypeError, lambda: t[bad], "indexing with another type")


def ctx_assignment_replaces_exactly_one_node():
    t = choose_tree(make, bound(4, 5))
    nodes = walk(t)
    target = choose("assigned path", [p for p, _ in nodes[1:]])
    new = build_tree(choose("new subtree", [(), ((), ((),))]), make, "reused")
    t[join_path(target)] = new
    require_same(t[join_path(target)], new, "lookup after assignment")
    for p, node in nodes:
        if p == target:
            continue
        if p[:len(target)] == target:
            continue
        if p == ():
            continue
        require(join_path(p) in t, "other paths stay")
        require_same(t[join_path(p)], node, "other nodes stay")
    expected = []
    for p, node in nodes:
        if p == target:
            expected = expected + [target + q for q, _ in walk(new)]
        elif p[:len(target)] != target:
            expected.append(p)
    require_equal([p for p, _ in walk(t)], expected, "assignment keeps the order of paths")


def ctx_assignment_to_missing_path_is_rejected():
    t = choose_tree(make, bound(4, 5))
    nodes = walk(t)
    p = choose("parent", [p for p, _ in nodes])
    new = key("absent")
    s = choose("path", [join_path(p + (new,)), join_path((new,) + p), join_path(p + (new, new))])
    before = snapshot(t)
    child = make((9,), {})

    def assign():
        t[s] = child
    require_raises(KeyError, assign, "assignment to a missing path")
    require_unchanged(before, t, "a rejected assignment")


def ctx_height_of_larger_trees():
    """trees with a deep branch next to a bushy one"""
    def chain(n):
        return make((n,), {} if n == 0 else {key("k" + str(n)): chain(n - 1)})

    def bush(n, d):
        return make((n, d), {} if d == 0 else {key("b" + str(i)): bush(i, d - 1) for i in range(n)})
    parts = choose("branches", [(("c", 3), ("b", 2, 1)), (("b", 2, 1), ("c", 3)), (("b", 3, 2), ("c", 1)), (("c", 1), ("b", 3, 2)),
                                (("c", 0), ("c", 4), ("b", 4, 1)), (("b", 4, 1), ("b", 2, 3), ("c", 5), ("c", 0)), (("b", 5, 1), ("b", 1, 2))])
    t = make((), {key("p" + str(i)): chain(x[1]) if x[0] == "c" else bush(x[1], x[2]) for i, x in enumerate(parts)})
    for path, node in walk(t):
        require(node.node_height() == max([len(p) for p, _ in walk(node)]), "height is the longest path below")


def ctx_height():
    t = choose_tree(make, bound(6, 8), ("distinct",))
    for path, node in walk(t):
        require(node.node_height() == max([len(p) for p, _ in walk(node)]), "height is the longest path below")
