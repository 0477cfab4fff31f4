"""
numpy functions written in terms of those the array model provides.

The first parameter is the array module in use (numpy or jax.numpy). A call with an
argument that is not listed here stays undecided. Analysed, never executed.
"""


def swapaxes(xp, a, axis1, axis2):
    a = xp.asarray(a)
    p = list(range(a.ndim))
    p[axis1], p[axis2] = p[axis2], p[axis1]
    return xp.transpose(a, p)


def moveaxis(xp, a, source, destination):
    a = xp.asarray(a)
    src = [source] if isinstance(source, int) else list(source)
    dst = [destination] if isinstance(destination, int) else list(destination)
    src = [s % a.ndim for s in src]
    dst = [d % a.ndim for d in dst]
    p = [i for i in range(a.ndim) if i not in src]
    for d, s in sorted(zip(dst, src)):
        p.insert(d, s)
    return xp.transpose(a, p)


def diagonal(xp, a, offset=0):
    a = xp.asarray(a)
    n, m = a.shape
    return xp.array([a[i, i + offset] for i in range(n) if 0 <= i + offset < m], dtype=a.dtype)


def trace(xp, a, offset=0):
    return xp.sum(diagonal(xp, a, offset))


def diag(xp, v, k=0):
    v = xp.asarray(v)
    if v.ndim == 2:
        return diagonal(xp, v, k)
    n = v.shape[0] + abs(k)
    zero = 0 * v[0] if v.shape[0] else 0.0
    return xp.array([[v[min(i, j)] if j - i == k else zero for j in range(n)] for i in range(n)], dtype=v.dtype)


def triu(xp, m, k=0):
    m = xp.asarray(m)
    return xp.array([[m[i, j] if j - i >= k else 0 * m[i, j] for j in range(m.shape[1])] for i in range(m.shape[0])], dtype=m.dtype)


def tril(xp, m, k=0):
    m = xp.asarray(m)
    return xp.array([[m[i, j] if j - i <= k else 0 * m[i, j] for j in range(m.shape[1])] for i in range(m.shape[0])], dtype=m.dtype)


def dstack(xp, xs):
    out = []
    for x in xs:
        x = xp.atleast_2d(x)
        out.append(x.reshape(x.shape + (1,)) if x.ndim == 2 else x)
    return xp.concatenate(out, axis=2)


def compress(xp, condition, a, axis=None):
    a = xp.asarray(a)
    ks = [i for i, c in enumerate(condition) if c]
    return xp.take(a, ks, axis=axis)


def choose(xp, a, choices):
    a = xp.asarray(a)
    if a.ndim == 0:
        return xp.asarray(choices[int(a)])
    return xp.array([choices[int(k)][i] if xp.ndim(choices[int(k)]) else choices[int(k)] for i, k in enumerate(a)])


def nonzero(xp, a):
    a = xp.asarray(a)
    if a.ndim != 1:
        ks = [ix for ix in _indices(a.shape) if a[ix]]
        return tuple(xp.array([k[d] for k in ks], dtype=int) for d in range(a.ndim))
    return (xp.array([i for i in range(a.shape[0]) if a[i]], dtype=int),)


def argwhere(xp, a):
    a = xp.asarray(a)
    ks = [ix for ix in _indices(a.shape) if a[ix]]
    return xp.array(ks, dtype=int).reshape(len(ks), a.ndim)


def _indices(shape):
    out = [()]
    for n in shape:
        out = [ix + (i,) for ix in out for i in range(n)]
    return out


def count_nonzero(xp, a):
    return sum(1 for x in xp.ravel(a) if x)


def flipud(xp, m):
    return xp.asarray(m)[::-1]


def fliplr(xp, m):
    return xp.asarray(m)[:, ::-1]


def rot90(xp, m, k=1):
    m = xp.asarray(m)
    for _ in range(k % 4):
        m = xp.transpose(m)[::-1]
    return m


def broadcast_arrays(xp, *args):
    shape = broadcast_shapes(xp, *[xp.shape(a) for a in args])
    return tuple(xp.broadcast_to(a, shape) for a in args)


def broadcast_shapes(xp, *shapes):
    n = max([len(s) for s in shapes], default=0)
    out = [1] * n
    for s in shapes:
        for i, k in enumerate(s):
            j = n - len(s) + i
            if out[j] == 1:
                out[j] = k
            elif k not in (1, out[j]):
                raise ValueError("shape mismatch: objects cannot be broadcast to a single shape")
    return tuple(out)


def meshgrid(xp, *xi, indexing="xy"):
    xs = [xp.asarray(x) for x in xi]
    if len(xs) == 1:
        return [xs[0]]
    x, y = xs
    if indexing == "xy":
        return [xp.array([[x[j] for j in range(x.shape[0])] for i in range(y.shape[0])]),
                xp.array([[y[i] for j in range(x.shape[0])] for i in range(y.shape[0])])]
    return [xp.array([[x[i] for j in range(y.shape[0])] for i in range(x.shape[0])]),
            xp.array([[y[j] for j in range(y.shape[0])] for i in range(x.shape[0])])]


def indices(xp, dimensions):
    ixs = _indices(dimensions)
    return xp.array([[ix[d] for ix in ixs] for d in range(len(dimensions))], dtype=int).reshape((len(dimensions),) + tuple(dimensions))


def unique(xp, ar):
    xs = sorted(xp.ravel(ar))
    out = []
    for x in xs:
        if not out or out[-1] != x:
            out.append(x)
    return xp.array(out, dtype=xp.asarray(ar).dtype)


def median(xp, a):
    xs = sorted(xp.ravel(a))
    n = len(xs)
    return xs[n // 2] * 1.0 if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


def var(xp, a, axis=None, *, ddof=0):
    a = xp.asarray(a)
    d = a - xp.mean(a, axis=axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    return xp.sum(d * d, axis=axis) / (n - ddof)


def std(xp, a, axis=None, *, ddof=0):
    return xp.sqrt(var(xp, a, axis, ddof=ddof))


def ptp(xp, a, axis=None):
    return xp.max(a, axis=axis) - xp.min(a, axis=axis)


def insert(xp, arr, obj, values):
    arr = xp.ravel(arr)
    n = arr.shape[0]
    k = obj + n if obj < 0 else obj
    if not 0 <= k <= n:
        raise IndexError("index is out of bounds")
    return xp.concatenate([arr[:k], xp.ravel(values), arr[k:]])


def delete(xp, arr, obj, axis=None):
    arr = xp.asarray(arr)
    if axis is None:
        arr = xp.ravel(arr)
        axis = 0
    n = arr.shape[axis]
    if isinstance(obj, slice):
        ks = list(range(n))[obj]
    elif xp.ndim(obj):
        ks = [int(k) for k in obj]
    else:
        ks = [obj]
    for k in ks:
        if not -n <= k < n:
            raise IndexError("index is out of bounds")
    ks = [k % n for k in ks]
    return xp.take(arr, [i for i in range(n) if i not in ks], axis=axis)


def pad(xp, array, pad_width, mode="constant", *, constant_values=0):
    a = xp.asarray(array)
    if a.ndim != 1 or mode not in ("constant", "edge"):
        raise Undecided("pad")
    lo, hi = (pad_width, pad_width) if isinstance(pad_width, int) else tuple(pad_width)
    first, last = (a[0], a[-1]) if mode == "edge" else (constant_values, constant_values)
    return xp.concatenate([xp.full(lo, first), a, xp.full(hi, last)])


def isin(xp, element, test_elements, *, invert=False):
    tests = list(xp.ravel(test_elements))
    e = xp.asarray(element)
    if e.ndim == 0:
        return any(e == t for t in tests) != invert
    return xp.array([any(x == t for t in tests) != invert for x in xp.ravel(e)], dtype=bool).reshape(e.shape)


def in1d(xp, ar1, ar2, *, invert=False):
    return isin(xp, xp.ravel(ar1), ar2, invert=invert)


def intersect1d(xp, ar1, ar2):
    b = list(xp.ravel(ar2))
    return unique(xp, xp.array([x for x in xp.ravel(ar1) if any(x == y for y in b)], dtype=xp.asarray(ar1).dtype))


def union1d(xp, ar1, ar2):
    return unique(xp, xp.concatenate([xp.ravel(ar1), xp.ravel(ar2)]))


def setdiff1d(xp, ar1, ar2):
    b = list(xp.ravel(ar2))
    return unique(xp, xp.array([x for x in xp.ravel(ar1) if not any(x == y for y in b)], dtype=xp.asarray(ar1).dtype))


def searchsorted(xp, a, v, side="left"):
    def one(x):
        k = 0
        for y in a:
            if y < x or (side == "right" and y == x):
                k += 1
            else:
                break
        return k
    if xp.ndim(v) == 0:
        return one(v)
    return xp.array([one(x) for x in v], dtype=int)


def digitize(xp, x, bins, right=False):
    return searchsorted(xp, bins, x, "left" if right else "right")


def interp(xp, x, xp_, fp):
    def one(t):
        n = len(xp_)
        if t <= xp_[0]:
            return fp[0] * 1.0
        for i in range(1, n):
            if t <= xp_[i]:
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (t - xp_[i - 1]) / (xp_[i] - xp_[i - 1])
        return fp[n - 1] * 1.0
    if xp.ndim(x) == 0:
        return one(x)
    return xp.array([one(t) for t in x])


def ediff1d(xp, ary):
    return xp.diff(xp.ravel(ary))


def gradient(xp, f):
    f = xp.asarray(f)
    n = f.shape[0]
    return xp.array([f[1] - f[0]] + [(f[i + 1] - f[i - 1]) / 2 for i in range(1, n - 1)] + [f[n - 1] - f[n - 2]])


def vectorize(xp, pyfunc):
    def g(*args):
        args = broadcast_arrays(xp, *args)
        if args[0].ndim == 0:
            return xp.asarray(pyfunc(*[a[()] for a in args]))
        return xp.array([pyfunc(*xs) for xs in zip(*[xp.ravel(a) for a in args])]).reshape(args[0].shape)
    return g


def apply_along_axis(xp, func1d, axis, arr, *args, **kwargs):
    arr = xp.asarray(arr)
    if arr.ndim == 1:
        return xp.asarray(func1d(arr, *args, **kwargs))
    if arr.ndim != 2:
        raise Undecided("apply_along_axis of rank > 2")
    rows = arr if axis % 2 == 1 else xp.transpose(arr)
    r = xp.array([func1d(row, *args, **kwargs) for row in rows])
    return r if axis % 2 == 1 or r.ndim == 1 else xp.transpose(r)


def polyval(xp, p, x):
    r = 0.0 * x
    for c in p:
        r = r * x + c
    return r


def lexsort(xp, keys):
    n = len(keys[0])
    order = list(range(n))
    for k in keys:
        order = sorted(order, key=lambda i: k[i])
    return xp.array(order, dtype=int)


def bincount(xp, x, weights=None, minlength=0):
    n = max([int(k) + 1 for k in x] + [minlength])
    out = [0] * n
    for i, k in enumerate(x):
        out[int(k)] = out[int(k)] + (1 if weights is None else weights[i])
    return xp.array(out)


def iterable(xp, y):
    try:
        iter(y)
    except TypeError:
        return False
    return True


def kron(xp, a, b):
    a, b = xp.atleast_2d(a), xp.atleast_2d(b)
    return xp.array([[a[i, j] * b[k, l] for j in range(a.shape[1]) for l in range(b.shape[1])]
                     for i in range(a.shape[0]) for k in range(b.shape[0])])


def tensordot(xp, a, b, axes=2):
    if axes == 1:
        return xp.dot(a, b)
    if axes == 0:
        return xp.outer(a, b).reshape(xp.shape(a) + xp.shape(b))
    if axes == 2 and xp.ndim(a) == 2 and xp.ndim(b) == 2:
        return xp.sum(xp.asarray(a) * xp.asarray(b))
    raise Undecided("tensordot")


def logical_xor(xp, x1, x2):
    x1, x2 = broadcast_arrays(xp, x1, x2)
    if x1.ndim == 0:
        return bool(x1) != bool(x2)
    return xp.array([bool(p) != bool(q) for p, q in zip(xp.ravel(x1), xp.ravel(x2))], dtype=bool).reshape(x1.shape)


def isinf(xp, x):
    return ~xp.isfinite(x) if xp.ndim(x) else not xp.isfinite(x)


def put(xp, a, ind, v):
    v = list(xp.ravel(v))
    for n, i in enumerate(xp.ravel(ind)):
        a.flat[int(i)] = v[n % len(v)]


def copyto(xp, dst, src):
    dst[...] = src


def fill_diagonal(xp, a, val):
    for i in range(min(a.shape)):
        a[i, i] = val


def average(xp, a, axis=None, weights=None, *, keepdims=False):
    if weights is None:
        return xp.mean(a, axis=axis, keepdims=keepdims)
    a, w = xp.asarray(a), xp.asarray(weights)
    if axis is None:
        if w.shape != a.shape:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        return xp.sum(a * w) / xp.sum(w)
    if a.ndim == 1:
        return xp.sum(a * w) / xp.sum(w)
    if axis % 2 == 0:
        return xp.dot(w, a) / xp.sum(w)
    return xp.dot(a, w) / xp.sum(w)


def select(xp, condlist, choicelist, default=0):
    r = xp.asarray(default)
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = xp.where(c, x, r)
    return r


def tile(xp, A, reps):
    A = xp.asarray(A)
    reps = (reps,) if xp.ndim(reps) == 0 else tuple(reps)
    while A.ndim < len(reps):
        A = A[None]
    reps = (1,) * (A.ndim - len(reps)) + reps
    for d, n in enumerate(reps):
        if n != 1:
            A = xp.concatenate([A] * n, axis=d) if n else xp.take(A, [], axis=d)
    return xp.array(A)


def repeat(xp, a, repeats, axis=None):
    a = xp.asarray(a)
    if axis is None:
        a = xp.ravel(a)
        axis = 0
    n = a.shape[axis]
    rs = [int(repeats)] * n if xp.ndim(repeats) == 0 else [int(r) for r in repeats]
    if len(rs) == 1:
        rs = rs * n
    if len(rs) != n:
        raise ValueError("operands could not be broadcast together")
    return xp.take(a, [i for i in range(n) for _ in range(rs[i])], axis=axis)


def block(xp, arrays):
    if not isinstance(arrays, list):
        return xp.asarray(arrays)
    if any(isinstance(x, list) for x in arrays):
        rows = [xp.atleast_2d(block(xp, r)) for r in arrays]
        return xp.concatenate(rows, axis=0)
    xs = [xp.atleast_1d(x) for x in arrays]
    return xp.concatenate(xs, axis=xs[0].ndim - 1)


def array_split(xp, ary, indices_or_sections, axis=0):
    ary = xp.asarray(ary)
    n = ary.shape[axis]
    if xp.ndim(indices_or_sections) == 0:
        k = int(indices_or_sections)
        if k <= 0:
            raise ValueError("number sections must be larger than 0.")
        cuts, c = [], 0
        for i in range(k - 1):
            c += n // k + (1 if i < n % k else 0)
            cuts.append(c)
    else:
        cuts = [int(i) for i in indices_or_sections]
    pre = (slice(None),) * (axis % ary.ndim)
    return [ary[pre + (slice(p, q),)] for p, q in zip([0] + cuts, cuts + [n])]


def split(xp, ary, indices_or_sections, axis=0):
    ary = xp.asarray(ary)
    if xp.ndim(indices_or_sections) == 0 and ary.shape[axis] % int(indices_or_sections):
        raise ValueError("array split does not result in an equal division")
    return array_split(xp, ary, indices_or_sections, axis)


def hsplit(xp, ary, indices_or_sections):
    return split(xp, ary, indices_or_sections, 1 if xp.ndim(ary) > 1 else 0)


def vsplit(xp, ary, indices_or_sections):
    return split(xp, ary, indices_or_sections, 0)


def flip(xp, m, axis=None):
    m = xp.asarray(m)
    axes = list(range(m.ndim)) if axis is None else [axis] if isinstance(axis, int) else list(axis)
    axes = [a % m.ndim for a in axes]
    return m[tuple([slice(None, None, -1) if d in axes else slice(None) for d in range(m.ndim)])]


def roll(xp, a, shift, axis=None):
    a = xp.asarray(a)
    if axis is None:
        return roll(xp, xp.ravel(a), shift, 0).reshape(a.shape)
    n = a.shape[axis]
    return xp.take(a, [(i - shift) % n for i in range(n)], axis=axis)


def _cumulate(xp, a, axis, op):
    a = xp.asarray(a)
    if axis is None:
        a = xp.ravel(a)
        axis = 0
    rows = xp.moveaxis(a, axis, 0)
    out = []
    for r in rows:
        out.append(op(out[-1], r) if out else r)
    if not out:
        return xp.array(a)
    return xp.moveaxis(xp.stack(out), 0, axis)


def cumsum(xp, a, axis=None):
    return _cumulate(xp, a, axis, lambda x, y: x + y)


def cumprod(xp, a, axis=None):
    return _cumulate(xp, a, axis, lambda x, y: x * y)


def diff(xp, a, n=1, axis=-1):
    a = xp.asarray(a)
    for _ in range(n):
        k = a.shape[axis]
        a = xp.take(a, list(range(1, k)), axis=axis) - xp.take(a, list(range(k - 1)), axis=axis)
    return a


def append(xp, arr, values, axis=None):
    if axis is None:
        return xp.concatenate([xp.ravel(arr), xp.ravel(values)])
    return xp.concatenate([arr, values], axis=axis)


def squeeze(xp, a, axis=None):
    a = xp.asarray(a)
    axes = [d for d in range(a.ndim) if a.shape[d] == 1] if axis is None else \
        [axis % a.ndim] if isinstance(axis, int) else [d % a.ndim for d in axis]
    for d in axes:
        if a.shape[d] != 1:
            raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    return a.reshape(tuple([k for d, k in enumerate(a.shape) if d not in axes]))


def size(xp, a, axis=None):
    s = xp.shape(a)
    if axis is not None:
        return s[axis]
    n = 1
    for k in s:
        n *= k
    return n


def argsort(xp, a, axis=-1, *, kind=None, stable=None):
    a = xp.asarray(a)
    if axis is None:
        a = xp.ravel(a)
        axis = 0
    if a.ndim == 1:
        return xp.array(sorted(range(a.shape[0]), key=lambda i: a[i]), dtype=int)
    return apply_along_axis(xp, lambda r: argsort(xp, r), axis, a)


def sort(xp, a, axis=-1, *, kind=None, stable=None):
    a = xp.asarray(a)
    if axis is None:
        a = xp.ravel(a)
        axis = 0
    if a.ndim == 1:
        return xp.array(sorted(a), dtype=a.dtype)
    return apply_along_axis(xp, lambda r: sort(xp, r), axis, a)


def solve(xp, a, b):
    a, b = xp.asarray(a), xp.asarray(b)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise xp.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if b.shape[0] != a.shape[0]:
        raise ValueError("solve: mismatch in its core dimension")
    if singular(a):
        raise xp.linalg.LinAlgError("Singular matrix")
    return xp.linalg.pinv(a) @ b


def inv(xp, a):
    a = xp.asarray(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise xp.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if singular(a):
        raise xp.linalg.LinAlgError("Singular matrix")
    return xp.linalg.pinv(a)


def singular(a):
    n = a.shape[0]
    for i in range(n):
        if all(a[i, j] == 0 for j in range(n)) or all(a[j, i] == 0 for j in range(n)):
            return True
    return is_singular(a)


def _ufunc_reduce(xp, fn, ident, array, axis=0, *, keepdims=False, initial=None):
    a = xp.asarray(array)
    axes = list(range(a.ndim)) if axis is None else [axis % a.ndim] if isinstance(axis, int) else [x % a.ndim for x in axis]
    first = ident if initial is None else initial
    r = a
    for d in sorted(axes, reverse=True):
        rows = [xp.take(r, i, axis=d) for i in range(r.shape[d])]
        if rows:
            t = rows[0]
            for row in rows[1:]:
                t = fn(t, row)
        elif first is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        else:
            t = xp.full(r.shape[:d] + r.shape[d + 1:], first)
        r = xp.asarray(t)
    if initial is not None:
        r = fn(initial, r)
    if keepdims:
        return xp.reshape(r, tuple([1 if d in axes else n for d, n in enumerate(a.shape)]))
    return xp.asarray(r)[()] if xp.ndim(r) == 0 else r


def _ufunc_accumulate(xp, fn, ident, array, axis=0):
    return _cumulate(xp, array, axis, fn)


def _ufunc_outer(xp, fn, ident, A, B):
    A, B = xp.asarray(A), xp.asarray(B)
    return fn(A.reshape(A.shape + (1,) * B.ndim), B)


def _ufunc_at(xp, fn, ident, a, indices, b=None):
    if b is None:
        raise Undecided("unary ufunc.at")
    idx = list(xp.ravel(indices))
    bs = xp.broadcast_to(b, (len(idx),) + a.shape[1:])
    for i, k in enumerate(idx):
        a[k] = fn(a[k], bs[i])


class _R:
    def __init__(self, xp):
        self.xp = xp

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        out = []
        for k in key:
            if isinstance(k, slice):
                out.append(self.xp.arange(0 if k.start is None else k.start, k.stop, 1 if k.step is None else k.step))
            elif isinstance(k, str):
                raise Undecided("r_ with a directive")
            else:
                if self.xp.ndim(k) > 1:
                    raise Undecided("r_ of matrices")
                out.append(self.xp.atleast_1d(k))
        return self.xp.concatenate(out)


class _C:
    def __init__(self, xp):
        self.xp = xp

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (slice, str)) for k in key):
            raise Undecided("c_ with slices")
        return self.xp.column_stack([self.xp.atleast_1d(k) for k in key])


class _S:
    def __getitem__(self, key):
        return key




def vmap(xp, fun, in_axes=0, out_axes=0):
    if out_axes != 0:
        raise Undecided("vmap(out_axes)")

    def mapped(*args):
        axes = [in_axes] * len(args) if isinstance(in_axes, int) or in_axes is None else list(in_axes)
        if any(a not in (0, None) for a in axes):
            raise Undecided("vmap(in_axes)")
        ns = [len(x) for x, a in zip(args, axes) if a == 0]
        if not ns:
            raise ValueError("vmap must have at least one non-None value in in_axes")
        if any(n != ns[0] for n in ns):
            raise ValueError("vmap got inconsistent sizes for array axes to be mapped")
        rows = [fun(*[x[i] if a == 0 else x for x, a in zip(args, axes)]) for i in range(ns[0])]
        return tree_stack(rows)

    def tree_stack(rows):
        if isinstance(rows[0], tuple):
            return tuple(tree_stack([r[i] for r in rows]) for i in range(len(rows[0])))
        return xp.stack([xp.asarray(r) for r in rows])
    return mapped


def copysign(xp, x, y):
    return xp.where(xp.asarray(y) >= 0, xp.abs(x), -xp.abs(x))


def heaviside(xp, x, h):
    x = xp.asarray(x)
    return xp.where(x < 0, 0.0, xp.where(x > 0, 1.0, h))


def piecewise(xp, x, conds, funcs):
    x = xp.asarray(x)
    conds = [xp.asarray(c) for c in conds]
    if len(funcs) not in (len(conds), len(conds) + 1):
        raise ValueError("number of conditions and functions does not fit")

    def value(f, e):
        return f(e) if callable(f) else f
    out = []
    for i, e in enumerate(x.ravel()):
        hit = [f for c, f in zip(conds, funcs) if c.ravel()[i]]
        if hit:
            out.append(value(hit[-1], e))
        else:
            out.append(value(funcs[-1], e) if len(funcs) > len(conds) else 0)
    return xp.array(out, dtype=x.dtype).reshape(x.shape)


def trapezoid(xp, y, x=None, dx=1.0):
    y = xp.asarray(y)
    if y.ndim != 1:
        raise Undecided("trapezoid of rank != 1")
    d = dx if x is None else xp.diff(xp.asarray(x))
    return xp.sum((y[1:] + y[:-1]) / 2 * d)


def sinh(xp, x):
    return (xp.exp(x) - xp.exp(-xp.asarray(x))) / 2


def cosh(xp, x):
    return (xp.exp(x) + xp.exp(-xp.asarray(x))) / 2


def tanh(xp, x):
    return sinh(xp, x) / cosh(xp, x)


def log1p(xp, x):
    return xp.log(1 + xp.asarray(x))


def expm1(xp, x):
    return xp.exp(x) - 1


def fmod(xp, x, y):
    x, y = xp.asarray(x), xp.abs(y)
    return xp.where(x >= 0, xp.abs(x) % y, -(xp.abs(x) % y))


def quantile(xp, a, q, axis=None):
    if axis is not None:
        raise Undecided("quantile(axis)")
    s = xp.sort(xp.ravel(xp.asarray(a)))
    if isinstance(q, (int, float)):
        h = q * (len(s) - 1)
        k = min(int(h), len(s) - 1)
        return s[k] + (h - k) * (s[min(k + 1, len(s) - 1)] - s[k])
    return xp.array([quantile(xp, a, x) for x in q])


def percentile(xp, a, q, axis=None):
    return quantile(xp, a, q / 100 if isinstance(q, (int, float)) else [x / 100 for x in q], axis)
