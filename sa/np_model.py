"""Transfer functions for small numpy / jax.numpy arrays of value numbers."""
from fractions import Fraction
import inspect
import itertools
import math

from . import terms as T
from .terms import Inconclusive, RF
from .interp import Arr, Builtin, Bound, Cls, GenObj, NTuple, Num, Obj, Opaque, OpaqueFn, TypeExpr, PyExc
from . import builtins_model as B
from .astr import AStr


class SymBool:
    """An undecided comparison (decided, i.e. partitioned, when its truth is needed)."""
    __slots__ = ("d", "want", "op", "val")

    def __init__(self, d=None, want=None, op=None, val=()):
        self.d, self.want, self.op, self.val = d, want, op, val

    def __repr__(self):
        return f"({self.d!r} in {self.want})" if self.op is None else f"{self.op}{self.val}"


def decide(I, e):
    if isinstance(e, SymBool):
        if e.op == "not":
            return not decide(I, e.val[0])
        if e.op == "and":
            return all(decide(I, x) for x in e.val)
        if e.op == "or":
            return any(decide(I, x) for x in e.val)
        if e.op == "opaque":
            return I.decide(e.val[0], e.val[1])
        return I.sign_of(e.d, e.want)
    if isinstance(e, RF):
        return I.sign_of(e, "+-")
    if isinstance(e, (bool, int, float)):
        return bool(e)
    return I.truth(e)


def num(e):
    if isinstance(e, RF):
        return e
    if isinstance(e, (bool, int, float, Fraction)):
        return T.from_number(e)
    if isinstance(e, Num):
        return e.t
    if isinstance(e, SymBool):
        return indicator(e)
    raise Inconclusive(f"numeric use of {e!r}")


def indicator(e):
    """a comparison as a number, 0 or 1"""
    one = RF.const(1)
    if isinstance(e, bool):
        return RF.const(int(e))
    if not isinstance(e, SymBool):
        raise Inconclusive(f"numeric use of {e!r}")
    if e.op == "not":
        return one - indicator(e.val[0])
    if e.op in ("and", "or"):
        r = one
        for x in e.val:
            r = r * (indicator(x) if e.op == "and" else one - indicator(x))
        return r if e.op == "and" else one - r
    if e.op is not None:
        return T.app("ind", repr(e), sign="0+")
    s = ufn(None, "sign")(e.d)
    pos, neg, zero = (s * s + s) / RF.const(2), (s * s - s) / RF.const(2), one - s * s
    r = RF({})
    for c, t in (("+", pos), ("-", neg), ("0", zero)):
        if c in e.want:
            r = r + t
    return r


def isarr(v):
    return isinstance(v, Arr)


def scalar(I, e, dtype):
    """numpy scalar"""
    if dtype == "bool":
        return decide(I, e) if isinstance(e, SymBool) else bool(e) if isinstance(e, (bool, int)) else I.truth(e)
    if dtype == "object":
        return e
    e = num(e)
    return Num(e, "np.int64" if dtype.startswith("int") else "np.float64")


def ret(I, kind, shape, elems, dtype="float64"):
    shape = tuple(shape)
    if kind == "np" and shape == ():
        return scalar(I, elems[0], dtype)
    return Arr(shape, elems, kind, dtype)


def size_of(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def asarr(I, v, kind=None):
    """Convert to Arr (sharing when already an Arr)."""
    if isinstance(v, Arr):
        return v
    k = type(v)
    if isinstance(v, bool):
        return Arr((), [v], kind or "np", "bool")
    if isinstance(v, int):
        return Arr((), [RF.const(v)], kind or "np", "int64")
    if isinstance(v, float):
        return Arr((), [T.from_number(v)], kind or "np", "float64")
    if isinstance(v, Num):
        return Arr((), [v.t], kind or "np", "int64" if "int" in v.ty else "float64")
    if isinstance(v, (tuple, list, range)):
        items = [asarr(I, x, kind) for x in v]
        if not items:
            return Arr((0,), [], kind or "np", "float64")
        sh = items[0].shape
        if any(x.shape != sh for x in items):
            raise I.exc(ValueError, "setting an array element with a sequence (inhomogeneous shape)")
        el = []
        dt = items[0].dtype
        for x in items:
            el.extend(x.elems)
            dt = promote(dt, x.dtype)
        kk = "np"
        for x in items:
            if x.kind == "trc":
                kk = "trc"
            elif x.kind == "jnp" and kk == "np":
                kk = "jnp"
        return Arr((len(items),) + sh, el, kk if kk != "np" else (kind or "np"), dt)
    if isinstance(v, Obj):
        m = I.lookup(v.cls, "__array__")
        if m is not None:
            return asarr(I, I.call(I.bind(m, v, v.cls), []), kind)
        return Arr((), [v], kind or "np", "object")
    if isinstance(v, SymBool):
        return Arr((), [v], kind or "np", "bool")
    if isinstance(v, (GenObj,)) or v is None or isinstance(v, (str, AStr, dict, set)):
        return Arr((), [v], kind or "np", "object")
    if isinstance(v, Opaque):
        if v.ty is None:
            raise Inconclusive(f"array conversion of opaque {v!r}")
        return Arr((), [v], kind or "np", "object")
    raise Inconclusive(f"array conversion of {v!r}")


def promote(a, b):
    order = ["bool", "int64", "float32", "float64", "object"]
    def n(x):
        if x.startswith("int"):
            return "int64"
        return x
    return max(n(a), n(b), key=order.index)


def bcast(I, sa, sb):
    out = []
    for i in range(max(len(sa), len(sb))):
        x = sa[len(sa) - 1 - i] if i < len(sa) else 1
        y = sb[len(sb) - 1 - i] if i < len(sb) else 1
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            raise I.exc(ValueError, f"operands could not be broadcast together with shapes {sa} {sb}")
    return tuple(reversed(out))


def bget(a, shape):
    """elements of `a` broadcast to shape, flat"""
    if a.shape == shape:
        return a.elems
    el = a.elems
    off = len(shape) - len(a.shape)
    st = []
    n = 1
    for s in reversed(a.shape):
        st.append(n)
        n *= s
    st = list(reversed(st))
    out = []
    for lin in range(size_of(shape)):
        rem = lin
        pos = 0
        idx = []
        for s in reversed(shape):
            idx.append(rem % s if s else 0)
            rem //= s if s else 1
        idx.reverse()
        for d, s in enumerate(a.shape):
            pos += (0 if s == 1 else idx[off + d]) * st[d]
        out.append(el[pos])
    return out


def outkind(*vs):
    ks = {v.kind for v in vs if isinstance(v, Arr)}
    if "trc" in ks:
        return "trc"
    return "jnp" if "jnp" in ks else "np"


def elementwise(I, f, dtype, *vs, kind=None):
    arrs = [asarr(I, v) for v in vs]
    sh = ()
    for a in arrs:
        sh = bcast(I, sh, a.shape)
    cols = [bget(a, sh) for a in arrs]
    el = [f(*xs) for xs in zip(*cols)] if size_of(sh) else []
    return ret(I, kind or outkind(*arrs), sh, el, dtype)


def emap(a, f, dtype=None):
    return Arr(a.shape, [f(e) for e in a.elems], a.kind, dtype or a.dtype)


def binop(I, op, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Arr) and x.kind != "np" and isinstance(y, (list, tuple)):
            raise I.exc(TypeError, f"unsupported operand type(s) for {op}: jax array and {I.tname(y)}")
        if isinstance(y, (str, AStr, dict, set)) or y is None:
            raise I.exc(TypeError, f"unsupported operand type(s) for {op}: array and {I.tname(y)}")
    if op == "@":
        return matmul(I, a, b)
    x, y = asarr(I, a), asarr(I, b)
    dt = promote(x.dtype, y.dtype)
    if dt == "object":
        raise Inconclusive("object array arithmetic")
    if op in ("&", "|") and dt == "bool":
        return elementwise(I, lambda p, q: SymBool(op="and" if op == "&" else "or", val=(p, q)), "bool", x, y)
    if op == "/":
        dt = "float64"
    if dt == "bool":
        dt = "int64"
    if op == "**" and dt == "int64":
        for e in y.elems:
            if num(e).is_const() and num(e).const_value() < 0 and outkind(x, y) == "np":
                raise I.exc(ValueError, "Integers to negative integer powers are not allowed.")
            if num(e).is_const() and num(e).const_value() < 0 and y.shape == ():
                raise I.exc(TypeError, "Integers cannot be raised to negative powers")
    return elementwise(I, lambda p, q: B.rf_op(I, op, num(p), num(q)), dt, x, y)


CMP = {"<": "-", "<=": "-0", ">": "+", ">=": "+0", "==": "0", "!=": "+-"}


def compare(I, op, a, b):
    if b is None or isinstance(b, (str, AStr)) or isinstance(b, Obj) or a is None or isinstance(a, Obj):
        if op == "==":
            return False
        if op == "!=":
            return True
    x, y = asarr(I, a), asarr(I, b)
    if x.dtype == "object" or y.dtype == "object":
        raise Inconclusive("comparison of object arrays")
    try:
        bcast(I, x.shape, y.shape)
    except PyExc:
        if op in ("==", "!="):
            raise
        raise

    def f(p, q):
        d = num(p) - num(q)
        if d.is_const():
            c = d.const_value()
            return ("+" if c > 0 else "-" if c < 0 else "0") in CMP[op]
        return SymBool(d, CMP[op])
    inf = float("inf")
    for u, v, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
        if isinstance(u, float) and u in (inf, -inf):
            r = (u > 0) == (o in (">", ">=")) if o not in ("==", "!=") else o == "!="
            return elementwise(I, lambda p: r, "bool", v)
    return elementwise(I, f, "bool", x, y)


def matmul(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    k = outkind(x, y)
    if not x.shape or not y.shape:
        raise I.exc(ValueError, "matmul: scalar operand")
    if len(x.shape) > 2 or len(y.shape) > 2:
        raise Inconclusive("matmul of rank > 2")
    x2 = x.shape if len(x.shape) == 2 else (1,) + x.shape
    y2 = y.shape if len(y.shape) == 2 else y.shape + (1,)
    if x2[1] != y2[0]:
        raise I.exc(ValueError, f"shapes {x.shape} and {y.shape} not aligned")
    xe, ye = [num(e) for e in x.elems], [num(e) for e in y.elems]
    out = []
    for i in range(x2[0]):
        for j in range(y2[1]):
            s = RF({})
            for m in range(x2[1]):
                s = s + xe[i * x2[1] + m] * ye[m * y2[1] + j]
            out.append(s)
    sh = ((x2[0],) if len(x.shape) == 2 else ()) + ((y2[1],) if len(y.shape) == 2 else ())
    return ret(I, k, sh, out, promote(promote(x.dtype, y.dtype), "int64"))


# ------------------------------------------------------------------ indexing

def strides(shape):
    st = []
    n = 1
    for s in reversed(shape):
        st.append(n)
        n *= s
    return list(reversed(st))


def _expand_index(I, a, i):
    """the index as a list with masks replaced by the positions of their true elements"""
    out = []
    for x in (i if isinstance(i, tuple) else (i,)):
        if isinstance(x, list):
            x = asarr(I, x) if x else Arr((0,), [], "np", "int64")
        if isinstance(x, bool):
            raise Inconclusive("boolean scalar index")
        if isinstance(x, Arr) and x.dtype == "bool":
            if not x.shape:
                raise Inconclusive("boolean scalar index")
            out.append(x)
            hits = [mi for mi, e in zip(itertools.product(*[range(s) for s in x.shape]), x.elems) if decide(I, e)]
            out[-1:] = [("mask", x.shape[d], [h[d] for h in hits]) for d in range(len(x.shape))]
        else:
            out.append(x)
    n = sum(1 for x in out if x is not None and x is not Ellipsis)
    if n > len(a.shape):
        raise I.exc(IndexError, f"too many indices for array: array is {len(a.shape)}-dimensional, but {n} were indexed")
    fill = [slice(None)] * (len(a.shape) - n)
    at = [k for k, x in enumerate(out) if x is Ellipsis]
    if len(at) > 1:
        raise I.exc(IndexError, "an index can only have a single ellipsis ('...')")
    if at:
        out[at[0]:at[0] + 1] = fill
    else:
        out.extend(fill)
    return out


def _one_index(I, a, k, d):
    n = a.shape[d]
    if not -n <= k < n:
        if a.kind != "np" and n:
            return n - 1 if k >= n else 0       # jax clamps out-of-bounds gathers
        raise I.exc(IndexError, f"index {k} is out of bounds for axis {d} with size {n}")
    return k % n


def positions(I, a, i):
    """(result shape, list of flat positions, is_basic, is_scalar)"""
    dims = []
    d = 0
    for x in _expand_index(I, a, i):
        if x is None:
            dims.append(("new", None, None, None))
            continue
        n = a.shape[d]
        if isinstance(x, slice):
            x = slice(*[None if v is None else I.as_int(v) for v in (x.start, x.stop, x.step)])
            dims.append(("sl", d, None, list(range(*x.indices(n)))))
        elif isinstance(x, tuple) and x and x[0] == "mask":
            if x[1] != n:
                raise I.exc(IndexError, f"boolean index did not match indexed array along axis {d}; size of axis is {n}")
            dims.append(("adv", d, (len(x[2]),), x[2]))
        elif isinstance(x, tuple) or (isinstance(x, Arr) and x.shape != ()):
            arr = asarr(I, x)
            ks = []
            for e in arr.elems:
                if arr.dtype == "object" or not arr.dtype.startswith("int") and arr.size:
                    raise I.exc(IndexError, "arrays used as indices must be of integer (or boolean) type")
                e = num(e)
                if not e.is_const():
                    raise Inconclusive("symbolic index")
                ks.append(_one_index(I, a, int(e.const_value()), d))
            dims.append(("adv", d, arr.shape, ks))
        else:
            if isinstance(x, (str, AStr, float)) or isinstance(x, Num) and "float" in x.ty:
                raise I.exc(IndexError, "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and "
                                        "integer or boolean arrays are valid indices")
            dims.append(("int", d, (), [_one_index(I, a, I.as_int(x), d)]))
        d += 1
    st = strides(a.shape)
    basic = not any(k == "adv" for k, *_ in dims)
    if basic:
        shape, pos = [], [0]
        for kd, d, sh, v in dims:
            if kd == "new":
                shape.append(1)
            else:
                pos = [p + k * st[d] for p in pos for k in v]
                if kd == "sl":
                    shape.append(len(v))
        ell = i is Ellipsis or isinstance(i, tuple) and any(x is Ellipsis for x in i)
        return tuple(shape), pos, True, not ell and all(kd == "int" for kd, *_ in dims)
    fan = [x for x in dims if x[0] in ("adv", "int")]
    bsh = ()
    for x in fan:
        try:
            bsh = bcast(I, bsh, x[2])
        except PyExc:
            raise I.exc(IndexError, "shape mismatch: indexing arrays could not be broadcast together")
    cols = [bget(Arr(x[2], x[3]), bsh) for x in fan]
    joint = [sum(c[m] * st[x[1]] for c, x in zip(cols, fan)) for m in range(size_of(bsh))]
    where = [k for k, x in enumerate(dims) if x[0] in ("adv", "int")]
    together = where == list(range(where[0], where[-1] + 1))
    shape, pos = [], [0]
    rest = [(k, x) for k, x in enumerate(dims) if x[0] in ("new", "sl")]
    done = together is False
    if done:
        shape.extend(bsh)
        pos = list(joint)
    for k, x in rest:
        if not done and k > where[0]:
            done = True
            shape.extend(bsh)
            pos = [p + q for p in pos for q in joint]
        if x[0] == "new":
            shape.append(1)
        else:
            pos = [p + q * st[x[1]] for p in pos for q in x[3]]
            shape.append(len(x[3]))
    if not done:
        shape.extend(bsh)
        pos = [p + q for p in pos for q in joint]
    return tuple(shape), pos, False, False


def getitem(I, a, i):
    shape, pos, basic, scal = positions(I, a, i)
    if scal and a.kind == "np":
        return scalar(I, a.buf[a.idx[pos[0]]], a.dtype)
    if basic:
        return Arr(shape, None, a.kind, a.dtype, buf=a.buf, idx=[a.idx[p] for p in pos])
    return Arr(shape, [a.buf[a.idx[p]] for p in pos], a.kind, a.dtype)


def setitem(I, a, i, v):
    if a.kind != "np":
        raise I.exc(TypeError, "JAX arrays are immutable and do not support in-place item assignment")
    if isinstance(i, Arr) and i.dtype == "bool" and i.shape == a.shape == ():
        el = bget(asarr(I, v), a.shape)
        for k, e in enumerate(i.elems):
            if decide(I, e):
                a.buf[a.idx[k]] = el[k]
        return
    shape, pos, basic, scal = positions(I, a, i)
    src = asarr(I, v)
    if src.kind == "trc":
        raise tracer_error(I)
    sh = src.shape
    while len(sh) > len(shape) and sh[0] == 1:
        sh = sh[1:]
    src = Arr(sh, src.elems, src.kind, src.dtype)
    if bcast(I, shape, src.shape) != tuple(shape):
        raise I.exc(ValueError, f"could not broadcast input array from shape {src.shape} into shape {shape}")
    el = bget(src, shape)
    if a.dtype.startswith("int") and src.dtype.startswith("float"):
        el = [T.app("trunc", num(e)) if not (num(e).is_const() and num(e).const_value().denominator == 1) else e for e in el]
    elif a.dtype in ("float64", "float32"):
        el = [num(e) for e in el]
    for p, e in zip(pos, el):
        a.buf[a.idx[p]] = e


def tracer_error(I):
    return I.exc(TypeError, "TracerArrayConversionError: numpy conversion of a traced jax array")


# ------------------------------------------------------------------ attributes

def attr(I, o, name):
    if isinstance(o, Num):
        return num_attr(I, o, name)
    if name == "shape":
        return o.shape
    if name == "size":
        return o.size
    if name == "ndim":
        return len(o.shape)
    if name == "dtype":
        return DType(o.dtype)
    if name == "T":
        return transpose(I, o)
    if name == "flat":
        return Arr((o.size,), None, o.kind, o.dtype, buf=o.buf, idx=list(o.idx))
    if name == "at" and o.kind != "np":
        return AtHelper(o)
    if name == "real":
        return o
    if name == "__class__":
        return B.typeof(I, o)
    if name == "base" and o.kind == "np":
        owner = getattr(o.buf, "owner", None)
        return None if owner is o else owner
    if name == "nbytes":
        return 8 * o.size
    if name == "itemsize":
        return 8
    if name in ("__len__",):
        return Builtin(name, lambda I, a, kw: B.length(I, o))
    if name == "__array__":
        return Builtin(name, lambda I, a, kw: o)
    if name == "__iter__":
        return Builtin(name, lambda I, a, kw: GenObj(iter(I.iterate(o)), "iter"))
    if name in ("strides", "flags", "data"):
        raise Inconclusive(f"array attribute {name}")
    if name == "mT":
        return transpose(I, o)
    if name == "tobytes":
        # the byte string of an array: equal exactly when type and elements are
        return Builtin(name, lambda I, a, kw: ("bytes", o.dtype) + tuple(scalar(I, e, o.dtype) for e in o.elems))
    m = ARRM.get(name)
    if m is not None and name in (NP_ATTRS if o.kind == "np" else JNP_ATTRS):
        def method(I, a, kw):
            try:
                return m(I, o, *a, **kw)
            except TypeError as e:
                if "argument" in str(e):
                    raise Inconclusive(f"array.{name}: {e}")
                raise
        return Builtin(name, method)
    raise I.no_attr(NP_ATTRS if o.kind == "np" else JNP_ATTRS, f"'{I.tname(o)}' object", name)


NP_ATTRS = frozenset("""
    T __abs__ __add__ __and__ __array__ __array_finalize__ __array_function__ __array_interface__
    __array_namespace__ __array_priority__ __array_struct__ __array_ufunc__ __array_wrap__ __bool__ __buffer__
    __class__ __class_getitem__ __complex__ __contains__ __copy__ __deepcopy__ __delattr__ __delitem__ __dir__
    __divmod__ __dlpack__ __dlpack_device__ __doc__ __eq__ __float__ __floordiv__ __format__ __ge__
    __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __iadd__ __iand__ __ifloordiv__ __ilshift__
    __imatmul__ __imod__ __imul__ __index__ __init__ __init_subclass__ __int__ __invert__ __ior__ __ipow__
    __irshift__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lshift__ __lt__ __matmul__ __mod__
    __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__
    __repr__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__
    __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __sub__
    __subclasshook__ __truediv__ __xor__ _set_dtype _set_shape all any argmax argmin argpartition argsort astype
    base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data device diagonal dot dtype
    dump dumps fill flags flat flatten getfield imag item itemsize mT max mean min nbytes ndim nonzero partition
    prod put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std
    strides sum swapaxes take to_device tobytes tofile tolist trace transpose var view""".split())
JNP_ATTRS = frozenset("""
    T __abs__ __add__ __and__ __annotations__ __array__ __array_module__ __array_namespace__ __array_priority__
    __bool__ __buffer__ __class__ __complex__ __contains__ __copy__ __cuda_array_interface__ __deepcopy__ __del__
    __delattr__ __dict__ __dir__ __divmod__ __dlpack__ __dlpack_device__ __doc__ __eq__ __float__ __floordiv__
    __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __hex__ __index__ __init__
    __init_subclass__ __int__ __invert__ __iter__ __le__ __len__ __lshift__ __lt__ __matmul__ __mod__ __module__
    __mul__ __ne__ __neg__ __new__ __numpy_dtype__ __oct__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__
    __reduce__ __reduce_ex__ __release_buffer__ __repr__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__
    __ror__ __round__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__
    __sizeof__ __slots__ __str__ __sub__ __subclasshook__ __truediv__ __weakref__ __xor__ _arrays
    _check_and_rearrange _check_if_deleted _chunk_iter _committed _copy_single_device_array_to_host_async
    _fully_replicated_shard _multi_slice _npy_value _pjrt_layout _replace_with _rewrap_with_aval_and_sharding
    _sharding _single_device_array_to_np_array_did_copy _split _to_np_array_did_copy _unstack _value
    addressable_data addressable_shards all any argmax argmin argpartition argsort astype at aval
    block_until_ready byteswap choose clip clone committed compress conj conjugate copy copy_to_host_async cumprod
    cumsum delete device device_buffer device_buffers devices diagonal dot dtype flat flatten format global_shards
    imag is_deleted is_fully_addressable is_fully_replicated is_ready item itemsize mT max mean min nbytes ndim
    nonzero on_device_size_in_bytes platform prod ptp ravel real repeat reshape round searchsorted shape sharding
    size sort squeeze std sum swapaxes take to_device tobytes tolist trace traceback transpose
    unsafe_buffer_pointer unsafe_raw_buffer var view weak_type""".split())
NUM_ATTRS = frozenset("""
    T __abs__ __add__ __and__ __array__ __array_interface__ __array_namespace__ __array_priority__
    __array_struct__ __array_wrap__ __bool__ __buffer__ __ceil__ __class__ __class_getitem__ __copy__ __deepcopy__
    __delattr__ __dir__ __divmod__ __doc__ __eq__ __float__ __floor__ __floordiv__ __format__ __ge__
    __getattribute__ __getformat__ __getitem__ __getnewargs__ __getstate__ __gt__ __hash__ __init__
    __init_subclass__ __int__ __invert__ __le__ __lshift__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __or__
    __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__
    __rmod__ __rmul__ __ror__ __round__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__
    __setstate__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __trunc__ __xor__ all any argmax argmin
    argsort as_integer_ratio astype base byteswap choose clip compress conj conjugate copy cumprod cumsum data
    device diagonal dtype dump dumps fill flags flat flatten fromhex getfield hex imag is_integer item itemsize
    max mean min nbytes ndim nonzero prod put ravel real repeat reshape resize round searchsorted setfield
    setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist trace transpose
    var view""".split())


def num_attr(I, o, name):
    if name in ("shape", "size", "ndim", "dtype", "T", "item", "astype", "tolist", "sum", "max", "min", "mean", "copy", "reshape", "ravel", "flatten", "squeeze", "round") and o.ty.startswith("np."):
        if name == "shape":
            return ()
        if name == "size":
            return 1
        if name == "ndim":
            return 0
        if name == "dtype":
            return DType(o.ty[3:])
        if name == "T":
            return o
        if name in ("item", "tolist"):
            return Builtin(name, lambda I, a, kw: B.mknum(o.t, "int" if "int" in o.ty else "float"))
        if name == "astype":
            return Builtin(name, lambda I, a, kw: o)
        return attr(I, asarr(I, o), name)
    if name == "real":
        return o
    if name == "is_integer" and "float" in o.ty:
        return Builtin(name, lambda I, a, kw: I.decide(f"{o!r}.is_integer()"))
    if name == "__class__":
        return B.typeof(I, o)
    raise I.no_attr(NUM_ATTRS if o.ty.startswith("np.") else {"int": int, "bool": bool}.get(o.ty, float), f"'{I.tname(o)}' object", name)


def set_attr(I, o, name, v):
    if name == "shape" and o.kind == "np":
        r = reshape(I, o, v)
        o.shape = r.shape
        return
    raise I.exc(AttributeError, f"cannot set array attribute {name}")


class DType:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        if isinstance(o, DType):
            return self.name == o.name
        try:
            return dtype_name(None, o, "?") == self.name
        except Inconclusive:
            return False

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"dtype('{self.name}')"

    def __str__(self):
        return self.name


def dtype_attr(I, o, name):
    if name in ("name", "str"):
        return o.name if name == "name" else {"float64": "<f8", "int64": "<i8", "bool": "|b1", "object": "|O", "float32": "<f4"}[o.name]
    if name in ("kind", "char"):
        return {"float64": "fd", "float32": "ff", "int64": "il", "bool": "b?", "object": "OO"}[o.name][name == "char"]
    if name == "itemsize":
        return {"float32": 4, "bool": 1}.get(o.name, 8)
    if name == "type":
        return {"float64": B.NPFLOAT64, "float32": B.NPFLOAT32, "int64": B.NPINT64, "bool": B.NPBOOL_}[o.name]
    raise Inconclusive(f"attribute {name} of a dtype")


class AtHelper:
    def __init__(self, a, idx=None):
        self.a, self.i = a, idx


def dtype_name(I, d, default):
    if d is None:
        return default
    if isinstance(d, Cls) and d.name in ("float32", "float16"):
        return "float32"
    if d is float or (isinstance(d, Cls) and d.name.startswith("float")):
        return "float64"
    if d is int or (isinstance(d, Cls) and d.name.startswith("int")):
        return "int64"
    if d is bool:
        return "bool"
    if d is object:
        return "object"
    if isinstance(d, DType):
        return d.name
    if isinstance(d, Cls) and d is B.NPBOOL_:
        return "bool"
    if isinstance(d, str):
        d = {"float": "float64", "int": "int64", "f8": "float64", "d": "float64", "f": "float32", "i": "int64", "f4": "float32",
             "<f8": "float64", "i8": "int64", "O": "object", "?": "bool", "int32": "int64", "single": "float32", "double": "float64"}.get(d, d)
        if d in ("float64", "float32", "int64", "bool", "object"):
            return d
    raise Inconclusive(f"dtype {d!r}")


def single(e):
    """a value rounded to single precision"""
    e = num(e)
    if e.is_const():
        import struct
        c = e.const_value()
        try:
            if Fraction(struct.unpack("f", struct.pack("f", float(c)))[0]) == c:
                return e
        except OverflowError:
            pass
    return T.app("float32", e)


def cast(a, dt):
    if dt == a.dtype:
        return a
    if dt == "float32":
        return emap(a, single, dt)
    if dt == "bool":
        return emap(a, lambda e: e if isinstance(e, (bool, SymBool)) else SymBool(num(e), "+-"), dt)
    if dt.startswith("int") and a.dtype.startswith("float"):
        return emap(a, lambda e: e if num(e).is_const() and num(e).const_value().denominator == 1
                    else (RF.const(int(num(e).const_value())) if num(e).is_const() else T.app("trunc", num(e))), dt)
    if dt in ("float64", "int64"):
        return emap(a, num, dt)
    if dt == "object":
        return Arr(a.shape, [scalar(None, e, a.dtype) if a.dtype != "bool" else e for e in a.elems], a.kind, dt)
    return Arr(a.shape, a.elems, a.kind, dt)


# ------------------------------------------------------------------ functions

def reshape(I, a, *shape, order="C", copy=None):
    a = asarr(I, a)
    if order not in (None, "C", "K", "A"):
        raise Inconclusive("reshape order")
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    if len(shape) == 1 and isinstance(shape[0], Arr) and shape[0].shape:
        shape = tuple(I.iterate(shape[0]))
    shape = [I.as_int(s) for s in shape]
    if -1 in shape:
        k = shape.index(-1)
        rest = size_of([s for s in shape if s != -1])
        if rest == 0 or a.size % rest:
            raise I.exc(ValueError, f"cannot reshape array of size {a.size}")
        shape[k] = a.size // rest
    if size_of(shape) != a.size:
        raise I.exc(ValueError, f"cannot reshape array of size {a.size} into shape {tuple(shape)}")
    return Arr(shape, None, a.kind, a.dtype, buf=a.buf, idx=list(a.idx))


def transpose(I, a, *axes):
    a = asarr(I, a)
    n = len(a.shape)
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = tuple(axes[0])
    if len(axes) == 1 and axes[0] is None:
        axes = ()
    if not axes:
        axes = tuple(reversed(range(n)))
    axes = tuple(I.as_int(x) for x in axes)
    if len(axes) != n or sorted(x % n for x in axes) != list(range(n)):
        raise I.exc(ValueError, "axes don't match array")
    axes = tuple(x % n for x in axes)
    if axes == tuple(range(n)):
        return Arr(a.shape, None, a.kind, a.dtype, buf=a.buf, idx=list(a.idx)) if n else a
    st = strides(a.shape)
    rsh = tuple(a.shape[x] for x in axes)
    idx = []
    for mi in itertools.product(*[range(s) for s in rsh]):
        idx.append(a.idx[sum(m * st[x] for m, x in zip(mi, axes))])
    return Arr(rsh, None, a.kind, a.dtype, buf=a.buf, idx=idx)


def axis_groups(I, a, axis):
    """list of (result position) groups of elements along axis"""
    axes = norm_axes(I, a, axis)
    st = strides(a.shape)
    keep = [d for d in range(len(a.shape)) if d not in axes]
    osh = tuple(a.shape[d] for d in keep)
    el = a.elems
    groups = []
    for mi in itertools.product(*[range(s) for s in osh]):
        base = sum(m * st[d] for m, d in zip(mi, keep))
        groups.append([el[base + sum(m * st[d] for m, d in zip(mj, axes))]
                       for mj in itertools.product(*[range(a.shape[d]) for d in axes])])
    return osh, groups


def norm_axes(I, a, axis):
    n = len(a.shape)
    out = []
    for x in (axis if isinstance(axis, (tuple, list)) else (axis,)):
        x = I.as_int(x)
        if not -n <= x < n:
            raise I.exc(I.ext.axis_error(), f"axis {x} is out of bounds for array of dimension {n}")
        out.append(x % n)
    return sorted(out)


def reduce_(I, a, f, axis=None, keepdims=False, kind=None, dtype=None):
    a = asarr(I, a)
    kind = kind or a.kind
    dtype = dtype or a.dtype
    if axis is None:
        osh, groups = (), [a.elems]
        ksh = (1,) * len(a.shape)
    else:
        osh, groups = axis_groups(I, a, axis)
        axes = norm_axes(I, a, axis)
        ksh = tuple(1 if d in axes else k for d, k in enumerate(a.shape))
    out = [f(g) for g in groups]
    if keepdims and I.truth(keepdims):
        osh = ksh
    return ret(I, kind, osh, out, dtype)


def _sum(g):
    s = RF({})
    for e in g:
        s = s + num(e)
    return s


def _prod(g):
    s = RF.const(1)
    for e in g:
        s = s * num(e)
    return s


def _extreme(I, op):
    def f(g):
        if not g:
            raise I.exc(ValueError, "zero-size array to reduction operation")
        best = num(g[0])
        for e in g[1:]:
            e = num(e)
            if I.sign_of(e - best, "-" if op == "min" else "+"):
                best = e
        return best
    return f


def _argext(I, op):
    def f(g):
        if not g:
            raise I.exc(ValueError, "attempt to get argmin of an empty sequence")
        best = 0
        for k in range(1, len(g)):
            if I.sign_of(num(g[k]) - num(g[best]), "-" if op == "min" else "+"):
                best = k
        return RF.const(best)
    return f


def _norm(I, a, ord=None, axis=None, keepdims=False, kind=None):
    a = asarr(I, a)
    kind = kind or a.kind
    if ord in (None, 2, "fro") or (isinstance(ord, float) and ord == 2.0):
        if ord == 2 and len(a.shape) == 2 and axis is None:
            raise Inconclusive("spectral norm")
        f = lambda g: T.t_sqrt(_sum([num(e) * num(e) for e in g]))
    elif ord == 1 and (len(a.shape) == 1 or axis is not None):
        f = lambda g: _sum([T.t_abs(num(e)) for e in g])
    elif ord == float("inf") and len(a.shape) == 1:
        f = lambda g: _extreme(I, "max")([T.t_abs(num(e)) for e in g])
    else:
        raise Inconclusive(f"norm ord={ord!r}")
    return reduce_(I, a, f, axis, keepdims, kind, "float64")


def _concat(I, arrs, axis=0, kind="np"):
    arrs = [asarr(I, x) for x in I.iterate(arrs)]
    if not arrs:
        raise I.exc(ValueError, "need at least one array to concatenate")
    kk = outkind(*arrs)
    kind = kind if kk == "np" else (kk if kind != "np" else "np")
    if axis is None:
        arrs = [Arr((a.size,), a.elems, a.kind, a.dtype) for a in arrs]
        axis = 0
    axis = I.as_int(axis)
    if any(not a.shape for a in arrs):
        raise I.exc(ValueError, "zero-dimensional arrays cannot be concatenated")
    n = len(arrs[0].shape)
    if any(len(a.shape) != n for a in arrs):
        raise I.exc(ValueError, "all the input array dimensions must match")
    axis = norm_axes(I, arrs[0], axis)[0]
    dt = arrs[0].dtype
    for a in arrs:
        dt = promote(dt, a.dtype)
    if axis == 0:
        if any(a.shape[1:] != arrs[0].shape[1:] for a in arrs):
            raise I.exc(ValueError, "all the input array dimensions except for the concatenation axis must match")
        el = [e for a in arrs for e in a.elems]
        return Arr((sum(a.shape[0] for a in arrs),) + arrs[0].shape[1:], el, kind, dt)
    perm = [axis] + [d for d in range(n) if d != axis]
    back = [perm.index(d) for d in range(n)]
    r = _concat(I, [transpose(I, a, perm) for a in arrs], 0, kind)
    t = transpose(I, r, back)
    return Arr(t.shape, t.elems, kind, dt)


def _stack(I, arrs, axis=0, kind="np"):
    arrs = [asarr(I, x) for x in I.iterate(arrs)]
    if not arrs:
        raise I.exc(ValueError, "need at least one array to stack")
    if any(a.shape != arrs[0].shape for a in arrs):
        raise I.exc(ValueError, "all input arrays must have the same shape")
    return _concat(I, [f_expand_dims(I, kind, a, axis) for a in arrs], axis, kind)


def atleast_1d(I, kind, *xs):
    out = []
    for x in xs:
        a = asarr(I, x)
        k = a.kind if kind == "np" or a.kind == "trc" else kind
        if kind == "np":
            k = "np"
        if a.shape == ():
            out.append(Arr((1,), a.elems, k, a.dtype))
        else:
            out.append(a if a.kind == k else Arr(a.shape, a.elems, k, a.dtype))
    return out[0] if len(out) == 1 else out


def dot(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    if not x.shape or not y.shape:
        return elementwise(I, lambda p, q: num(p) * num(q), promote(x.dtype, y.dtype), x, y)
    return matmul(I, x, y)


def cross(I, mod, a, b):
    x, y = asarr(I, a), asarr(I, b)
    if len(x.shape) != 1 or len(y.shape) != 1 or x.shape[0] not in (2, 3) or y.shape[0] not in (2, 3):
        raise Inconclusive("cross of rank != 1")
    k = outkind(x, y)
    u, v = [num(e) for e in x.elems], [num(e) for e in y.elems]
    dt = promote(promote(x.dtype, y.dtype), "int64")
    if mod == "np" and min(len(u), len(v)) == 2:
        raise I.exc(ValueError, "Both input arrays must be (arrays of) 3-dimensional vectors")
    if len(u) == 2 and len(v) == 2:
        return ret(I, k, (), [u[0] * v[1] - u[1] * v[0]], dt)
    z = RF({})
    u += [z] * (3 - len(u))
    v += [z] * (3 - len(v))
    return ret(I, k, (3,), [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]], dt)


def cumulative(I, a, f, kind):
    a = asarr(I, a)
    out = []
    s = None
    for e in a.elems:
        s = num(e) if s is None else f(s, num(e))
        out.append(s)
    return Arr((a.size,), out, kind, promote(a.dtype, "int64"))


PI = None


def pi():
    return T.atom_rf(T.TABLE.var("pi", "+"))


def ufn(I, name):
    """unary function on elements"""
    PIRF = pi()

    def trig(e):
        q = e / PIRF
        if q.is_const():
            c = q.const_value()
            c2 = (c * 2) % 4
            if c2.denominator == 1:
                cosv = {0: 1, 1: 0, 2: -1, 3: 0}[int(c2)]
                sinv = {0: 0, 1: 1, 2: 0, 3: -1}[int(c2)]
                if name == "cos":
                    return RF.const(cosv)
                if name == "sin":
                    return RF.const(sinv)
        if name == "cos" and e.num and e.num[T.p_lead(e.num)] < 0:
            e = -e
        if name == "sin" and e.num and e.num[T.p_lead(e.num)] < 0:
            return -T.app("sin", -e)
        return T.app(name, e)
    if name in ("cos", "sin", "tan"):
        return trig
    if name == "sqrt":
        return T.t_sqrt
    if name in ("abs", "absolute", "fabs"):
        return T.t_abs
    if name == "square":
        return lambda e: e * e
    if name == "negative":
        return lambda e: -e
    if name == "sign":
        def sg(e):
            s = T.rf_sign(e)
            return RF.const({"+": 1, "-": -1, "0": 0}[s]) if s in ("+", "-", "0") else T.app("sgn", e)
        return sg
    if name in ("rad2deg", "degrees"):
        return lambda e: e * RF.const(180) / PIRF
    if name in ("deg2rad", "radians"):
        return lambda e: e * PIRF / RF.const(180)
    if name in ("floor", "ceil", "exp", "log", "arccos", "arcsin", "arctan", "trunc", "rint"):
        def g(e):
            if e.is_const():
                c = e.const_value()
                if name in ("floor", "ceil", "trunc", "rint"):
                    return RF.const({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round}[name](c))
                if (name, c) in (("exp", 0), ("log", 1)):
                    return RF.const(c == 0)
            if name == "ceil":
                return -T.app("floor", -e)
            return T.app(name, e, sign="+" if name == "exp" else None)
        return g
    if name == "reciprocal":
        return lambda e: RF.const(1) / e
    if name in ("nan_to_num", "conj", "real", "positive", "float64", "asarray"):
        return lambda e: e
    return None


UNARY = ["cos", "sin", "tan", "sqrt", "abs", "absolute", "fabs", "square", "negative", "sign",
         "rad2deg", "degrees", "deg2rad", "radians", "floor", "ceil", "exp", "log", "arccos",
         "arcsin", "arctan", "trunc", "rint", "reciprocal", "nan_to_num", "positive"]
BINARY = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/",
          "power": "**", "mod": "%", "remainder": "%", "floor_divide": "//", "float_power": "**"}
CMPF = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==",
        "not_equal": "!="}


SAFE_KW = {"casting", "subok", "like", "device", "equal_nan", "precision", "preferred_element_type",
           "promote_integers", "stable", "kind", "mode", "indices_are_sorted", "unique_indices", "inplace"}
ELEMENTWISE = set()
SIMPLE = {"average", "select", "tile", "repeat", "split", "array_split", "flip", "roll", "cumsum", "cumprod", "diff",
          "append", "squeeze", "size", "argsort", "sort", "take"}


def _keywords(I, name, fn, kw):
    """keyword arguments the transfer function takes; others must be harmless"""
    ps = inspect.signature(fn).parameters
    named = {p.name for p in ps.values() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}
    out = {}
    for k, v in kw.items():
        if k in named:
            out[k] = v
        elif k in SAFE_KW or v is None:
            pass
        elif k == "order" and v in ("C", "K", "A"):
            pass
        elif k == "where" and v is True:
            pass
        else:
            raise Inconclusive(f"{name}({k}=)")
    return out


def prelude(I, name, kind):
    """a numpy function written in Python in terms of those modelled here"""
    ns = I.load_module("_pynp").ns
    if "Undecided" not in ns:
        def undecided(I, a, kw):
            raise Inconclusive(a[0])
        ns["Undecided"] = Builtin("Undecided", undecided)
        ns["is_singular"] = Builtin("is_singular", lambda I, a, kw: is_singular(I, a[0]))
    fn = ns.get(name)
    if fn is None or name.startswith("_"):
        return None
    args = fn.node.args
    pos = [x.arg for x in args.args]
    names = set(pos) | {x.arg for x in args.kwonlyargs}
    xp = I.load_module("numpy" if kind == "np" else "jax.numpy")

    def f(*a, **kw):
        out = {}
        for k, v in kw.items():
            if k in names or args.kwarg:
                out[k] = v
            elif not (k in SAFE_KW or v is None or k == "order" and v in ("C", "K", "A")):
                raise Inconclusive(f"{name}({k}=)")
        if not args.vararg and len(a) + 1 > len(pos):
            raise Inconclusive(f"{name} with {len(a)} positional arguments")
        return I.call(fn, [xp, *a], out)
    return f


def is_singular(I, a):
    n = a.shape[0]
    es = [num(e) for e in a.elems]
    if all(e.is_const() for e in es) or n <= 3:
        d = exact_det(I, a)
        if d.is_const():
            return d.const_value() == 0
    return I.decide(("singular", tuple(repr(e) for e in es)))


def exact_det(I, a):
    n = a.shape[0]
    es = [num(e) for e in a.elems]
    if n > 4:
        if not all(e.is_const() for e in es):
            raise Inconclusive("determinant of a large matrix")
    if n == 0:
        return RF.const(1)
    m = [[es[i * n + j] for j in range(n)] for i in range(n)]
    if all(e.is_const() for e in es):
        m = [[e.const_value() for e in r] for r in m]
        d = Fraction(1)
        for c in range(n):
            p = next((r for r in range(c, n) if m[r][c]), None)
            if p is None:
                return RF.const(0)
            if p != c:
                m[c], m[p] = m[p], m[c]
                d = -d
            d *= m[c][c]
            for r in range(c + 1, n):
                q = m[r][c] / m[c][c]
                m[r] = [x - q * y for x, y in zip(m[r], m[c])]
        return RF.const(d)
    s = RF({})
    for perm in itertools.permutations(range(n)):
        t = RF.const(1)
        for i, k in enumerate(perm):
            t = t * m[i][k]
        inv = sum(1 for i in range(n) for k in range(i) if perm[k] > perm[i])
        s = s - t if inv % 2 else s + t
    return s


def module_function(I, name, kind):
    """Return a transfer function for numpy.<name> / jax.numpy.<name> or None."""
    def wrap(fn, sig=None):
        sig = sig or fn

        def f(I, a, kw):
            duck = kind == "np" and name in DUCK and a and isinstance(a[0], Arr) and a[0].kind == "trc"
            if kind == "np":
                # numpy hands some functions to a method or attribute of the first argument
                for x in list(a[1 if duck else 0:]) + list(kw.values()):
                    if _has_trc(x):
                        raise tracer_error(I)
            kw = dict(kw)
            out = kw.pop("out", None)
            if out is None and kind == "np" and name in ELEMENTWISE and len(a) == nin + 1:
                out, a = a[-1], a[:-1]
            if sig is not prelude:
                kw = _keywords(I, f"{kind}.{name}", sig, kw)
            try:
                r = fn(*a, **kw)
            except TypeError as e:
                if e.__traceback__.tb_next is None or "argument" in str(e):
                    raise Inconclusive(f"{kind}.{name}: {e}")
                raise
            k2 = "jnp" if duck and isinstance(r, (Arr, list, tuple)) and name != "shape" else kind
            if sig is prelude and type(r) in (int, bool) and name not in ("size", "count_nonzero", "iterable"):
                r = scalar(I, RF.const(r), "int64") if type(r) is int else r
            r = _fix(I, r, k2)
            if out is not None:
                if kind != "np":
                    raise I.exc(NotImplementedError, f"The 'out' argument to jnp.{name} is not supported.")
                o = out[0] if isinstance(out, tuple) and len(out) == 1 else out
                if not isinstance(o, Arr) or o.kind != "np":
                    raise Inconclusive(f"{name}(out=)")
                ra = asarr(I, r)
                if ra.shape != o.shape and bcast(I, ra.shape, o.shape) != o.shape:
                    raise I.exc(ValueError, "output array is not acceptable")
                if o.dtype.startswith("int") and ra.dtype.startswith("float"):
                    raise I.exc(TypeError, f"Cannot cast ufunc '{name}' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
                setitem(I, o, Ellipsis, Arr(ra.shape, list(ra.elems), "np", ra.dtype))
                return o
            return r
        nin = 2 if name in BINARY or name in CMPF or name in TWO else 1
        b = Builtin(name, f)
        if name in ELEMENTWISE:
            for k in ("reduce", "accumulate", "outer", "at"):
                b.attrs[k] = Builtin(f"{name}.{k}", lambda I, a, kw, k=k: ufunc_method(I, k, name, kind, b, a, kw))
        return b

    if name in UNARY:
        g = ufn(I, name)
        dt = "float64" if name not in ("abs", "absolute", "square", "negative", "sign", "positive") else None

        def u(x, dtype=None):
            a = asarr(I, x)
            if a.dtype == "object":
                raise Inconclusive(f"{name} of an object array")
            if name == "nan_to_num" and kind == "np":
                return Arr(a.shape, list(a.elems), a.kind, a.dtype) if a.shape else ret(I, a.kind, (), a.elems, a.dtype)
            r = ret(I, a.kind, a.shape, [g(num(e)) for e in a.elems], dt or promote(a.dtype, "int64"))
            return r if dtype is None else as_dtype(I, r, dtype)
        return wrap(u)
    if name in BINARY:
        op = BINARY[name]
        return wrap(lambda x, y, dtype=None: as_dtype(I, binop(I, op, asarr(I, x), asarr(I, y)), dtype))
    if name in CMPF:
        op = CMPF[name]
        return wrap(lambda x, y, dtype=None: compare(I, op, asarr(I, x), asarr(I, y)))
    pre = prelude(I, name, kind)
    fn = FUNCS.get(name)
    if fn is None:
        return None if pre is None else wrap(pre, prelude)
    if pre is not None:
        def both(*a, **kw):
            if not kw and all(isinstance(x, Arr) and len(x.shape) == 1 for x in a[:1]):
                if all(isinstance(x, (int, Arr)) and not isinstance(x, Arr) or isinstance(x, Arr) and len(x.shape) == 1 and name == "append"
                       for x in a[1:]) and name in SIMPLE and len(a) <= 2:
                    return fn(I, kind, *a)
            return pre(*a, **kw)
        return wrap(both, prelude)
    return wrap(lambda *a, **kw: fn(I, kind, *a, **kw), fn)


ELEMENTWISE.update(UNARY, BINARY, CMPF)
TWO = {"maximum", "minimum", "fmax", "fmin", "arctan2", "hypot", "logical_and", "logical_or", "logical_xor"}
ELEMENTWISE.update(TWO, ("logical_not",))
IDENTITY = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "logical_xor": False, "hypot": 0}


def ufunc_method(I, how, name, kind, fn, a, kw):
    if kind != "np" and how == "at":
        raise Inconclusive("jnp ufunc.at")
    kw = {k: v for k, v in kw.items() if not (k == "out" and v is None or k == "where" and v is True or k == "dtype" and v is None)}
    f = I.load_module("_pynp").ns["_ufunc_" + how]
    prelude(I, "size", kind)
    xp = I.load_module("numpy" if kind == "np" else "jax.numpy")
    allowed = {x.arg for x in f.node.args.args + f.node.args.kwonlyargs}
    if any(k not in allowed for k in kw):
        raise Inconclusive(f"{name}.{how} with {sorted(kw)}")
    ident = IDENTITY.get(name)
    return _fix(I, I.call(f, [xp, fn, ident, *a], kw), kind)


def as_dtype(I, r, dtype):
    if dtype is None:
        return r
    a = asarr(I, r)
    c = cast(a, dtype_name(I, dtype, a.dtype))
    return ret(I, a.kind, c.shape, c.elems, c.dtype)


def _has_trc(x):
    if isinstance(x, Arr):
        return x.kind == "trc"
    if type(x) in (list, tuple):
        return any(_has_trc(y) for y in x)
    return False


def _fix(I, r, kind):
    """Give results of a numpy/jnp call the right kind."""
    if isinstance(r, Arr):
        if kind == "np" and r.kind != "np":
            r = Arr(r.shape, None, "np", r.dtype, buf=list(r.elems), idx=list(range(r.size)))
        elif kind == "jnp" and r.kind == "np":
            r = Arr(r.shape, r.elems, "jnp", r.dtype)
        if r.kind == "np" and r.shape == () and not getattr(r, "_keep0d", False):
            return r
        return r
    if kind == "jnp" and isinstance(r, (Num, int, float, bool)):
        return asarr(I, r, "jnp")
    if isinstance(r, (list, tuple)) and not isinstance(r, NTuple):
        return type(r)(_fix(I, x, kind) if isinstance(x, Arr) else x for x in r)
    return r


def _shape_arg(I, s):
    if isinstance(s, (tuple, list)):
        return tuple(I.as_int(x) for x in s)
    if isinstance(s, Arr):
        return tuple(I.as_int(getitem(I, s, i)) for i in range(s.size))
    return (I.as_int(s),)


def f_array(I, kind, x, dtype=None, copy=True, ndmin=0, order=None):
    if order not in (None, "C", "K", "A"):
        raise Inconclusive("array order")
    if isinstance(x, (set, frozenset, dict)) or isinstance(x, GenObj):
        if kind == "jnp":
            raise I.exc(TypeError, "Value is not a valid JAX array type")
    a = asarr(I, x, kind)
    if a.dtype == "object" and a.shape == () and kind == "jnp":
        raise I.exc(TypeError, "Value is not a valid JAX array type")
    k = a.kind if (kind == "jnp" and a.kind == "trc") else kind
    want = dtype_name(I, dtype, a.dtype)
    nd = I.as_int(ndmin)
    if copy is not True and not (copy is not None and I.truth(copy)) and isinstance(x, Arr):
        if a.kind == k and want == a.dtype:
            sh = (1,) * (nd - len(a.shape)) + a.shape
            return a if sh == a.shape else Arr(sh, None, k, a.dtype, buf=a.buf, idx=list(a.idx))
        if copy is False:
            raise I.exc(ValueError, "Unable to avoid copy while creating an array as requested.")
    r = Arr(a.shape, list(a.elems), k, a.dtype)
    if dtype is not None:
        r = cast(r, want)
    if nd > len(r.shape):
        r = Arr((1,) * (nd - len(r.shape)) + r.shape, r.elems, r.kind, r.dtype)
    r.site = I.site() if I.stack else None
    return r


def f_asarray(I, kind, x, dtype=None, order=None, copy=None):
    if copy is True:
        return f_array(I, kind, x, dtype, order=order)
    if order not in (None, "C", "K", "A"):
        raise Inconclusive("array order")
    if isinstance(x, Arr) and x.kind == kind and (dtype is None or dtype_name(I, dtype, x.dtype) == x.dtype):
        return x
    if isinstance(x, Arr) and x.kind == "trc" and kind == "jnp":
        return x if dtype is None else cast(x, dtype_name(I, dtype, x.dtype))
    return f_array(I, kind, x, dtype)


def f_full(v):
    def f(I, kind, shape, *a, dtype=None, fill_value=None, order=None):
        sh = _shape_arg(I, shape)
        if v is None:
            val = a[0] if a else fill_value
            dt = asarr(I, val).dtype
            if len(a) > 1:
                dtype = a[1]
        else:
            val = v
            dt = "float64"
            if a:
                dtype = a[0]
        dt = dtype_name(I, dtype, dt)
        e = asarr(I, val)
        if e.shape != ():
            return f_array(I, kind, broadcast_to(I, kind, val, sh), dtype)
        if dt == "object" or e.dtype == "object":
            return Arr(sh, [scalar(I, e.elems[0], e.dtype)] * size_of(sh), kind, "object")
        return Arr(sh, list(cast(Arr((1,), e.elems, kind, e.dtype), dt).elems) * size_of(sh), kind, dt)
    return f


def f_full_like(v):
    def f(I, kind, a, *args, dtype=None, fill_value=None, shape=None, order=None):
        a = asarr(I, a)
        args = list(args)
        val = v
        if v is None:
            val = args.pop(0) if args else fill_value
        if args:
            dtype = args[0]
        return FUNCS["full"](I, kind, a.shape if shape is None else shape, val, dtype=DType(dtype_name(I, dtype, a.dtype)))
    return f


def broadcast_to(I, kind, a, shape):
    a = asarr(I, a)
    sh = _shape_arg(I, shape)
    if bcast(I, a.shape, sh) != sh:
        raise I.exc(ValueError, "cannot broadcast")
    return Arr(sh, bget(a, sh), a.kind, a.dtype)


def f_arange(I, kind, *a, dtype=None, start=None, stop=None, step=None):
    if start is not None or stop is not None or step is not None:
        if len(a) > 1 and stop is not None or a and start is not None:
            raise Inconclusive("arange")
        lo = a[0] if len(a) == 2 or (a and stop is not None) else start
        hi = stop if stop is not None else a[-1]
        a = (0 if lo is None else lo, hi, 1 if step is None else step)
    vals = [x if isinstance(x, (int, float)) else I.as_int(x) for x in a]
    if all(isinstance(x, int) for x in vals):
        return Arr((len(range(*vals)),), [RF.const(x) for x in range(*vals)], kind, dtype_name(I, dtype, "int64"))
    start, stop, step = (0, vals[0], 1) if len(vals) == 1 else (vals + [1])[:3]
    n = max(0, math.ceil((stop - start) / step))
    return cast(Arr((n,), [T.from_number(start) + T.from_number(step) * RF.const(i) for i in range(n)], kind, "float64"), dtype_name(I, dtype, "float64"))


def f_linspace(I, kind, start, stop, num=50, endpoint=True):
    a, b = start, stop
    if isinstance(a, Arr) and a.shape or isinstance(b, Arr) and b.shape:
        raise Inconclusive("linspace of arrays")
    n = I.as_int(num)
    a_, b_ = B.rf(a), B.rf(b)
    d = n - 1 if I.truth(endpoint) else n
    return Arr((n,), [a_ + (b_ - a_) * RF.const(Fraction(i, d)) if d else a_ for i in range(n)], kind, "float64")


def f_where(I, kind, c, *xy):
    c = asarr(I, c)
    if not xy:
        return prelude(I, "nonzero", kind)(c)
    x, y = asarr(I, xy[0]), asarr(I, xy[1])
    sh = bcast(I, bcast(I, c.shape, x.shape), y.shape)
    k = outkind(c, x, y)
    el = [(p if decide(I, q) else r) for q, p, r in zip(bget(c, sh), bget(x, sh), bget(y, sh))]
    return ret(I, k, sh, el, promote(x.dtype, y.dtype))


def f_isclose(I, kind, a, b, rtol=1e-5, atol=1e-8):
    rt, at = (num(asarr(I, t).elems[0]) for t in (rtol, atol))

    def f(p, q):
        d = num(p) - num(q)
        if d.is_const() and num(p).is_const() and at.is_const() and rt.is_const():
            return abs(float(d.const_value())) <= at.const_value() + rt.const_value() * abs(num(q).const_value())
        if T.rf_zero(d) and at.is_const() and at.const_value() >= 0:
            return True
        tol = at + rt * T.t_abs(num(q))
        return SymBool(tol - T.t_abs(d), "+0")
    return elementwise(I, f, "bool", asarr(I, a), asarr(I, b))


def f_allclose(I, kind, a, b, rtol=1e-5, atol=1e-8):
    r = asarr(I, f_isclose(I, kind, a, b, rtol, atol))
    return all(decide(I, e) for e in r.elems)


def _truths(I, op):
    def f(I, kind, a, axis=None, keepdims=False):
        a = asarr(I, a)
        if a.dtype != "bool":
            a = cast(a, "bool") if a.dtype != "object" else emap(a, lambda e: I.truth(e), "bool")
        if axis is not None or keepdims:
            return reduce_(I, a, lambda g: SymBool(op=op, val=tuple(g)), axis, keepdims, dtype="bool")
        if a.kind == "trc":
            return Arr((), [SymBool(op=op, val=tuple(a.elems))], "trc", "bool")
        return (all if op == "and" else any)(decide(I, e) for e in a.elems)
    return f


f_all, f_any = _truths(None, "and"), _truths(None, "or")


def f_split(I, kind, a, spec, axis=0):
    a = asarr(I, a)
    if len(a.shape) != 1:
        raise Inconclusive("split of rank > 1")
    n = a.shape[0]
    if isinstance(spec, (list, tuple, Arr)):
        bounds = [0] + [I.as_int(x) for x in I.iterate(spec)] + [n]
    else:
        k = I.as_int(spec)
        if n % k:
            raise I.exc(ValueError, "array split does not result in an equal division")
        bounds = [i * (n // k) for i in range(k + 1)]
    return [getitem(I, a, slice(p, q)) for p, q in zip(bounds[:-1], bounds[1:])]


def f_array_split(I, kind, a, spec, axis=0):
    if isinstance(spec, (list, tuple, Arr)):
        return f_split(I, kind, a, spec)
    a = asarr(I, a)
    k = I.as_int(spec)
    n = a.shape[0]
    q, r = divmod(n, k)
    b = [0]
    for i in range(k):
        b.append(b[-1] + q + (1 if i < r else 0))
    return [getitem(I, a, slice(x, y)) for x, y in zip(b[:-1], b[1:])]


def f_arctan2(I, kind, y, x):
    return elementwise(I, lambda p, q: T.t_arctan2(num(p), num(q)), "float64", asarr(I, y), asarr(I, x))


def f_hypot(I, kind, x, y):
    return elementwise(I, lambda p, q: T.t_sqrt(num(p) * num(p) + num(q) * num(q)), "float64", asarr(I, x), asarr(I, y))


def f_ravel_multi_index(I, kind, mi, dims, **kw):
    n = 0
    for i, d in zip(I.iterate(mi), I.iterate(dims)):
        n = n * I.as_int(d) + I.as_int(i)
    return Num(RF.const(n), "np.int64")


def f_unravel_index(I, kind, idx, shape, **kw):
    idx = I.as_int(idx)
    out = []
    for d in reversed(list(I.iterate(shape))):
        d = I.as_int(d)
        out.append(Num(RF.const(idx % d), "np.int64"))
        idx //= d
    return tuple(reversed(out))


def f_lstsq(I, kind, a, b, rcond=None):
    A, b = asarr(I, a), asarr(I, b)
    return lstsq(I, A, b, rcond)


def cutoff(I, rcond):
    """a relative cutoff which only drops rounding errors is no cutoff"""
    if rcond is None:
        return ()
    c = num(asarr(I, rcond).elems[0]) if isinstance(rcond, Arr) else num(rcond)
    if c.is_const() and c.const_value() < Fraction(1, 10 ** 9):
        return ()
    return (c,)


def pinv(I, A, rcond=None):
    """entries of the pseudoinverse, as uninterpreted functions of the matrix"""
    n, m = A.shape
    es = [num(e) for e in A.elems]
    sgn = 1
    for e in es:
        if e.num:
            sgn = -1 if e.num[T.p_lead(e.num)] < 0 else 1
            break
    if sgn < 0:
        es = [-e for e in es]
    c = cutoff(I, rcond)
    name = "pinv cut" if c else "pinv"
    return [[RF.const(sgn) * T.app(name, i, j, n, *(tuple(es) + c)) for j in range(n)] for i in range(m)]


def f_pinv(I, kind, a, rcond=None, hermitian=False, rtol=None):
    A = asarr(I, a)
    if len(A.shape) != 2:
        raise I.exc(ValueError, "pinv of something other than a matrix")
    P = pinv(I, A, rcond if rtol is None else rtol)
    return Arr((A.shape[1], A.shape[0]), [e for r in P for e in r], kind)


def lstsq(I, A, b, rcond=None):
    if len(A.shape) != 2 or len(b.shape) != 1 or A.shape[0] != b.shape[0]:
        raise I.exc(ValueError, "lstsq: incompatible dimensions")
    P = pinv(I, A, rcond)
    be = [num(e) for e in b.elems]
    x = []
    for row in P:
        t = RF.const(0)
        for p, e in zip(row, be):
            if e.num:
                t = t + p * e
        x.append(t)
    I.assumptions.add("numpy.linalg.lstsq(J, b) is the least-squares solution of smallest norm, the pseudoinverse of J times b")
    return (Arr((A.shape[1],), x, "np"), Arr((0,), [], "np"),
            Num(T.app("rank", A.shape[0], *[num(e) for e in A.elems], sign="0+"), "np.int64"),
            Arr((0,), [], "np"))


def f_size(I, kind, a, axis=None):
    return asarr(I, a).size


def f_shape(I, kind, a):
    return asarr(I, a).shape


def f_ndim(I, kind, a):
    return len(asarr(I, a).shape)


def mkred(name):
    def g(I, kind, a, axis=None, dtype=None, keepdims=False, initial=None):
        a = asarr(I, a)
        if a.dtype == "object":
            raise Inconclusive(f"{name} of an object array")
        base = {"sum": _sum, "prod": _prod,
                "min": _extreme(I, "min"), "max": _extreme(I, "max"),
                "argmin": _argext(I, "min"), "argmax": _argext(I, "max"),
                "mean": lambda g: _mean(I, g)}[name]
        f = base
        if initial is not None:
            first = num(asarr(I, initial).elems[0])
            f = lambda g: base([first] + list(g))
        if name in ("argmin", "argmax") and isinstance(axis, (tuple, list)):
            raise I.exc(TypeError, "'tuple' object cannot be interpreted as an integer")
        dt = {"argmin": "int64", "argmax": "int64", "mean": "float64"}.get(name, promote(a.dtype, "int64"))
        return as_dtype(I, reduce_(I, a, f, axis, keepdims, a.kind, dt), dtype)
    if name in ("min", "max", "argmin", "argmax"):
        # the third positional parameter is `out`
        def h(I, kind, a, axis=None, out=None, keepdims=False, initial=None):
            if out is not None:
                raise Inconclusive(f"{name}(out=)")
            return g(I, kind, a, axis, None, keepdims, initial)
        return h
    return g


def _mean(I, g):
    if not g:
        raise Inconclusive("mean of an empty array")
    return _sum(g) / RF.const(len(g))


def f_maximum(op):
    def g(I, kind, a, b):
        x, y = asarr(I, a), asarr(I, b)

        def f(p, q):
            p, q = num(p), num(q)
            return p if I.sign_of(p - q, "+0" if op == "max" else "-0") else q
        return elementwise(I, f, promote(x.dtype, y.dtype), x, y)
    return g


def f_clip(I, kind, a, a_min=None, a_max=None, min=None, max=None):
    lo = min if a_min is None else a_min
    hi = max if a_max is None else a_max
    a = asarr(I, a)
    los = [None] * a.size if lo is None else [num(e) for e in bget(asarr(I, lo), a.shape)]
    his = [None] * a.size if hi is None else [num(e) for e in bget(asarr(I, hi), a.shape)]

    def f(e, p, q):
        e = num(e)
        if p is not None and I.sign_of(e - p, "-"):
            e = p
        if q is not None and I.sign_of(e - q, "+"):
            e = q
        return e
    dt = a.dtype
    for x in (lo, hi):
        if x is not None:
            dt = promote(dt, asarr(I, x).dtype)
    return ret(I, a.kind, a.shape, [f(e, p, q) for e, p, q in zip(a.elems, los, his)], dt)


def f_eye(I, kind, N, M=None, k=0, dtype=None):
    n = I.as_int(N)
    m = n if M is None else I.as_int(M)
    k = I.as_int(k)
    return cast(Arr((n, m), [RF.const(1 if j - i == k else 0) for i in range(n) for j in range(m)], kind, "float64"), dtype_name(I, dtype, "float64"))


def f_expand_dims(I, kind, a, axis):
    a = asarr(I, a)
    axs = axis if isinstance(axis, (tuple, list)) else (axis,)
    n = len(a.shape) + len(axs)
    axs = [I.as_int(x) for x in axs]
    if any(not -n <= x < n for x in axs):
        raise I.exc(I.ext.axis_error(), f"axis {axis} is out of bounds for array of dimension {n}")
    rest = iter(a.shape)
    axs = [x % n for x in axs]
    sh = tuple(1 if d in axs else next(rest) for d in range(n))
    return Arr(sh, None, a.kind, a.dtype, buf=a.buf, idx=list(a.idx))


def f_squeeze(I, kind, a, axis=None):
    a = asarr(I, a)
    return Arr(tuple(s for s in a.shape if s != 1), None, a.kind, a.dtype, buf=a.buf, idx=list(a.idx))


def f_ravel(I, kind, a, order="C"):
    if order not in ("C", "K", "A"):
        raise Inconclusive("ravel order")
    a = asarr(I, a)
    return reshape(I, a, -1)


def f_hstack(I, kind, xs, dtype=None):
    if dtype is not None:
        return as_dtype(I, f_hstack(I, kind, xs), dtype)
    arrs = [atleast_1d(I, kind, x) for x in I.iterate(xs)]
    return _concat(I, arrs, 0 if all(len(a.shape) == 1 for a in arrs) else 1, kind)


def f_vstack(I, kind, xs, dtype=None):
    if dtype is not None:
        return as_dtype(I, f_vstack(I, kind, xs), dtype)
    arrs = [asarr(I, x) for x in I.iterate(xs)]
    arrs = [Arr((1, a.size), a.elems, a.kind, a.dtype) if len(a.shape) < 2 else a for a in arrs]
    return _concat(I, arrs, 0, kind)


def f_append(I, kind, a, b, axis=None):
    return _concat(I, [f_ravel(I, kind, a), f_ravel(I, kind, b)], 0, kind)


def f_roll(I, kind, a, shift, axis=None):
    a = asarr(I, a)
    if len(a.shape) == 1 or axis == 0:
        n = a.shape[0]
        s = I.as_int(shift) % n if n else 0
        order = [(i - s) % n for i in range(n)] if n else []
        return getitem(I, a, order)
    raise Inconclusive("roll")


def f_diff(I, kind, a, **kw):
    a = asarr(I, a)
    e = [num(x) for x in a.elems]
    if len(a.shape) == 1:
        return Arr((len(e) - 1,), [q - p for p, q in zip(e, e[1:])], a.kind, a.dtype)
    if len(a.shape) == 2 and kw.get("axis", -1) == 0:
        c = a.shape[1]
        return Arr((a.shape[0] - 1, c), [e[i + c] - e[i] for i in range(len(e) - c)], a.kind, a.dtype)
    raise Inconclusive("diff")


def f_array_equal(I, kind, a, b, **kw):
    x, y = asarr(I, a), asarr(I, b)
    if x.shape != y.shape:
        return False
    return all(decide(I, e) for e in asarr(I, compare(I, "==", x, y)).elems) if x.size else True


def f_isnan(I, kind, a):
    a = asarr(I, a)
    return ret(I, a.kind, a.shape, [False] * a.size, "bool")


def f_isfinite(I, kind, a):
    a = asarr(I, a)
    return ret(I, a.kind, a.shape, [True] * a.size, "bool")


def f_isscalar(I, kind, a):
    return isinstance(a, (int, float, str, Num, bool))


def f_det(I, kind, a):
    a = asarr(I, a)
    if len(a.shape) != 2 or a.shape[0] != a.shape[1]:
        raise I.exc(I.ext.linalg_error(), "Last 2 dimensions of the array must be square")
    return ret(I, a.kind, (), [exact_det(I, a)], "float64")


def f_outer(I, kind, a, b):
    x, y = asarr(I, a), asarr(I, b)
    return Arr((x.size, y.size), [num(p) * num(q) for p in x.elems for q in y.elems], outkind(x, y), "float64")


def f_einsum(I, kind, sub, *ops):
    if not isinstance(sub, str) or "." in sub:
        raise Inconclusive("einsum")
    ops = [asarr(I, x) for x in ops]
    sub = sub.replace(" ", "")
    ins, arrow, out = sub.partition("->")
    ins = ins.split(",")
    if not arrow:
        al = "".join(ins)
        out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    if len(ins) != len(ops) or any(len(t) != len(o.shape) for t, o in zip(ins, ops)):
        raise I.exc(ValueError, "einstein sum subscripts do not fit the operands")
    dim = {}
    for t, o in zip(ins, ops):
        for c, n in zip(t, o.shape):
            if dim.setdefault(c, n) != n:
                raise I.exc(ValueError, "einsum: operands could not be broadcast together")
    inner = [c for c in dim if c not in out]
    els = [[num(e) for e in o.elems] for o in ops]
    sts = [strides(o.shape) for o in ops]
    res = []
    for mi in itertools.product(*[range(dim[c]) for c in out]):
        at = dict(zip(out, mi))
        s = RF({})
        for mj in itertools.product(*[range(dim[c]) for c in inner]):
            at.update(zip(inner, mj))
            t = RF.const(1)
            for lab, e, st in zip(ins, els, sts):
                t = t * e[sum(at[c] * k for c, k in zip(lab, st))]
            s = s + t
        res.append(s)
    dt = "int64"
    for o in ops:
        dt = promote(dt, o.dtype)
    return ret(I, outkind(*ops), tuple(dim[c] for c in out), res, dt)


def f_select(I, kind, conds, choices, default=0):
    for c, x in zip(I.iterate(conds), I.iterate(choices)):
        if decide(I, asarr(I, c).elems[0]):
            return x
    return default


def f_flatnonzero(I, kind, a):
    a = asarr(I, a)
    idx = [i for i, e in enumerate(a.elems) if decide(I, e)]
    return Arr((len(idx),), [RF.const(i) for i in idx], kind, "int64")


def f_bool2(op):
    def g(I, kind, a, b):
        return elementwise(I, lambda p, q: SymBool(op=op, val=(p, q)), "bool", asarr(I, a), asarr(I, b))
    return g


def f_not(I, kind, a):
    return elementwise(I, lambda p: SymBool(op="not", val=(p,)), "bool", asarr(I, a))


def f_argsort(I, kind, a, **kw):
    a = asarr(I, a)
    import functools
    e = [num(x) for x in a.elems]
    order = sorted(range(len(e)), key=functools.cmp_to_key(
        lambda i, j: -1 if I.sign_of(e[i] - e[j], "-") else (1 if I.sign_of(e[i] - e[j], "+") else 0)))
    return Arr((len(e),), [RF.const(i) for i in order], kind, "int64")


def f_sort(I, kind, a, **kw):
    return getitem(I, asarr(I, a), f_argsort(I, kind, a))


def f_fromiter(I, kind, it, dtype=None, **kw):
    return f_array(I, kind, list(I.iterate(it)), dtype)


def f_take(I, a, i, axis=None):
    a = asarr(I, a)
    if isinstance(i, (list, tuple)) and not i:
        i = Arr((0,), [], "np", "int64")
    if isinstance(i, (list, tuple)):
        i = asarr(I, i)
    if axis is None:
        a, axis = reshape(I, a, -1), 0
    ax = norm_axes(I, a, axis)[0]
    return getitem(I, a, (slice(None),) * ax + (i,))


def f_round(I, a, decimals=0):
    a = asarr(I, a)
    d = I.as_int(decimals)
    if a.dtype.startswith("int") and d >= 0:
        return Arr(a.shape, list(a.elems), a.kind, a.dtype) if a.shape or a.kind != "np" else scalar(I, a.elems[0], a.dtype)

    def f(e):
        e = num(e)
        if e.is_const():
            c = e.const_value() * Fraction(10) ** d
            return RF.const(Fraction(round(c)) / Fraction(10) ** d)
        return T.app("round", e, *([RF.const(d)] if d else []))
    return ret(I, a.kind, a.shape, [f(e) for e in a.elems], a.dtype)


FUNCS = {
    "array": f_array, "asarray": f_asarray, "asanyarray": f_asarray, "ascontiguousarray": f_asarray,
    "copy": lambda I, k, a, order="K": f_array(I, k, a),
    "zeros": f_full(0), "ones": f_full(1), "empty": f_full(0), "full": f_full(None),
    "zeros_like": f_full_like(0), "ones_like": f_full_like(1), "full_like": f_full_like(None), "empty_like": f_full_like(0),
    "arange": f_arange, "linspace": f_linspace, "eye": f_eye, "identity": f_eye,
    "concatenate": lambda I, k, arrays, axis=0, dtype=None: as_dtype(I, _concat(I, arrays, axis, k), dtype),
    "concat": lambda I, k, arrays, axis=0, dtype=None: as_dtype(I, _concat(I, arrays, axis, k), dtype),
    "stack": lambda I, k, arrays, axis=0, dtype=None: as_dtype(I, _stack(I, arrays, axis, k), dtype),
    "hstack": f_hstack, "vstack": f_vstack, "append": f_append, "row_stack": f_vstack,
    "column_stack": lambda I, k, xs: _concat(I, [reshape(I, x, -1, 1) if len(asarr(I, x).shape) < 2 else x for x in I.iterate(xs)], 1, k),
    "atleast_1d": lambda I, k, *xs: atleast_1d(I, k, *xs),
    "atleast_2d": lambda I, k, x: (lambda a: a if len(a.shape) >= 2 else Arr((1, a.size), a.elems, a.kind, a.dtype))(asarr(I, x)),
    "dot": lambda I, k, a, b: dot(I, a, b), "vdot": lambda I, k, a, b: dot(I, f_ravel(I, k, a), f_ravel(I, k, b)),
    "inner": lambda I, k, a, b: dot(I, a, transpose(I, b)), "matmul": lambda I, k, a, b: matmul(I, a, b),
    "outer": f_outer, "einsum": f_einsum,
    "cross": cross,
    "sum": mkred("sum"), "prod": mkred("prod"), "min": mkred("min"), "max": mkred("max"),
    "amin": mkred("min"), "amax": mkred("max"), "argmin": mkred("argmin"), "argmax": mkred("argmax"),
    "mean": mkred("mean"), "nansum": mkred("sum"),
    "cumsum": lambda I, k, a: cumulative(I, a, lambda x, y: x + y, k),
    "cumprod": lambda I, k, a: cumulative(I, a, lambda x, y: x * y, k),
    "arctan2": f_arctan2, "hypot": f_hypot, "where": f_where, "isclose": f_isclose, "allclose": f_allclose,
    "all": f_all, "any": f_any, "split": f_split, "array_split": f_array_split,
    "reshape": lambda I, k, a, shape, order="C": reshape(I, a, shape, order=order), "ravel": f_ravel,
    "transpose": lambda I, k, a, axes=None: transpose(I, a, axes), "permute_dims": lambda I, k, a, axes=None: transpose(I, a, axes),
    "matrix_transpose": lambda I, k, a: transpose(I, a),
    "squeeze": f_squeeze, "expand_dims": f_expand_dims, "broadcast_to": broadcast_to,
    "size": f_size, "shape": f_shape, "ndim": f_ndim, "maximum": f_maximum("max"), "minimum": f_maximum("min"),
    "fmax": f_maximum("max"), "fmin": f_maximum("min"),
    "clip": f_clip, "roll": f_roll, "diff": f_diff, "array_equal": f_array_equal, "isnan": f_isnan,
    "isfinite": f_isfinite, "isscalar": f_isscalar, "ravel_multi_index": f_ravel_multi_index,
    "unravel_index": f_unravel_index, "flip": lambda I, k, a: getitem(I, asarr(I, a), slice(None, None, -1)),
    "flatnonzero": f_flatnonzero, "logical_and": f_bool2("and"), "logical_or": f_bool2("or"),
    "logical_not": f_not, "invert": lambda I, k, a: f_not(I, k, a) if asarr(I, a).dtype == "bool" else B.unary(I, "invert", a), "bitwise_and": f_bool2("and"), "bitwise_or": f_bool2("or"), "argsort": f_argsort, "sort": f_sort, "fromiter": f_fromiter,
    "repeat": lambda I, k, a, n: (lambda x: Arr((x.size * I.as_int(n),), [e for e in x.elems for _ in range(I.as_int(n))], x.kind, x.dtype))(asarr(I, a)),
    "tile": lambda I, k, a, n: (lambda x: Arr((x.size * I.as_int(n),), x.elems * I.as_int(n), x.kind, x.dtype))(asarr(I, a)),
    "take": lambda I, k, a, indices, axis=None: f_take(I, a, indices, axis),
    "round": lambda I, k, a, decimals=0: f_round(I, a, decimals),
}
FUNCS["around"] = FUNCS["round"]

LINALG = {
    "norm": lambda I, k, a, ord=None, axis=None, keepdims=False: _norm(I, a, ord, axis, keepdims),
    "lstsq": f_lstsq, "pinv": f_pinv, "det": f_det, "matrix_rank": lambda I, k, a: f_rank(I, a),
    "vector_norm": lambda I, k, a, axis=None, keepdims=False: _norm(I, a, None, axis, keepdims),
}


def f_rank(I, a):
    a = asarr(I, a)
    if len(a.shape) < 2:
        return any(decide(I, SymBool(num(e), "+-")) for e in a.elems) and 1 or 0
    es = [num(e) for e in a.elems]
    if len(a.shape) == 2 and all(e.is_const() for e in es):
        n, m = a.shape
        rows = [[e.const_value() for e in es[i * m:(i + 1) * m]] for i in range(n)]
        r = 0
        for c in range(m):
            p = next((k for k in range(r, n) if rows[k][c]), None)
            if p is None:
                continue
            rows[r], rows[p] = rows[p], rows[r]
            for k in range(r + 1, n):
                q = rows[k][c] / rows[r][c]
                rows[k] = [x - q * y for x, y in zip(rows[k], rows[r])]
            r += 1
        return Num(RF.const(r), "np.int64")
    return Num(T.app("rank", a.shape[0], *[num(e) for e in a.elems], sign="0+"), "np.int64")


def linalg_function(I, name, kind):
    fn = LINALG.get(name)
    pre = None
    if fn is None and name in ("solve", "inv"):
        pre = prelude(I, name, kind)
    if fn is None and name in ("matmul", "outer", "cross", "trace", "diagonal", "matrix_transpose", "tensordot"):
        return module_function(I, name, kind)
    if fn is None and pre is None:
        return None

    def f(I, a, kw):
        if kind == "np":
            for x in list(a) + list(kw.values()):
                if _has_trc(x):
                    raise tracer_error(I)
        if pre is not None:
            return _fix(I, pre(*a, **kw), kind)
        kw = _keywords(I, name, fn, kw)
        try:
            r = fn(I, kind, *a, **kw)
        except TypeError as e:
            if "argument" in str(e):
                raise Inconclusive(f"linalg.{name}: {e}")
            raise
        if name == "lstsq" and kind == "jnp":
            return tuple(_fix(I, x, kind) for x in r)
        return _fix(I, r, kind)
    return Builtin(name, f)


DUCK = {
    "ndim", "shape", "size", "reshape", "squeeze", "sum", "prod", "max", "min", "amax", "amin", "mean", "argmin", "argmax",
    "argsort", "all", "any", "cumsum", "cumprod", "transpose", "repeat", "round", "around", "split", "array_split", "flip",
    "std", "var", "real", "imag", "cumprod", "take", "nonzero", "trace", "diagonal", "swapaxes", "searchsorted", "compress", "choose", "clip", "isscalar", "iterable", "result_type",
}

def _method(name):
    """the method which does what the module's function of the same name does"""
    def f(I, o, *a, **kw):
        g = module_function(I, name, "np" if o.kind == "np" else "jnp")
        return g.fn(I, [o, *a], kw)
    return f


def _sort_in_place(I, o, axis=-1, kind=None, order=None, stable=None):
    r = module_function(I, "sort", "np" if o.kind == "np" else "jnp").fn(I, [o], {"axis": axis})
    if o.kind != "np":
        return r
    setitem(I, o, Ellipsis, r)


def _order(fn):
    def f(I, o, order="C"):
        if order not in ("C", "K", "A"):
            raise Inconclusive("array order")
        return fn(I, o)
    return f


ARRM = {
    "copy": _order(lambda I, o: Arr(o.shape, list(o.elems), o.kind, o.dtype)),
    "flatten": _order(lambda I, o: Arr((o.size,), list(o.elems), o.kind, o.dtype)),
    "ravel": _order(lambda I, o: reshape(I, o, -1)),
    "reshape": lambda I, o, *s, order="C", copy=None: reshape(I, o, *s, order=order),
    "transpose": lambda I, o, *s: transpose(I, o, *s),
    "astype": lambda I, o, dtype, copy=True, casting=None, order=None: (lambda r: Arr(r.shape, list(r.elems), r.kind, r.dtype) if copy or r is not o else o)(cast(o, dtype_name(I, dtype, o.dtype))),
    "tolist": lambda I, o: _tolist(I, o),
    "item": lambda I, o, *i: _item(I, o, *i),
    "fill": lambda I, o, value: setitem(I, o, Ellipsis, value),
    "view": lambda I, o: Arr(o.shape, None, o.kind, o.dtype, buf=o.buf, idx=list(o.idx)),
    "block_until_ready": lambda I, o: o,
    "sort": _sort_in_place,
    "__add__": lambda I, o, b: binop(I, "+", o, b),
    "__sub__": lambda I, o, b: binop(I, "-", o, b),
    "__mul__": lambda I, o, b: binop(I, "*", o, b),
    "__getitem__": lambda I, o, i: getitem(I, o, i),
    "__setitem__": lambda I, o, i, v: setitem(I, o, i, v),
    "__copy__": lambda I, o: Arr(o.shape, list(o.elems), o.kind, o.dtype),
    "__deepcopy__": lambda I, o, memo=None: Arr(o.shape, list(o.elems), o.kind, o.dtype),
}
for _n in ("sum", "prod", "min", "max", "mean", "argmin", "argmax", "all", "any", "dot", "squeeze", "cumsum", "cumprod", "round",
           "clip", "repeat", "take", "argsort", "trace", "diagonal", "swapaxes", "std", "var", "nonzero", "searchsorted",
           "compress", "choose", "put", "ptp"):
    ARRM[_n] = _method(_n)


def _tolist(I, o):
    if o.kind == "trc":
        raise tracer_error(I)
    if o.shape == ():
        return _item(I, o)
    out = []
    for i in range(o.shape[0]):
        x = getitem(I, o, i)
        out.append(_tolist(I, x) if isinstance(x, Arr) else _item(I, asarr(I, x)))
    return out


def _item(I, o, *i):
    if o.kind == "trc":
        raise tracer_error(I)
    if i:
        o = asarr(I, getitem(I, o, tuple(i) if len(i) > 1 else i[0]))
    if o.size != 1:
        raise I.exc(ValueError, "can only convert an array of size 1 to a Python scalar")
    e = o.elems[0]
    if o.dtype == "bool":
        return decide(I, e)
    if o.dtype == "object":
        return e
    return B.mknum(num(e), "int" if o.dtype.startswith("int") else "float")
