"""Models (transfer functions) of the external libraries the repository calls.

Every model states the documented contract of the library function over the abstract values.
A name without a model evaluates to an opaque value whose *use* raises Inconclusive.
"""
import itertools
import math
import re

from . import terms as T
from . import builtins_model as B
from . import np_model as N
from .astr import AStr
from .terms import Inconclusive, RF
from .interp import (
    Arr, Bound, Builtin, CachedProperty, ClassMethod, Cls, Func, GenObj, Module, NTuple, Num, Obj,
    Opaque, OpaqueFn, Property, PyExc, StaticMethod, TypeExpr, mro_of,
)

SUBMODULES = {
    "jax": ["numpy", "tree_util", "typing", "lax", "tree", "config", "random"],
    "numpy": ["linalg", "typing", "random"],
    "jax.numpy": ["linalg"],
    "scipy": ["optimize"],
    "matplotlib": ["pyplot", "axes", "axis", "figure", "patches", "colors", "ticker", "lines", "text",
                   "transforms", "collections", "backend_bases", "artist", "cm", "path"],
    "collections": ["abc"],
    "os": ["path"],
}


def module(I, name):
    if name in I.ext_cache:
        return I.ext_cache[name]
    m = Module(name, {"__name__": name}, None)
    I.ext_cache[name] = m
    if "." in name:
        p, c = name.rsplit(".", 1)
        module(I, p).ns[c] = m
    return m


def bi(name, fn):
    return Builtin(name, fn)


def module_attr(I, m, name):
    v = _module_attr(I, m, name)
    m.ns[name] = v
    return v


def _module_attr(I, m, name):
    full = f"{m.name}.{name}"
    if name in SUBMODULES.get(m.name, ()):
        return module(I, full)
    if name.startswith("__"):
        raise I.exc(AttributeError, f"module '{m.name}' has no attribute '{name}'")
    if full in PATCHABLE:
        default = PATCHABLE[full]

        def f(I, a, kw, full=full, default=default):
            g = I.models.get(full)
            if g is not None:
                return I.call(g, a, kw)
            if default is None:
                raise Inconclusive(f"call of {full} without a model in this context")
            return default(I, a, kw)
        return bi(full, f)
    h = HANDLERS.get(m.name)
    if h is not None:
        v = h(I, name)
        if v is not MISSING:
            return v
    if m.name.split(".")[0] in ("typing", "typing_extensions", "matplotlib", "numbers", "abc") or m.name in (
            "collections.abc", "numpy.typing", "jax.typing"):
        return TypeExpr(name if m.name.split(".")[0] != "matplotlib" else full)
    return Opaque(full)


MISSING = object()


def pystd(I, name):
    """a definition of the prelude (standard library written in Python)"""
    return I.load_module("_pystd").ns[name]


def prelude_h(module):
    def h(I, name):
        return I.load_module("_pystd").ns.get(f"{module}_{name}", MISSING)
    return h


def _table(tab):
    def h(I, name):
        v = tab.get(name, MISSING)
        if v is MISSING:
            return MISSING
        if callable(v) and not isinstance(v, (type, Cls)):
            return bi(name, v)
        return v
    return h


# ------------------------------------------------------------------ typing & co

def t_namedtuple(I, a, kw):
    nm, fields = a[0], a[1]
    if isinstance(fields, str):
        fields = fields.replace(",", " ").split()
    fields = [f[0] if isinstance(f, tuple) else f for f in I.iterate(fields)]
    defs = list(I.iterate(kw.get("defaults") or ()))
    d = dict(zip(fields[len(fields) - len(defs):], defs))
    return B.make_namedtuple(I, nm, fields, d, {})


def typing_h(I, name):
    if name in ("cast",):
        return bi(name, lambda I, a, kw: a[1])
    if name == "NamedTuple":
        return TypeExpr("NamedTuple")
    if name == "TYPE_CHECKING":
        return False
    if name in ("overload", "final", "no_type_check", "runtime_checkable", "override"):
        return bi(name, lambda I, a, kw: a[0])
    if name == "get_type_hints":
        return MISSING
    return TypeExpr(name)


def collections_h(I, name):
    if name == "namedtuple":
        return bi(name, t_namedtuple)
    if name == "OrderedDict":
        return dict
    if name == "defaultdict":
        return bi(name, defaultdict)
    if name == "deque":
        return pystd(I, name)
    if name == "ChainMap":
        return pystd(I, name)
    if name == "Counter":
        def counter(I, a, kw):
            o = defaultdict(I, ["counter"], {})
            I.call(pystd(I, "counter_update"), [o, a[0] if a else (), ])
            o.update(kw)
            return o
        return bi(name, counter)
    return MISSING


def defaultdict(I, a, kw):
    d = dict(B.to_dict(I, a[1]) if len(a) > 1 else {})
    d.update(kw)
    I.py_id(d)                      # keeps d alive, so that its host id stays unique
    I.ddfactory[id(d)] = a[0] if a else None
    return d


# ------------------------------------------------------------------ itertools / functools / operator

def it_accumulate(I, a, kw):
    f = a[1] if len(a) > 1 else kw.get("func")
    has = "initial" in kw and kw["initial"] is not None

    def g():
        it = iter(I.iterate(a[0]))
        if has:
            acc = kw["initial"]
        else:
            try:
                acc = next(it)
            except StopIteration:
                return
        yield acc
        for x in it:
            acc = I.binop("+", acc, x) if f is None else I.call(f, [acc, x])
            yield acc
    return GenObj(g(), "accumulate")


def lazy(name, mk):
    return bi(name, lambda I, a, kw: GenObj(iter(mk(I, a, kw)), name))


def _islice(I, a):
    xs = I.iterate(a[0])
    return itertools.islice(xs, *[x if x is None else I.as_int(x) for x in a[1:]])


def _groupby(I, a, kw):
    key = a[1] if len(a) > 1 else kw.get("key")
    cur, grp = None, None
    out = []
    for x in I.iterate(a[0]):
        k = x if key is None else I.call(key, [x])
        if grp is None or not I.truth(B.equal(I, k, cur)):
            cur, grp = k, []
            out.append((k, grp))
        grp.append(x)
    return [(k, GenObj(iter(g), "group")) for k, g in out]


def _tee(I, a, kw):
    n = I.as_int(a[1]) if len(a) > 1 else 2
    return tuple(GenObj(g, "tee") for g in itertools.tee(iter(I.iterate(a[0])), n))


def itertools_h(I, name):
    if name == "chain":
        return itertools.chain
    tab = {
        "product": lambda I, a, kw: itertools.product(*[list(I.iterate(x)) for x in a], repeat=I.as_int(kw.get("repeat", 1))),
        "count": lambda I, a, kw: itertools.count(*[I.as_int(x) for x in a], **{k: I.as_int(v) for k, v in kw.items()}),
        "repeat": lambda I, a, kw: itertools.repeat(a[0], *[I.as_int(x) for x in list(a[1:]) + list(kw.values())]),
        "islice": lambda I, a, kw: _islice(I, a),
        "starmap": lambda I, a, kw: (I.call(a[0], list(I.iterate(x))) for x in I.iterate(a[1])),
        "zip_longest": lambda I, a, kw: itertools.zip_longest(*[I.iterate(x) for x in a], fillvalue=kw.get("fillvalue")),
        "combinations": lambda I, a, kw: itertools.combinations(list(I.iterate(a[0])), I.as_int(a[1])),
        "permutations": lambda I, a, kw: itertools.permutations(list(I.iterate(a[0])), *[I.as_int(x) for x in a[1:]]),
        "combinations_with_replacement": lambda I, a, kw: itertools.combinations_with_replacement(list(I.iterate(a[0])), I.as_int(a[1])),
        "pairwise": lambda I, a, kw: itertools.pairwise(I.iterate(a[0])),
        "cycle": lambda I, a, kw: itertools.cycle(I.iterate(a[0])),
        "takewhile": lambda I, a, kw: itertools.takewhile(lambda x: I.truth(I.call(a[0], [x])), I.iterate(a[1])),
        "dropwhile": lambda I, a, kw: itertools.dropwhile(lambda x: I.truth(I.call(a[0], [x])), I.iterate(a[1])),
        "filterfalse": lambda I, a, kw: itertools.filterfalse(lambda x: I.truth(x if a[0] is None else I.call(a[0], [x])), I.iterate(a[1])),
        "compress": lambda I, a, kw: (x for x, s in zip(I.iterate(a[0]), I.iterate(a[1])) if I.truth(s)),
        "groupby": _groupby,
    }
    if name in tab:
        return lazy(name, tab[name])
    if name == "accumulate":
        return bi(name, it_accumulate)
    if name == "tee":
        return bi(name, _tee)
    if name == "batched":
        def batched(I, a, kw):
            xs = list(I.iterate(a[0]))
            n = I.as_int(a[1])
            return [tuple(xs[i:i + n]) for i in range(0, len(xs), n)]
        return lazy(name, batched)
    return MISSING


def f_reduce(I, a, kw):
    it = iter(I.iterate(a[1]))
    if len(a) > 2:
        acc = a[2]
    elif "initial" in kw:
        acc = kw["initial"]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise I.exc(TypeError, "reduce() of empty iterable with no initial value")
    for x in it:
        acc = I.call(a[0], [acc, x])
    return acc


def f_partial(I, a, kw):
    f, pre, prekw = a[0], list(a[1:]), dict(kw)
    b = bi("partial", lambda I, a2, kw2: I.call(f, pre + list(a2), {**prekw, **kw2}))
    b.attrs.update({"func": f, "args": tuple(pre), "keywords": prekw, "static": True})
    return b


def f_memo(I, f):
    cache = {}

    def g(I, a, kw):
        key = (tuple(I.hashable(x) if not isinstance(x, (Num, Obj)) else I.value_key(x) for x in a),
               tuple((k, I.hashable(v)) for k, v in sorted(kw.items())))
        for x in a:
            if isinstance(x, (list, dict, set, Arr)):
                raise I.exc(TypeError, f"unhashable type: '{I.tname(x)}'")
        if key not in cache:
            cache[key] = I.call(f, a, kw)
        return cache[key]
    b = bi(getattr(f, "qualname", "cached"), g)
    b.attrs["__wrapped__"] = f
    b.attrs["cache_clear"] = bi("cache_clear", lambda I, a, kw: cache.clear())
    return b


def _lru(I, a, kw):
    if a and isinstance(a[0], (Func, Builtin, Bound)):
        return f_memo(I, a[0])
    return bi("lru_cache", lambda I, a2, kw2: f_memo(I, a2[0]))


def _wraps(I, a, kw):
    def deco(I, a2, kw2):
        f = a2[0]
        if isinstance(f, (Func, Builtin)):
            try:
                f.attrs["__name__"] = I.getattr(a[0], "__name__")
            except PyExc:
                pass
            f.attrs["__wrapped__"] = a[0]
        return f
    return bi("wraps", deco)


FUNCTOOLS = {
    "reduce": f_reduce, "partial": f_partial, "wraps": _wraps,
    "lru_cache": _lru, "cache": lambda I, a, kw: f_memo(I, a[0]),
    "cached_property": lambda I, a, kw: CachedProperty(a[0], a[0].qualname.rsplit(".", 1)[-1]),
    "update_wrapper": lambda I, a, kw: a[0],
}


def functools_h(I, name):
    if name in ("cmp_to_key", "singledispatch", "singledispatchmethod", "total_ordering"):
        return pystd(I, name)
    return _table(FUNCTOOLS)(I, name)


def _itemgetter(I, a, kw):
    ks = list(a)
    return bi("itemgetter", lambda I, x, kw: I.getitem(x[0], ks[0]) if len(ks) == 1 else tuple(I.getitem(x[0], k) for k in ks))


def _attrgetter(I, a, kw):
    def one(o, n):
        for p in n.split("."):
            o = I.getattr(o, p)
        return o
    ks = list(a)
    return bi("attrgetter", lambda I, x, kw: one(x[0], ks[0]) if len(ks) == 1 else tuple(one(x[0], k) for k in ks))


def _methodcaller(I, a, kw):
    return bi("methodcaller", lambda I, x, kw2: I.call(I.getattr(x[0], a[0]), list(a[1:]), kw))


def operator_h(I, name):
    ops = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**",
           "matmul": "@", "or_": "|", "and_": "&", "xor": "^", "concat": "+"}
    if name in ops:
        return bi(name, lambda I, a, kw: I.binop(ops[name], a[0], a[1]))
    if name in ("iadd", "iconcat", "imul", "ior"):
        op = {"iadd": "+", "iconcat": "+", "imul": "*", "ior": "|"}[name]
        return bi(name, lambda I, a, kw: I.inplace(op, a[0], a[1]))
    cmps = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
    if name in cmps:
        return bi(name, lambda I, a, kw: B.compare(I, cmps[name], a[0], a[1]))
    if name in ("neg", "pos", "invert", "inv"):
        return bi(name, lambda I, a, kw: B.unary(I, {"inv": "invert"}.get(name, name), a[0]))
    if name == "abs":
        return I.builtins["abs"]
    if name == "countOf":
        return bi(name, lambda I, a, kw: sum(1 for x in I.iterate(a[0]) if x is a[1] or I.truth(B.equal(I, x, a[1]))))
    if name == "delitem":
        return bi(name, lambda I, a, kw: B.delitem(I, a[0], a[1]))
    if name == "is_":
        return bi(name, lambda I, a, kw: B.is_(a[0], a[1]))
    if name == "is_not":
        return bi(name, lambda I, a, kw: not B.is_(a[0], a[1]))
    if name == "not_":
        return bi(name, lambda I, a, kw: not I.truth(a[0]))
    if name == "truth":
        return bi(name, lambda I, a, kw: I.truth(a[0]))
    if name == "contains":
        return bi(name, lambda I, a, kw: B.contains(I, a[0], a[1]))
    if name == "getitem":
        return bi(name, lambda I, a, kw: I.getitem(a[0], a[1]))
    if name == "setitem":
        return bi(name, lambda I, a, kw: I.setitem(a[0], a[1], a[2]))
    if name == "index":
        return bi(name, lambda I, a, kw: I.as_int(a[0]))
    if name == "length_hint":
        return MISSING
    t = {"itemgetter": _itemgetter, "attrgetter": _attrgetter, "methodcaller": _methodcaller}.get(name)
    return bi(name, t) if t else MISSING


# ------------------------------------------------------------------ math

def math_h(I, name):
    if name in ("gcd", "factorial", "comb", "perm", "lcm", "isqrt", "sumprod"):
        return pystd(I, name)
    if name in ("sinh", "cosh", "tanh", "log1p", "expm1", "copysign"):
        return pystd(I, "math_" + name)
    if name in ("log2", "log10", "fmod", "modf", "remainder", "cbrt", "ldexp", "frexp", "exp2"):
        def conc(I, a, kw):
            if all(type(x) in (int, float) for x in a):
                return getattr(math, name)(*a)
            raise Inconclusive(f"math.{name} of a symbolic value")
        return bi(name, conc)
    if name == "pi":
        return Num(N.pi(), "float")
    if name == "tau":
        return Num(N.pi() * RF.const(2), "float")
    if name in ("inf", "nan", "e"):
        return getattr(math, name)

    def c(x):
        if isinstance(x, Arr):
            if x.kind == "trc":
                raise I.exc(TypeError, "TracerFloatConversionError")
            if x.size != 1:
                raise I.exc(TypeError, "only length-1 arrays can be converted to Python scalars")
            return N.num(x.elems[0])
        if isinstance(x, (int, float, Num)):
            return B.rf(x)
        raise I.exc(TypeError, f"must be real number, not {I.tname(x)}")

    alias = {"atan2": "arctan2", "acos": "arccos", "asin": "arcsin", "atan": "arctan", "fabs": "abs"}
    un = alias.get(name, name)
    if un in ("cos", "sin", "tan", "sqrt", "abs", "floor", "ceil", "exp", "log", "arccos", "arcsin", "arctan", "degrees", "radians"):
        g = N.ufn(I, un)

        def f(I, a, kw):
            x = c(a[0])
            if un in ("arccos", "arcsin") and not I.sign_of(RF.const(1) - x * x, "+0"):
                raise I.exc(ValueError, "math domain error")
            r = g(x)
            return B.mknum(r, "int" if un in ("floor", "ceil", "trunc") else "float")
        return bi(name, f)
    if name == "trunc":
        return bi(name, lambda I, a, kw: B.call_type(I, int, [a[0]], {}))
    if name == "atan2":
        return bi(name, lambda I, a, kw: B.mknum(T.t_arctan2(c(a[0]), c(a[1])), "float"))
    if name == "hypot":
        def hyp(I, a, kw):
            s = RF({})
            for x in a:
                s = s + c(x) * c(x)
            return B.mknum(T.t_sqrt(s), "float")
        return bi(name, hyp)
    if name == "dist":
        def dist(I, a, kw):
            s = RF({})
            for x, y in zip(I.iterate(a[0]), I.iterate(a[1])):
                d = c(x) - c(y)
                s = s + d * d
            return B.mknum(T.t_sqrt(s), "float")
        return bi(name, dist)
    if name == "pow":
        return bi(name, lambda I, a, kw: I.binop("**", a[0], a[1]))
    if name == "prod":
        def prod(I, a, kw):
            r = kw.get("start", 1)
            for x in I.iterate(a[0]):
                r = I.binop("*", r, x)
            return r
        return bi(name, prod)
    if name in ("fsum",):
        return bi(name, lambda I, a, kw: B.sum_(I, a, kw))
    if name == "isclose":
        def isclose(I, a, kw):
            x, y = c(a[0]), c(a[1])
            rel, at = c(kw.get("rel_tol", 1e-09)), c(kw.get("abs_tol", 0.0))
            d = x - y
            if T.rf_zero(d):
                return True
            d = T.t_abs(d)
            return I.sign_of(rel * T.t_abs(x) - d, "+0") or I.sign_of(rel * T.t_abs(y) - d, "+0") or \
                (not T.rf_zero(at) and I.sign_of(at - d, "+0"))
        return bi(name, isclose)
    if name in ("isnan", "isinf"):
        return bi(name, lambda I, a, kw: isinstance(a[0], float) and getattr(math, name)(a[0]))
    if name == "isfinite":
        return bi(name, lambda I, a, kw: not isinstance(a[0], float) or math.isfinite(a[0]))
    if name == "copysign":
        def cs(I, a, kw):
            x = T.t_abs(c(a[0]))
            return B.mknum(x if I.sign_of(c(a[1]), "+0") else -x, "float")
        return bi(name, cs)
    return MISSING


# ------------------------------------------------------------------ warnings, contextlib, dataclasses, copy

def _cm(I, enter=None, exit_=None):
    c = Cls("contextmanager", [object], {
        "__enter__": bi("__enter__", lambda I, a, kw: enter(I) if enter else None),
        "__exit__": bi("__exit__", lambda I, a, kw: exit_(I, a[1:]) if exit_ else False)})
    return Obj(c)


def _warn(I, a, kw):
    I.warnings = getattr(I, "warnings", [])
    I.warnings.append(a)
    return None


WARNINGS = {
    "warn": _warn, "simplefilter": lambda I, a, kw: None, "filterwarnings": lambda I, a, kw: None,
    "catch_warnings": lambda I, a, kw: _cm(I), "resetwarnings": lambda I, a, kw: None,
}


def _contextmanager(I, a, kw):
    f = a[0]

    def mk(I, a2, kw2):
        g = I.call(f, a2, kw2)
        it = iter(I.iterate(g))

        def enter(I):
            try:
                return next(it)
            except StopIteration:
                raise I.exc(RuntimeError, "generator didn't yield")

        def exit_(I, e):
            if e and e[0] is not None:
                # throw into the generator: PyExc raised at the yield point
                try:
                    g.gen.throw(PyExc(e[1]))
                except StopIteration:
                    return True
                except PyExc as x:
                    if x.obj is e[1]:
                        return False
                    raise
                raise I.exc(RuntimeError, "generator didn't stop after throw()")
            try:
                next(it)
            except StopIteration:
                return False
            raise I.exc(RuntimeError, "generator didn't stop")
        return _cm(I, enter, exit_)
    return bi(getattr(f, "qualname", "cm"), mk)


def _suppress(I, a, kw):
    return _cm(I, None, lambda I, e: bool(e) and e[0] is not None and any(x in mro_of(e[0]) for x in a))


def _exit_stack(I, a, kw):
    pending = []            # exit functions: (I, exc triple) -> suppressed

    def close(I, e):
        cur = e if e and e[0] is not None else None
        swallowed = False
        while pending:
            fn = pending.pop()
            try:
                if fn(I, list(cur) if cur else [None, None, None]) and cur:
                    cur, swallowed = None, True
            except PyExc as x:
                cur, swallowed = [x.obj.cls, x.obj, None], False
                new = x
                continue
        if cur and not (e and cur[1] is e[1]):
            raise new
        return swallowed and cur is None

    def enter_context(I, a2, kw2):
        cm = a2[-1]
        exit_ = I.getattr(cm, "__exit__")
        v = I.call(I.getattr(cm, "__enter__"), [])
        pending.append(lambda I, e: I.truth(I.call(exit_, e)))
        return v

    def callback(I, a2, kw2):
        f, rest = a2[1], list(a2[2:])
        pending.append(lambda I, e: (I.call(f, rest, kw2), False)[1])
        return f

    def push(I, a2, kw2):
        f = a2[1]
        exit_ = f if isinstance(f, (Func, Bound, Builtin)) else I.getattr(f, "__exit__")
        pending.append(lambda I, e: I.truth(I.call(exit_, e)))
        return f
    cell = []
    cm = _cm(I, lambda I: cell[0], close)
    cell.append(cm)
    cm.cls.ns.update({"enter_context": bi("enter_context", enter_context), "callback": bi("callback", callback),
                      "push": bi("push", push),
                      "close": bi("close", lambda I, a2, kw2: (close(I, [None, None, None]), None)[1])})
    return cm


def _closing(I, a, kw):
    return _cm(I, lambda I: a[0], lambda I, e: (I.call(I.getattr(a[0], "close"), []), False)[1])


CONTEXTLIB = {
    "ExitStack": _exit_stack, "closing": _closing,
    "contextmanager": _contextmanager, "suppress": _suppress,
    "nullcontext": lambda I, a, kw: _cm(I, lambda I: a[0] if a else None),
}


def _dataclass(I, a, kw):
    for k in kw:
        if k not in ("frozen", "eq", "order", "repr", "init", "slots", "kw_only", "unsafe_hash", "match_args"):
            raise Inconclusive(f"dataclass({k}=...)")
    frozen, eq = I.truth(kw.get("frozen", False)), I.truth(kw.get("eq", True))

    def deco(I, a2, kw2):
        cls = a2[0]
        fields = {}
        for c in reversed(cls.mro):
            if isinstance(c, Cls):
                for f, ann in c.ns.get("__annotations__", {}).items():
                    if "ClassVar" in repr(ann):
                        continue
                    if "InitVar" in repr(ann):
                        raise Inconclusive("InitVar")
                    d = c.ns.get("__dataclass_defaults__", c.ns).get(f, MISSING)
                    if isinstance(d, Obj) and d.cls is FIELD and set(d.attrs) - {"default", "default_factory", "repr"}:
                        raise Inconclusive("dataclass field options " + ", ".join(sorted(d.attrs)))
                    if isinstance(d, (list, dict, set)):
                        raise I.exc(ValueError, f"mutable default {type(d)} for field {f} is not allowed: use default_factory")
                    fields[f] = d
        cls.ns["__dataclass_defaults__"] = dict(fields)
        for f, d in fields.items():
            if isinstance(d, Obj) and d.cls is FIELD:
                if "default" in d.attrs:
                    cls.ns[f] = d.attrs["default"]
                else:
                    cls.ns.pop(f, None)

        kw_only = I.truth(kw.get("kw_only", False))

        def init(I, a3, kw3):
            self, vals = a3[0], list(a3[1:])
            if len(vals) > len(fields):
                raise I.exc(TypeError, f"{cls.name}.__init__() takes {len(fields)} arguments")
            got = {}
            for f, v in zip(fields, vals):
                got[f] = v
            for k, v in kw3.items():
                if k not in fields or k in got:
                    raise I.exc(TypeError, f"{cls.name}.__init__() got an unexpected keyword argument '{k}'")
                got[k] = v
            for f, d in fields.items():
                if f in got:
                    v = got[f]
                elif isinstance(d, Obj) and d.cls is FIELD and "default" in d.attrs:
                    v = d.attrs["default"]
                elif isinstance(d, Obj) and d.cls is FIELD and "default_factory" in d.attrs:
                    v = I.call(d.attrs["default_factory"], [])
                elif d is not MISSING and not (isinstance(d, Obj) and d.cls is FIELD):
                    v = d
                else:
                    raise I.exc(TypeError, f"{cls.name}.__init__() missing argument '{f}'")
                self.attrs[f] = v
            if len(vals) > (0 if kw_only else len(fields)):
                raise I.exc(TypeError, f"{cls.name}.__init__() takes too many positional arguments")
            pi_ = I.lookup(cls, "__post_init__")
            if pi_ is not None:
                I.call(I.bind(pi_, self, cls), [])
        def vals(o):
            return tuple(o.attrs[f] for f in fields)

        def same(o, p):
            return isinstance(p, Obj) and p.cls is o.cls

        if "__init__" not in cls.ns and I.truth(kw.get("init", True)):
            cls.ns["__init__"] = bi("__init__", init)
        if eq:
            if "__eq__" not in cls.ns:
                cls.ns["__eq__"] = bi("__eq__", lambda I, a, kw: I.truth(B.equal(I, vals(a[0]), vals(a[1])))
                                      if same(*a) else NotImplemented)
            if "__hash__" not in cls.ns:
                cls.ns["__hash__"] = bi("__hash__", lambda I, a, kw: B._hash(I, [vals(a[0])], {})) \
                    if frozen or I.truth(kw.get("unsafe_hash", False)) else None
        if "__repr__" not in cls.ns and I.truth(kw.get("repr", True)):
            cls.ns["__repr__"] = bi("__repr__", lambda I, a, kw: B.astr.mk((
                cls.ns.get("__qualname__", cls.name), "(", B.astr.join(", ", [B.astr.mk((f, "=", B.repr_(I, a[0].attrs[f]))) for f in fields]), ")")))
        if I.truth(kw.get("order", False)):
            for m, op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
                cls.ns[f"__{m}__"] = bi(f"__{m}__", lambda I, a, kw, op=op: B.compare(I, op, vals(a[0]), vals(a[1]))
                                        if same(*a) else NotImplemented)
        cls.ns["__dataclass_fields__"] = {f: f for f in fields}
        if "__match_args__" not in cls.ns:
            cls.ns["__match_args__"] = () if kw_only else tuple(fields)
        if frozen:
            def sa(I, a, kw):
                raise I.exc(AttributeError, f"cannot assign to field '{a[1]}'")
            cls.ns["__setattr__"] = bi("__setattr__", sa)
        return cls
    if a:
        return deco(I, a, {})
    return bi("dataclass", deco)


FIELD = Cls("Field", [object], {})

DATACLASSES = {
    "dataclass": _dataclass,
    "field": lambda I, a, kw: Obj(FIELD, dict(kw)),
    "replace": lambda I, a, kw: I.call(a[0].cls, [], {**{f: a[0].attrs[f] for f in a[0].cls.ns["__dataclass_fields__"]}, **kw}),
    "asdict": lambda I, a, kw: _as(I, a[0], dict),
    "astuple": lambda I, a, kw: _as(I, a[0], tuple),
    "is_dataclass": lambda I, a, kw: "__dataclass_fields__" in (getattr(a[0], "ns", None) or getattr(getattr(a[0], "cls", None), "ns", None) or ()),
}


def _as(I, v, kind):
    k = type(v)
    if k is Obj and I.lookup(v.cls, "__dataclass_fields__") is not None:
        fs = I.lookup(v.cls, "__dataclass_fields__")
        return {f: _as(I, v.attrs[f], kind) for f in fs} if kind is dict else tuple(_as(I, v.attrs[f], kind) for f in fs)
    if k in (list, tuple):
        return k(_as(I, x, kind) for x in v)
    if k is dict:
        return {x: _as(I, y, kind) for x, y in v.items()}
    return deepcopy(I, v)


# ------------------------------------------------------------------ enum

ENUM = Cls("Enum", [object], {})


class Auto:
    pass


def enum_h(I, name):
    if name == "Enum":
        return ENUM
    if name == "auto":
        return bi("auto", lambda I, a, kw: Auto())
    if name == "unique":
        return bi("unique", lambda I, a, kw: a[0])
    raise Inconclusive(f"enum.{name}")


def make_enum(I, cls):
    """turns the assignments of an `Enum` class body into its members"""
    members, n = {}, 0
    for f, v in list(cls.ns.items()):
        if f.startswith("_") or isinstance(v, (Func, Property, ClassMethod, StaticMethod, Builtin, Bound, Cls)):
            continue
        if isinstance(v, Auto):
            v = n + 1
        n = v if isinstance(v, int) else n
        m = next((x for x in members.values() if I.truth(B.equal(I, x.attrs["_value_"], v))), None)
        if m is None:
            m = Obj(cls, {"_value_": v, "_name_": f, "value": v, "name": f})
            m.site = I.site()
            if I.lookup(cls, "__init__") is not None:
                raise Inconclusive("enum with __init__")
        members[f] = m
        cls.ns[f] = m
    cls.ns["__members__"] = members
    if "__repr__" not in cls.ns:
        cls.ns["__repr__"] = bi("__repr__", lambda I, a, kw: f"<{cls.name}.{a[0].attrs['name']}: ...>")
    if "__str__" not in cls.ns:
        cls.ns["__str__"] = bi("__str__", lambda I, a, kw: f"{cls.name}.{a[0].attrs['name']}")

    def new(I, a, kw):
        if len(a) == 2 and not kw:
            for x in members.values():
                if x is a[1] or I.truth(B.equal(I, x.attrs["_value_"], a[1])):
                    return x
            miss = I.lookup(cls, "_missing_")
            if miss is not None:
                raise Inconclusive("enum._missing_")
        raise I.exc(ValueError, "not a valid member of " + cls.name)
    if members:
        cls.ns["__new__"] = StaticMethod(bi("__new__", new))
        cls.ns["__init__"] = bi("__init__", lambda I, a, kw: None)


def enum_members(cls):
    """the distinct members of an enumeration, or None"""
    if isinstance(cls, Cls) and ENUM in cls.mro and "__members__" in cls.ns:
        out = []
        for m in cls.ns["__members__"].values():
            if not any(m is x for x in out):
                out.append(m)
        return out
    return None


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)][1]

    def keep(r):
        memo[id(v)] = (v, r)
        return r
    k = type(v)
    if k is Arr:
        r = Arr(v.shape, list(v.elems), v.kind, v.dtype)
        return keep(r)
    if k is list:
        r = keep([])
        r.extend(deepcopy(I, x, memo) for x in v)
        return r
    if k is dict:
        r = keep({})
        for kk, x in v.items():
            r[kk] = deepcopy(I, x, memo)
        return r
    if k is tuple:
        return keep(tuple(deepcopy(I, x, memo) for x in v))
    if k is NTuple:
        r = NTuple(deepcopy(I, x, memo) for x in v)
        r.cls = v.cls
        return keep(r)
    if k is set:
        return keep(set(v))
    if k is Obj:
        if ENUM in v.cls.mro:
            return keep(v)
        m = I.lookup(v.cls, "__deepcopy__")
        if m is not None:
            return keep(I.call(I.bind(m, v, v.cls), [{}]))
        r = keep(Obj(v.cls))
        r.site = I.site()
        for a, x in v.attrs.items():
            r.attrs[a] = deepcopy(I, x, memo)
        return r
    if k is GenObj:
        raise I.exc(TypeError, "cannot pickle 'generator' object")
    return v


def shallow(I, v):
    k = type(v)
    if k is Obj and isinstance(v.cls, Cls) and ENUM in v.cls.mro:
        return v
    if k is Arr:
        return Arr(v.shape, list(v.elems), v.kind, v.dtype)
    if k in (list, dict, set):
        return k(v)
    if k is Obj:
        m = I.lookup(v.cls, "__copy__")
        if m is not None:
            return I.call(I.bind(m, v, v.cls), [])
        r = Obj(v.cls, dict(v.attrs))
        r.site = I.site()
        return r
    return v


COPY = {"copy": lambda I, a, kw: shallow(I, a[0]), "deepcopy": lambda I, a, kw: deepcopy(I, a[0])}


def logging_h(I, name):
    c = Cls("Logger", [object], {m: bi(m, lambda I, a, kw: None) for m in
                                 ("debug", "info", "warning", "error", "exception", "log", "setLevel")})
    if name == "getLogger":
        return bi(name, lambda I, a, kw: Obj(c))
    if name in ("debug", "info", "warning", "error", "basicConfig"):
        return bi(name, lambda I, a, kw: None)
    return 10


def types_h(I, name):
    import types as ht
    if name == "GeneratorType":
        return ht.GeneratorType
    if name == "FunctionType":
        return ht.FunctionType
    if name == "SimpleNamespace":
        return bi(name, lambda I, a, kw: Obj(Cls("SimpleNamespace", [object], {}), dict(kw)))
    if name == "MappingProxyType":
        return bi(name, lambda I, a, kw: a[0])
    return MISSING


# ------------------------------------------------------------------ numpy

def _np_scalar(ty):
    def new(I, a, kw):
        v = a[1] if len(a) > 1 else 0
        if isinstance(v, Arr):
            if v.kind == "trc":
                raise N.tracer_error(I)
            if v.shape != ():
                return Arr(v.shape, list(v.elems), "np", ty[3:])
            v = Num(N.num(v.elems[0]), "np.float64")
        if isinstance(v, (int, float, Num)):
            t = B.rf(v)
            if "int" in ty and not (t.is_const() and t.const_value().denominator == 1):
                t = T.app("trunc", t)
            return Num(t, ty)
        raise Inconclusive(f"{ty}({v!r})")
    return StaticMethod(bi("__new__", new))


for _c, _t in ((B.NPFLOAT64, "np.float64"), (B.NPFLOAT32, "np.float32"), (B.NPINT64, "np.int64")):
    _c.ns["__new__"] = _np_scalar(_t)


def numpy_common(I, name, kind):
    if name == "pi":
        return Num(N.pi(), "float")
    if name in ("inf", "nan", "e"):
        return getattr(math, name)
    if name == "newaxis":
        return None
    tab = {"generic": B.NPGENERIC, "float64": B.NPFLOAT64, "float32": B.NPFLOAT32, "float_": B.NPFLOAT64,
           "int64": B.NPINT64, "int_": B.NPINT64, "intp": B.NPINT64, "int32": B.NPINT64, "bool_": B.NPBOOL_,
           "number": B.NPNUMBER, "integer": B.NPINTEGER, "floating": B.NPFLOATING, "double": B.NPFLOAT64}
    if name in tab:
        return tab[name]
    if name == "ndarray":
        return B.NDARRAY if kind == "np" else B.JAXARRAY
    if name == "errstate":
        return bi(name, lambda I, a, kw: _cm(I))
    if name == "ndenumerate":
        def nden(I, a, kw):
            arr = N.asarr(I, a[0])
            return GenObj(iter([(ix, N.scalar(I, e, arr.dtype)) for ix, e in
                                zip(itertools.product(*[range(s) for s in arr.shape]), arr.elems)]), name)
        return bi(name, nden)
    if name == "ndindex":
        def ndix(I, a, kw):
            s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
            return GenObj(iter(list(itertools.product(*[range(I.as_int(x)) for x in s]))), name)
        return bi(name, ndix)
    if name in ("r_", "c_", "s_", "index_exp"):
        N.prelude(I, "size", kind)
        c = I.load_module("_pynp").ns[{"r_": "_R", "c_": "_C"}.get(name, "_S")]
        return I.call(c, [] if c.name == "_S" else [I.load_module("numpy" if kind == "np" else "jax.numpy")])
    if name == "dtype":
        return bi(name, lambda I, a, kw: N.DType(N.dtype_name(I, a[0], "float64")))
    if name in ("may_share_memory", "shares_memory") and kind == "np":
        def share(I, a, kw):
            p, q = [N.asarr(I, x) for x in a[:2]]
            return p.buf is q.buf and (name[0] == "m" or bool(set(p.idx) & set(q.idx)))
        return bi(name, share)
    if name == "issubdtype":
        def issub(I, a, kw):
            p, q = a
            d = N.dtype_name(I, p, "float64")
            kinds = {"float64": {"float64", "floating", "inexact", "number", "generic"}, "float32": {"float32", "floating", "inexact", "number", "generic"},
                     "int64": {"int64", "signedinteger", "integer", "number", "generic"}, "bool": {"bool", "generic"}, "object": {"object", "generic"}}[d]
            if isinstance(q, Cls) and q.name in ("number", "integer", "floating", "generic", "inexact", "signedinteger"):
                return q.name in kinds
            return N.dtype_name(I, q, "?") in kinds
        return bi(name, issub)
    if name == "finfo":
        def finfo(I, a, kw):
            if N.dtype_name(I, a[0], "float64") != "float64":
                raise Inconclusive("finfo")
            o = Obj(Cls("finfo", [object], {}))
            o.attrs.update(eps=2.0 ** -52, max=1.7976931348623157e308, min=-1.7976931348623157e308, tiny=2.0 ** -1022, resolution=1e-15)
            return o
        return bi(name, finfo)
    f = N.module_function(I, name, kind)
    return MISSING if f is None else f


class LinAlgError(ValueError):
    pass


class AxisError(ValueError, IndexError):
    pass


def linalg_error():
    return LinAlgError


def axis_error():
    return AxisError


def linalg_h(kind):
    def h(I, name):
        f = N.linalg_function(I, name, kind)
        if name == "LinAlgError":
            return linalg_error()
        return MISSING if f is None else f
    return h


# ------------------------------------------------------------------ jax

def tree_flatten(I, v, leaves):
    """Flatten following JAX's documented pytree rules; returns a treedef."""
    k = type(v)
    if v is None:
        return ("none",)
    if k is tuple:
        return ("tuple", [tree_flatten(I, x, leaves) for x in v])
    if k is list:
        return ("list", [tree_flatten(I, x, leaves) for x in v])
    if k is NTuple:
        return ("nt", v.cls, [tree_flatten(I, x, leaves) for x in v])
    if k is dict:
        keys = B.sorted_(I, list(v.keys()))
        return ("dict", list(keys), [tree_flatten(I, v[x], leaves) for x in keys])
    if k is Obj and v.cls in I.registry:
        fl, un = I.registry[v.cls]
        r = I.call(fl, [v])
        ch, aux = list(I.iterate(r))
        return ("reg", v.cls, aux, [tree_flatten(I, x, leaves) for x in I.iterate(ch)])
    leaves.append(v)
    return ("leaf",)


def tree_unflatten(I, td, leaves):
    k = td[0]
    if k == "none":
        return None
    if k == "leaf":
        return next(leaves)
    if k == "tuple":
        return tuple(tree_unflatten(I, x, leaves) for x in td[1])
    if k == "list":
        return [tree_unflatten(I, x, leaves) for x in td[1]]
    if k == "nt":
        r = NTuple(tree_unflatten(I, x, leaves) for x in td[2])
        r.cls = td[1]
        return r
    if k == "dict":
        return {kk: tree_unflatten(I, x, leaves) for kk, x in zip(td[1], td[2])}
    ch = tuple(tree_unflatten(I, x, leaves) for x in td[3])
    return I.call(I.registry[td[1]][1], [td[2], ch])


TREEDEF = Cls("PyTreeDef", [object], {})


def _flat(I, a, kw):
    leaves = []
    td = tree_flatten(I, a[0], leaves)
    return (leaves, Obj(TREEDEF, {"td": td}))


def _unflat(I, a, kw):
    return tree_unflatten(I, a[0].attrs["td"], iter(list(I.iterate(a[1]))))


def _tmap(I, a, kw):
    leaves, td = _flat(I, [a[1]], {})
    more = [_flat(I, [x], {})[0] for x in a[2:]]
    out = [I.call(a[0], list(xs)) for xs in zip(leaves, *more)]
    return tree_unflatten(I, td.attrs["td"], iter(out))


def _register(I, a, kw):
    cls, fl, un = a[0], a[1] if len(a) > 1 else kw.get("flatten_func"), a[2] if len(a) > 2 else kw.get("unflatten_func")
    if cls in I.registry:
        raise I.exc(ValueError, f"Duplicate custom PyTreeDef type registration for {cls!r}")
    I.registry[cls] = (fl, un)
    I.registry_sites = getattr(I, "registry_sites", {})
    I.registry_sites[cls] = I.site()


def _register_class(I, a, kw):
    cls = a[0]
    _register(I, [cls, bi("tree_flatten", lambda I, a, kw: I.call(I.getattr(a[0], "tree_flatten"), [])),
                  bi("tree_unflatten", lambda I, a, kw: I.call(I.getattr(cls, "tree_unflatten"), list(a)))], {})
    return cls


def _register_keys(I, a, kw):
    cls, flk, un = a[0], a[1], a[2]
    fl = a[3] if len(a) > 3 else kw.get("flatten_func")
    if fl is None:
        def g(I, a, kw):
            ch, aux = I.iterate(I.call(flk, [a[0]]))
            return (tuple(x[1] for x in I.iterate(ch)), aux)
        fl = bi("flatten", g)
    _register(I, [cls, fl, un], {})


TREE_UTIL = {
    "register_pytree_node": _register, "register_pytree_node_class": _register_class,
    "register_pytree_with_keys": _register_keys,
    "tree_flatten": _flat, "tree_unflatten": _unflat, "tree_map": _tmap,
    "tree_leaves": lambda I, a, kw: _flat(I, a, kw)[0], "tree_structure": lambda I, a, kw: _flat(I, a, kw)[1],
}
TREE = {"flatten": _flat, "unflatten": _unflat, "map": _tmap, "leaves": TREE_UTIL["tree_leaves"],
        "structure": TREE_UTIL["tree_structure"]}


def _trace_leaf(I, v):
    if isinstance(v, Arr):
        return Arr(v.shape, [N.num(e) for e in v.elems] if v.dtype != "object" else _nojax(I, v), "trc",
                   v.dtype)
    if isinstance(v, (int, float, Num)) and not isinstance(v, bool):
        a = N.asarr(I, v)
        return Arr((), a.elems, "trc", a.dtype)
    if isinstance(v, bool):
        return Arr((), [v], "trc", "bool")
    return _nojax(I, v)


def _nojax(I, v):
    raise I.exc(TypeError, f"Cannot interpret value of type {I.tname(v)} as an abstract array; it does not have a dtype attribute")


def _untrace_leaf(I, v):
    if isinstance(v, Arr):
        return Arr(v.shape, list(v.elems), "jnp", v.dtype)
    if isinstance(v, (int, float, Num)):
        a = N.asarr(I, v)
        return Arr(a.shape, list(a.elems), "jnp", a.dtype)
    raise I.exc(TypeError, f"{I.tname(v)} is not a valid JAX type")


def _mapleaves(I, v, f):
    leaves = []
    td = tree_flatten(I, v, leaves)
    return tree_unflatten(I, td, iter([f(I, x) for x in leaves]))


def _jit(I, a, kw):
    if not a:
        return bi("jit", lambda I, a2, kw2: _jit(I, a2, kw))
    f = a[0]
    sn = kw.get("static_argnums", ())
    sn = tuple(I.iterate(sn)) if isinstance(sn, (tuple, list)) else (sn,) if sn is not None else ()
    names = kw.get("static_argnames", ())
    names = (names,) if isinstance(names, str) else tuple(names or ())

    def g(I, a2, kw2):
        args = [x if i in sn else _mapleaves(I, x, _trace_leaf) for i, x in enumerate(a2)]
        kws = {k: v if k in names else _mapleaves(I, v, _trace_leaf) for k, v in kw2.items()}
        return _mapleaves(I, I.call(f, args, kws), _untrace_leaf)
    b = bi(f"jit({getattr(f, 'qualname', '?')})", g)
    b.attrs["__wrapped__"] = f
    return b


def _jacvars(I, x):
    return [T.atom_rf(T.TABLE.var(f"y#{i}")) for i in range(x.size)]


def _at(I, f, x, a, i):
    """evaluate f with argument i replaced by a tracer of fresh variables; flat result elements"""
    if not isinstance(x, Arr):
        x = N.asarr(I, x)
    if x.dtype.startswith("int") or x.dtype == "bool":
        raise I.exc(TypeError, "jax transformations require real-valued inputs (input dtype int64)")
    ys = Arr(x.shape, _jacvars(I, x), "trc", "float64")
    args = list(a)
    args[i] = ys
    r = I.call(f, args, {})
    return x, (r if isinstance(r, Arr) else N.asarr(I, r))


def _deriv(r, j, x):
    if not any(True for _ in r.atoms()):
        return RF({})
    return T.app("D", r, j, *[N.num(e) for e in x.elems])


def _jacobian(I, a, kw):
    f, i = a[0], (a[1] if len(a) > 1 else kw.get("argnums", 0))
    if not isinstance(i, int):
        raise Inconclusive("argnums")

    def g(I, a2, kw2):
        x, r = _at(I, f, a2[i], a2, i)
        el = [_deriv(N.num(e), j, x) for e in r.elems for j in range(x.size)]
        I.assumptions.add("jax.jacfwd/jacrev(f)(x) is the Jacobian of f at x (an operator of the value number of f)")
        return Arr(r.shape + x.shape, el, "jnp", "float64")
    return bi("jacobian", g)


def _grad(with_value):
    def mk(I, a, kw):
        f, i = a[0], (a[1] if len(a) > 1 else kw.get("argnums", 0))
        if not isinstance(i, int) or kw.get("has_aux"):
            raise Inconclusive("argnums/has_aux")

        def g(I, a2, kw2):
            x, r = _at(I, f, a2[i], a2, i)
            if r.shape != ():
                raise I.exc(TypeError, f"Gradient only defined for scalar-output functions. Output had shape: {r.shape}")
            d = Arr(x.shape, [_deriv(N.num(r.elems[0]), j, x) for j in range(x.size)], "jnp", "float64")
            I.assumptions.add("jax.grad/value_and_grad(f)(x) is the gradient of f at x")
            if not with_value:
                return d
            args = list(a2)
            args[i] = Arr(x.shape, [N.num(e) for e in x.elems], "trc", "float64")
            return (_mapleaves(I, I.call(f, args, {}), _untrace_leaf), d)
        return bi("grad", g)
    return mk


def jax_h(I, name):
    tab = {"jit": _jit, "jacfwd": _jacobian, "jacrev": _jacobian, "jacobian": _jacobian,
           "grad": _grad(False), "value_and_grad": _grad(True),
           "block_until_ready": lambda I, a, kw: a[0],
           "device_get": lambda I, a, kw: _mapleaves(I, a[0], lambda I, x: Arr(x.shape, list(x.elems), "np", x.dtype) if isinstance(x, Arr) else x)}
    if name in tab:
        return bi(f"jax.{name}", tab[name])
    if name == "vmap":
        def vmap(I, a, kw):
            f, rest = a[0], list(a[1:])
            if any(k not in ("in_axes", "out_axes") for k in kw):
                raise Inconclusive("jax.vmap")

            def traced(I, a2, kw2):
                outer = any(isinstance(x, Arr) and x.kind == "trc" for x in a2)
                r = I.call(f, [_mapleaves(I, x, _trace_leaf) for x in a2], kw2)
                return r if outer else _mapleaves(I, r, _untrace_leaf)
            N.prelude(I, "size", "jnp")
            g = I.load_module("_pynp").ns["vmap"]
            return I.call(g, [I.load_module("jax.numpy"), bi("vmapped", traced), *rest], kw)
        return bi("jax.vmap", vmap)
    if name == "Array":
        return B.JAXARRAY
    return MISSING


PATCHABLE = {
    "scipy.optimize.minimize": None,
    "matplotlib.pyplot.figure": None,
    "matplotlib.pyplot.subplots": None,
    "matplotlib.pyplot.axes": None,
    "matplotlib.pyplot.gcf": None,
    "matplotlib.pyplot.gca": None,
    "matplotlib.patches.Polygon": None,
    "matplotlib.ticker.MultipleLocator": lambda I, a, kw: Opaque("MultipleLocator", ty=TypeExpr("Locator")),
    "matplotlib.pyplot.get_cmap": None,
    "warnings.warn": _warn,
}


class Colormaps:
    pass


def mpl_h(I, name):
    if name == "colormaps":
        c = Cls("ColormapRegistry", [object], {})

        def gi(I, a, kw):
            g = I.models.get("matplotlib.colormaps")
            if g is None:
                return OpaqueFn(f"colormap:{a[1]}")
            return I.call(g, [a[1]])
        c.ns["__getitem__"] = bi("__getitem__", gi)
        return Obj(c)
    return MISSING


def scipy_opt_h(I, name):
    if name == "OptimizeResult":
        c = Cls("OptimizeResult", [object], {})
        c.ns["__init__"] = bi("__init__", lambda I, a, kw: a[0].attrs.update(kw))
        c.ns["__getitem__"] = bi("__getitem__", lambda I, a, kw: I.getattr(a[0], a[1]) if a[1] in a[0].attrs
                                 else (_ for _ in ()).throw(I.exc(KeyError, a[1])))
        return c
    return MISSING


# ------------------------------------------------------------------ regular expressions on known text
# A regular expression over known text is evaluated like any other operation on literals; over text that is not
# known in full it is not decided.

def _re_known(*xs):
    for x in xs:
        if not isinstance(x, str):
            raise Inconclusive("regular expression over text that is not known")


def _re_match(I, m):
    if m is None:
        return None
    c = Cls("Match", [object], {})

    def grp(I, a, kw):
        gs = a[1:] or [0]
        try:
            return m.group(*gs)
        except IndexError as e:
            raise I.exc(IndexError, str(e))
    c.ns.update({
        "group": bi("group", grp), "__getitem__": bi("__getitem__", grp),
        "groups": bi("groups", lambda I, a, kw: m.groups(*a[1:], **kw)),
        "groupdict": bi("groupdict", lambda I, a, kw: m.groupdict(*a[1:], **kw)),
        "start": bi("start", lambda I, a, kw: m.start(*a[1:])), "end": bi("end", lambda I, a, kw: m.end(*a[1:])),
        "span": bi("span", lambda I, a, kw: m.span(*a[1:])),
    })
    o = Obj(c)
    o.attrs.update({"string": m.string, "pos": m.pos, "endpos": m.endpos, "lastindex": m.lastindex,
                    "lastgroup": m.lastgroup})
    return o


def _re_op(name, pat, flags=0):
    """The function `name` of a compiled pattern `pat` (text) on interpreted arguments."""
    def run(I, a, kw):
        try:
            rx = re.compile(pat, int(flags))
        except re.error as e:
            raise Inconclusive(f"regular expression {pat!r}: {e}")
        if name in ("match", "fullmatch", "search"):
            _re_known(a[0])
            return _re_match(I, getattr(rx, name)(*a, **kw))
        if name == "finditer":
            _re_known(a[0])
            return [_re_match(I, m) for m in rx.finditer(*a, **kw)]
        if name in ("split", "findall"):
            _re_known(a[0])
            return list(getattr(rx, name)(*a, **kw))
        repl, text = a[0], a[1]
        _re_known(text)
        if not isinstance(repl, str):
            f = repl
            repl = lambda m: I.call(f, [_re_match(I, m)])
        out = getattr(rx, name)(repl, *a[1:], **kw)
        return out if name == "sub" else tuple(out)
    return run


def re_h(I, name):
    ops = ("match", "fullmatch", "search", "finditer", "split", "findall", "sub", "subn")
    if name == "compile":
        def compile_(I, a, kw):
            flags = a[1] if len(a) > 1 else kw.get("flags", 0)
            c = Cls("Pattern", [object], {})
            for op in ops:
                f = _re_op(op, a[0], flags)
                c.ns[op] = bi(op, lambda I, a2, kw2, f=f: f(I, a2[1:], kw2))
            o = Obj(c)
            o.attrs["pattern"] = a[0]
            return o
        return bi("compile", compile_)
    if name in ops:
        def top(I, a, kw):
            _re_known(a[0])
            kw = dict(kw)
            flags = kw.pop("flags", 0)
            return _re_op(name, a[0], flags)(I, a[1:], kw)
        return bi(name, top)
    if name == "escape":
        def esc(I, a, kw):
            _re_known(a[0])
            return re.escape(a[0])
        return bi("escape", esc)
    if hasattr(re, name) and isinstance(getattr(re, name), re.RegexFlag):
        return int(getattr(re, name))
    return MISSING


HANDLERS = {
    "re": re_h,
    "typing": typing_h, "typing_extensions": typing_h,
    "collections": collections_h, "collections.abc": lambda I, n: TypeExpr(n),
    "abc": lambda I, n: bi(n, lambda I, a, kw: a[0]) if n.startswith("abstract") else TypeExpr(n),
    "itertools": itertools_h, "enum": enum_h, "functools": functools_h, "operator": operator_h, "math": math_h,
    "statistics": prelude_h("statistics"), "bisect": prelude_h("bisect"), "heapq": prelude_h("heapq"),
    "warnings": _table(WARNINGS), "contextlib": _table(CONTEXTLIB), "dataclasses": _table(DATACLASSES),
    "copy": _table(COPY), "logging": logging_h, "types": types_h,
    "numpy": lambda I, n: numpy_common(I, n, "np"), "jax.numpy": lambda I, n: numpy_common(I, n, "jnp"),
    "numpy.linalg": linalg_h("np"), "jax.numpy.linalg": linalg_h("jnp"),
    "numpy.typing": lambda I, n: TypeExpr(n),
    "jax": jax_h, "jax.tree_util": _table(TREE_UTIL), "jax.tree": _table(TREE),
    "scipy.optimize": scipy_opt_h, "matplotlib": mpl_h,
}
