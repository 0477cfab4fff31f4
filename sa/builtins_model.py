"""Transfer functions for Python builtins and operators."""
import builtins as hb
import itertools
import types
from fractions import Fraction

from . import terms as T
from . import astr
from .astr import AStr, KAtom
from .terms import Inconclusive, RF
from .interp import (
    Arr, Bound, Builtin, CachedProperty, ClassMethod, Cls, Func, GenObj, Infeasible, Module,
    NTuple, Num, Obj, Opaque, OpaqueFn, Property, PyExc, StaticMethod, Super, TypeExpr, mro_of,
)

DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod",
          "**": "pow", "@": "matmul", "|": "or", "&": "and", "^": "xor", "<<": "lshift",
          ">>": "rshift"}
CMPD = {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}

KEYS, VALUES, ITEMS = type({}.keys()), type({}.values()), type({}.items())
NPBOOL = "np.bool"

# nominal classes of numpy/jax values
NDARRAY = Cls("ndarray", [object], {"__module__": "numpy"})
JAXARRAY = Cls("Array", [object], {"__module__": "jax"})
NPGENERIC = Cls("generic", [object], {"__module__": "numpy"})
NPNUMBER = Cls("number", [NPGENERIC], {"__module__": "numpy"})
NPINTEGER = Cls("integer", [NPNUMBER], {"__module__": "numpy"})
NPFLOATING = Cls("floating", [NPNUMBER], {"__module__": "numpy"})
NPFLOAT64 = Cls("float64", [NPFLOATING, float], {"__module__": "numpy"})
NPFLOAT32 = Cls("float32", [NPFLOATING], {"__module__": "numpy"})
NPINT64 = Cls("int64", [NPINTEGER], {"__module__": "numpy"})
NPBOOL_ = Cls("bool", [NPGENERIC], {"__module__": "numpy"})
FUNCTION = Cls("function", [object], {})
BUILTINF = Cls("builtin_function_or_method", [object], {})
METHOD = Cls("method", [object], {})
GENERATOR = Cls("generator", [object], {})
MODULE = Cls("module", [object], {})
ITERATOR = Cls("iterator", [object], {})


def typeof(I, v):
    k = type(v)
    if k is Obj:
        return v.cls
    if k is NTuple:
        return v.cls
    if k is AStr:
        return str
    if k is Num:
        return {"float": float, "int": int, "bool": bool, "np.float64": NPFLOAT64,
                "np.float32": NPFLOAT32, "np.int64": NPINT64}[v.ty]
    if k is Arr:
        return NDARRAY if v.kind == "np" else JAXARRAY
    if k is Cls:
        return type
    if k is Func or k is OpaqueFn:
        return FUNCTION
    if k is Builtin:
        return BUILTINF
    if k is Bound:
        return METHOD
    if k is GenObj:
        return GENERATOR
    if k is Module:
        return MODULE
    if k is Opaque:
        if v.ty is not None:
            return v.ty
        raise Inconclusive(f"type of opaque value {v!r}")
    if k is TypeExpr:
        return TypeExpr("type")
    if k is Property:
        return property
    if k is ClassMethod:
        return classmethod
    if k is StaticMethod:
        return staticmethod
    return k


def callable_(I, v):
    k = type(v)
    if k in (Func, Builtin, Bound, Cls, OpaqueFn, StaticMethod) or isinstance(v, type):
        return True
    if k is Obj:
        return I.lookup(v.cls, "__call__") is not None
    return False


ABCS = {
    "Callable": lambda I, v: callable_(I, v),
    "Iterable": lambda I, v: isinstance(v, (tuple, list, dict, set, frozenset, str, AStr, range, GenObj, Arr))
    or (isinstance(v, Obj) and I.lookup(v.cls, "__iter__") is not None) or (not isinstance(v, (Num, int, float, bool, type(None), Func, Builtin, Bound, Cls, Obj)) and hasattr(v, "__next__")),
    "Iterator": lambda I, v: isinstance(v, GenObj) or hasattr(v, "__next__"),
    "Sequence": lambda I, v: isinstance(v, (tuple, list, str, AStr, range)),
    "MutableSequence": lambda I, v: isinstance(v, list),
    "Mapping": lambda I, v: isinstance(v, dict),
    "MutableMapping": lambda I, v: isinstance(v, dict),
    "Hashable": lambda I, v: not isinstance(v, (list, dict, set, Arr)),
    "Sized": lambda I, v: isinstance(v, (tuple, list, dict, set, str, AStr, Arr)),
    "Collection": lambda I, v: isinstance(v, (tuple, list, dict, set, str, AStr)),
    "Set": lambda I, v: isinstance(v, (set, frozenset)),
    "Number": lambda I, v: isinstance(v, (int, float, Num)),
    "Real": lambda I, v: isinstance(v, (int, float, Num)),
    "Integral": lambda I, v: isinstance(v, int) or (isinstance(v, Num) and v.ty in ("int", "np.int64")),
    "Any": lambda I, v: True,
}


def isinstance_(I, v, c):
    if isinstance(c, tuple):
        return any(I.truth(isinstance_(I, v, x)) for x in c)
    if isinstance(c, TypeExpr):
        nm = c.name.rsplit(".", 1)[-1]
        if nm in ABCS:
            return ABCS[nm](I, v)
        if c.name.startswith("union:"):
            return any(isinstance_(I, v, x) for x in c.args)
        if isinstance(v, (Num, int, float, str, AStr, Arr, tuple, list, dict, type(None))):
            return False
        if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.name == nm:
            return True
        if isinstance(v, Obj):
            return False
        raise Inconclusive(f"isinstance with {c!r}")
    if isinstance(v, Opaque) and v.ty is None:
        if c is object:
            return True
        return I.decide(f"isinstance({v!r}, {c!r})", ("isinst", I.py_id(v), str(c)))
    if type(v) is GenObj and c is types.GeneratorType:
        return True
    if type(v) is Func and c is types.FunctionType:
        return True
    if not isinstance(c, (Cls, type)):
        raise I.exc(TypeError, "isinstance() arg 2 must be a type")
    t = typeof(I, v)
    if isinstance(t, TypeExpr):
        return c is object
    return c in mro_of(t) or (c is int and t is bool)


def issubclass_(I, a, c):
    if isinstance(c, tuple):
        return any(issubclass_(I, a, x) for x in c)
    if isinstance(c, TypeExpr):
        if isinstance(a, TypeExpr):
            return a.name == c.name
        raise Inconclusive(f"issubclass with {c!r}")
    if c is Ellipsis:
        raise I.exc(TypeError, "issubclass() arg 2 must be a class")
    if not isinstance(a, (Cls, type)):
        raise I.exc(TypeError, "issubclass() arg 1 must be a class")
    if not isinstance(c, (Cls, type)):
        raise I.exc(TypeError, "issubclass() arg 2 must be a class")
    return c in mro_of(a)


# ------------------------------------------------------------------ strings

def str_(I, v):
    k = type(v)
    if k in (str, AStr):
        return v
    if k is Obj:
        m = I.lookup(v.cls, "__str__")
        if m is not None:
            return I.call(I.bind(m, v, v.cls), [])
        if BaseException in mro_of(v.cls):
            args = v.attrs.get("args", ())
            if not args:
                return ""
            if len(args) == 1:
                return repr_(I, args[0]) if KeyError in mro_of(v.cls) else str_(I, args[0])
            return repr_(I, tuple(args))
        m = I.lookup(v.cls, "__repr__")
        if m is not None:
            return I.call(I.bind(m, v, v.cls), [])
        return repr(v)
    if k in (int, float, bool, type(None), bytes) or k.__name__ == "DType":
        return str(v)
    if k is Num:
        if v.t.is_const() and v.t.const_value().denominator == 1 and "int" in v.ty:
            return str(int(v.t.const_value()))
        return AStr((KAtom(f"num:{v.t!r}"),))
    return repr_(I, v)


def repr_(I, v):
    k = type(v)
    if k is str:
        return repr(v)
    if k is AStr:
        return astr.mk(("'", v, "'"))
    if k is Obj:
        m = I.lookup(v.cls, "__repr__")
        if m is not None:
            return I.call(I.bind(m, v, v.cls), [])
        if BaseException in mro_of(v.cls):
            return astr.mk((I.tname(v), "(", astr.join(", ", [repr_(I, x) for x in v.attrs.get("args", ())]), ")"))
        return f"<{I.tname(v)} object at {I.py_id(v):#x}>"
    if k in (tuple, list):
        inner = astr.join(", ", [repr_(I, x) for x in v])
        if k is tuple:
            return astr.mk(("(", inner, ",)" if len(v) == 1 else ")"))
        return astr.mk(("[", inner, "]"))
    if k is dict:
        return astr.mk(("{", astr.join(", ", [astr.mk((repr_(I, a), ": ", repr_(I, b))) for a, b in v.items()]), "}"))
    if k is Num:
        return str_(I, v)
    if k in (int, float, bool, type(None), bytes) or k.__name__ == "DType":
        return repr(v)
    if k is Cls:
        return f"<class '{v.name}'>"
    if isinstance(v, type):
        return repr(v)
    if k is Arr:
        return AStr((KAtom(f"arr:{v!r}"),))
    return AStr((KAtom(f"repr:{v!r}"),))


def format_(I, v, spec=""):
    if spec == "" or spec is None:
        return str_(I, v)
    if type(v) is Num and isinstance(spec, str) and v.t.is_const():
        c = v.t.const_value()
        if "int" in v.ty:
            v = int(c)
        elif Fraction(float(c)) == c:
            v = float(c)
    if isinstance(v, (int, float, str)) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError as e:
            raise I.exc(ValueError, str(e))
    return AStr((KAtom(f"fmt:{v!r}:{spec}"),))


def str_method(I, s, name):
    def cc(a):
        return all(isinstance(x, (str, int, tuple, dict, type(None))) for x in a)

    def f(I, a, kw):
        if name == "maketrans":
            return str.maketrans(*a)
        if name == "join":
            items = list(I.iterate(a[0]))
            for it in items:
                if not isinstance(it, (str, AStr)):
                    raise I.exc(TypeError, f"sequence item: expected str instance, {I.tname(it)} found")
            return astr.join(s, items)
        if name == "format":
            if isinstance(s, str):
                return _fmt(I, s, a, kw)
        if isinstance(s, str) and cc(a):
            try:
                return getattr(s, name)(*a, **kw)
            except (ValueError, TypeError, KeyError, IndexError) as e:
                raise I.exc(type(e), *e.args)
        # abstract
        needle = {"split": a[0] if a else kw.get("sep"), "rsplit": a[0] if a else kw.get("sep")}.get(name, a[0] if a else None) \
            if name in ("split", "rsplit", "partition", "rpartition", "count", "replace", "find", "rfind", "index", "rindex",
                        "strip", "lstrip", "rstrip") else None
        if isinstance(needle, str) and needle not in ("/", "") and isinstance(s, AStr):
            r = _inspect(I, s, needle, name, a, kw)
            if r is not None:
                return r[0]
        if name == "split":
            return astr.split(s, a[0] if a else None, kw.get("maxsplit", a[1] if len(a) > 1 else -1))
        if name == "rsplit":
            return astr.rsplit(s, a[0] if a else None, kw.get("maxsplit", a[1] if len(a) > 1 else -1))
        if name in ("partition", "rpartition"):
            p = astr.split(s, a[0], 1) if name == "partition" else astr.rsplit(s, a[0], 1)
            if len(p) == 1:
                return (s, "", "") if name == "partition" else ("", "", s)
            return (p[0], a[0], p[1])
        if name in ("startswith", "endswith"):
            pre = a[0]
            if isinstance(pre, tuple):
                return any(f(I, [x], {}) for x in pre)
            return _affix(I, s, pre, name)
        if name in ("removeprefix", "removesuffix"):
            if _affix(I, s, a[0], "startswith" if name == "removeprefix" else "endswith"):
                n = len(a[0])
                return astr.slice_(s, slice(n, None)) if name == "removeprefix" else astr.slice_(s, slice(None, -n)) if n else s
            return s
        if name == "count" and a == ["/"]:
            return sum(p.count("/") for p in s.parts if isinstance(p, str))
        if name == "replace" and a[0] == "/":
            return astr.join(a[1], astr.split(s, "/"))
        if name in ("strip", "lstrip", "rstrip") and a == ["/"]:
            segs = astr.split(s, "/")
            if name != "rstrip":
                while len(segs) > 1 and segs[0] == "":
                    segs = segs[1:]
            if name != "lstrip":
                while len(segs) > 1 and segs[-1] == "":
                    segs = segs[:-1]
            return astr.join("/", segs)
        if name in ("find", "index", "rfind", "rindex") and a and a[0] == "/":
            segs = astr.split(s, "/")
            if len(segs) == 1:
                if name in ("index", "rindex"):
                    raise I.exc(ValueError, "substring not found")
                return -1
            if name in ("find", "index") and isinstance(segs[0], str):
                return len(segs[0])
        if name in ("strip",) and not a:
            I.assumptions.add("opaque keys carry no surrounding whitespace")
            return s
        raise Inconclusive(f"str.{name} on {s!r} {a!r}")
    return Builtin(name, f)


def _inspect(I, s, needle, name, a, kw):
    """string methods which look for a literal other than '/' in a string with user-chosen keys"""
    if name in ("strip", "lstrip", "rstrip"):
        for c in needle:
            if c != "/" and I.str_has_literal(s, c) is None:
                return None
        ps = list(s.parts)
        if name != "rstrip" and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip(needle)
        if name != "lstrip" and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip(needle)
        return (astr.mk(ps),)
    if I.str_has_literal(s, needle) is None:
        return None
    # the literal occurs in literal parts only
    if name == "count":
        return (sum(p.count(needle) for p in s.parts if isinstance(p, str)),)
    if name == "replace":
        n = a[2] if len(a) > 2 else -1
        out = []
        for p in s.parts:
            if isinstance(p, str):
                k = p.count(needle)
                p = join_lit(p.split(needle, n), a[1])
                if n >= 0:
                    n = max(0, n - k)
            out.append(p)
        return (astr.mk(out),)
    if name in ("find", "index", "rfind", "rindex"):
        if not any(isinstance(p, str) and needle in p for p in s.parts):
            if name in ("index", "rindex"):
                raise I.exc(ValueError, "substring not found")
            return (-1,)
        return None
    segs = [[]]
    for p in s.parts:
        if isinstance(p, str):
            sub = p.split(needle)
            segs[-1].append(sub[0])
            segs += [[x] for x in sub[1:]]
        else:
            segs[-1].append(p)
    segs = [astr.mk(x) for x in segs]
    limit = 1 if "partition" in name else kw.get("maxsplit", a[1] if len(a) > 1 else -1)
    if 0 <= limit < len(segs) - 1:
        if name[0] == "r":
            segs = [astr.join(needle, segs[:-limit] if limit else segs)] + (segs[-limit:] if limit else [])
        else:
            segs = segs[:limit] + [astr.join(needle, segs[limit:])]
    if "partition" in name:
        if len(segs) == 1:
            return (((s, "", "") if name == "partition" else ("", "", s)),)
        return ((segs[0], needle, segs[1]),)
    return (segs,)


def join_lit(items, sep):
    return astr.join(sep, items)


def _fmt(I, s, a, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            raise Inconclusive("complex format field")
        if conv == "r":
            v = repr_(I, v)
        out.append(format_(I, v, spec or ""))
    return astr.mk(out)


def _affix(I, s, pre, name):
    if pre == "":
        return True
    ps = astr.parts(s)
    qs = list(astr.parts(pre))
    if isinstance(pre, str):
        first = (ps[0] if name == "startswith" else ps[-1]) if ps else ""
        if isinstance(first, str):
            if len(first) >= len(pre) or len(ps) == 1:
                return getattr(first, name)(pre)
            # literal shorter than the prefix, atom follows
            if not (pre.startswith(first) if name == "startswith" else pre.endswith(first)):
                return False
            rest = pre[len(first):] if name == "startswith" else pre[:-len(first)]
            if "/" in rest and rest.startswith("/"):
                return False
            if I.str_has_literal(s, rest) is False:
                return False
            return I.decide(f"{s!r}.{name}({pre!r})", ("affix", s, pre, name))
        if pre.startswith("/") and name == "startswith" or pre.endswith("/") and name == "endswith":
            return False
        if I.str_has_literal(s, pre) is False:
            return False
        return I.decide(f"{s!r}.{name}({pre!r})", ("affix", s, pre, name))
    # abstract prefix: segment-wise when ended by '/'
    n = len(qs)
    if name == "startswith":
        head = list(ps[:n])
        if len(head) == n and head[:-1] == qs[:-1]:
            if head[-1] == qs[-1]:
                return True
            if isinstance(head[-1], str) and isinstance(qs[-1], str):
                return head[-1].startswith(qs[-1])
        # compare up to a '/' boundary
        a, b = astr.split(s, "/"), astr.split(pre, "/")
        for x, y in zip(a, b[:-1]):
            if not seg_equal(I, x, y):
                return False
        if len(a) < len(b):
            return False
        y, x = b[-1], a[len(b) - 1]
        if y == "":
            return True
        if x == y:
            return True
        if isinstance(x, str) and isinstance(y, str):
            return x.startswith(y)
    raise Inconclusive(f"{s!r}.{name}({pre!r})")


def seg_equal(I, x, y):
    """equality of two strings (at least one abstract)"""
    if type(x) is str and type(y) is str:
        return x == y
    if x == y:
        return True
    a, b = astr.split(x, "/"), astr.split(y, "/")
    if len(a) != len(b):
        return False
    if len(a) > 1:
        return all(seg_equal(I, p, q) for p, q in zip(a, b))
    # single segments
    for p, q in ((x, y), (y, x)):
        if isinstance(p, AStr) and len(p.parts) == 1 and type(q) is str:
            if q == "":
                return False
            return I.str_equal_literal(p.parts[0], q)
    return False


def str_contains(I, s, sub):
    if isinstance(s, str) and isinstance(sub, str):
        return sub in s
    if sub == "":
        return True
    if isinstance(sub, str):
        for p in astr.parts(s):
            if isinstance(p, str) and sub in p:
                return True
        if sub == "/":
            return False
        if I.str_has_literal(s, sub) is False:
            return False
        return I.decide(f"{sub!r} in {s!r}", ("contains", s, sub))
    if isinstance(sub, AStr):
        n = len(sub.parts)
        ps = astr.parts(s)
        for i in range(len(ps) - n + 1):
            if tuple(ps[i:i + n]) == sub.parts:
                return True
        return I.decide(f"{sub!r} in {s!r}", ("contains", s, sub))
    raise I.exc(TypeError, "'in <string>' requires string as left operand")


# ------------------------------------------------------------------ operators

def is_(a, b):
    if a is b:
        return True
    if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) is type(b):
        return a == b
    if type(a) is tuple and type(b) is tuple and not a and not b:
        return True
    if type(a) is AStr and type(b) is AStr:
        return a == b
    if type(a) is Bound and type(b) is Bound:
        return False
    return False


def numlike(v):
    return isinstance(v, (int, float, Num))


def rf(v):
    if isinstance(v, Num):
        return v.t
    return T.from_number(v)


RANK = {"bool": 0, "int": 1, "float": 2, "np.int64": 3, "np.float32": 4, "np.float64": 5}


def num_ty(v):
    if isinstance(v, Num):
        return v.ty
    if isinstance(v, bool):
        return "bool"
    return "int" if isinstance(v, int) else "float"


def res_ty(a, b, op):
    x, y = num_ty(a), num_ty(b)
    if op == "/" and x in ("int", "bool") and y in ("int", "bool"):
        return "float"
    isnp = x.startswith("np.") or y.startswith("np.")
    isf = "float" in x or "float" in y or op == "/"
    if isnp:
        return "np.float64" if isf else "np.int64"
    return "float" if isf else "int"


def mknum(t, ty):
    if t.is_const():
        c = t.const_value()
        if ty == "int" and c.denominator == 1:
            return int(c)
        if ty == "float":
            f = float(c)
            if T.from_number(f).const_value() == c:
                return f
    return Num(t, ty)


def num_binop(I, op, a, b):
    if not isinstance(a, Num) and not isinstance(b, Num):
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                    "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b,
                    "**": lambda: a ** b, "|": lambda: a | b, "&": lambda: a & b,
                    "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
        except (ZeroDivisionError, TypeError, OverflowError, ValueError) as e:
            raise I.exc(type(e), str(e))
    ty = res_ty(a, b, op)
    x, y = rf(a), rf(b)
    if op == "**" and ty == "np.int64" and y.is_const() and y.const_value() < 0:
        raise I.exc(ValueError, "Integers to negative integer powers are not allowed.")
    return mknum(rf_op(I, op, x, y, py=not ty.startswith("np.")), ty)


def rf_op(I, op, x, y, py=False):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "/":
        if T.rf_zero(y):
            if py:
                raise I.exc(ZeroDivisionError, "division by zero")
            return T.app("div0", x)
        I.assumptions.add("denominators of geometric quotients (line lengths, figure sizes) are non-zero")
        return x / y
    if op == "**":
        return T.t_pow(x, y)
    if op == "//":
        if x.is_const() and y.is_const() and not T.rf_zero(y):
            return RF.const(x.const_value() // y.const_value())
        return T.app("floor", x / y)
    if op == "%":
        if x.is_const() and y.is_const() and not T.rf_zero(y):
            c = x.const_value()
            d = y.const_value()
            return RF.const(c - d * (c // d))
        return T.app("mod", x, y, sign="0+" if T.rf_sign(y) in ("+",) else None)
    raise Inconclusive(f"numeric operator {op}")


def binop(I, op, a, b):
    ka, kb = type(a), type(b)
    if ka is Obj or kb is Obj:
        nm = DUNDER[op]
        ta, tb = typeof_safe(I, a), typeof_safe(I, b)
        tried_r = False
        if kb is Obj and ka is Obj and ta is not tb and ta in mro_of(tb):
            m = I.lookup(b.cls, f"__r{nm}__")
            if m is not None and m is not I.lookup(a.cls, f"__r{nm}__"):
                r = I.call(I.bind(m, b, b.cls), [a])
                tried_r = True
                if r is not NotImplemented:
                    return r
        if ka is Obj:
            m = I.lookup(a.cls, f"__{nm}__")
            if m is not None:
                r = I.call(I.bind(m, a, a.cls), [b])
                if r is not NotImplemented:
                    return r
        if kb is Obj and not tried_r and not (ka is Obj and ta is tb):
            if (isinstance(a, Arr) and a.kind == "np") or (isinstance(a, Num) and a.ty.startswith("np.")):
                # numpy defers to objects with `__array_ufunc__ = None` and takes sequences for arrays
                if not any("__array_ufunc__" in getattr(c, "ns", ()) for c in mro_of(b.cls)) \
                        or I.lookup(b.cls, "__array_ufunc__") is not None:
                    size = I.lookup(b.cls, "__len__")
                    if size is not None and I.lookup(b.cls, "__getitem__") is not None \
                            and not I.truth(I.call(I.bind(size, b, b.cls), [])):
                        from . import np_model
                        return np_model.binop(I, op, a, Arr((0,), [], "np", "float64"))
                    raise Inconclusive("numpy value combined with an object")
            m = I.lookup(b.cls, f"__r{nm}__")
            if m is not None:
                r = I.call(I.bind(m, b, b.cls), [a])
                if r is not NotImplemented:
                    return r
        raise I.exc(TypeError, f"unsupported operand type(s) for {op}: '{I.tname(a)}' and '{I.tname(b)}'")
    if ka is Arr or kb is Arr:
        from . import np_model
        return np_model.binop(I, op, a, b)
    if numlike(a) and numlike(b):
        return num_binop(I, op, a, b)
    if op == "+":
        if ka in (str, AStr) and kb in (str, AStr):
            return astr.concat(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(a) + tuple(b)
        if ka is list and kb is list:
            return a + b
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (str, tuple, list)) and (isinstance(y, int) or (isinstance(y, Num) and y.ty in ("np.int64", "int"))):
                n = I.as_int(y)
                return (tuple(x) if isinstance(x, tuple) else x) * n
    if op == "|":
        if ka is dict and kb is dict:
            return {**a, **b}
        if isinstance(a, (Cls, type, TypeExpr)) or isinstance(b, (Cls, type, TypeExpr)):
            t = TypeExpr("union:")
            t.args = (getattr(a, "args", (a,)) if isinstance(a, TypeExpr) and a.name == "union:" else (a,)) + (
                getattr(b, "args", (b,)) if isinstance(b, TypeExpr) and b.name == "union:" else (b,))
            return t
    if op in ("|", "&", "-", "^") and isinstance(a, (set, frozenset, KEYS)) and isinstance(b, (set, frozenset, KEYS)):
        return {"|": lambda: a | b, "&": lambda: a & b, "-": lambda: a - b, "^": lambda: a ^ b}[op]()
    if op == "%" and ka is str:
        args = b if isinstance(b, tuple) else (b,)
        if all(isinstance(x, (str, int, float)) for x in args):
            try:
                return a % args
            except (TypeError, ValueError) as e:
                raise I.exc(type(e), str(e))
        pieces = a.replace("%d", "%s").split("%s")
        if len(pieces) == len(args) + 1 and "%" not in "".join(pieces):
            out = [pieces[0]]
            for x, p in zip(args, pieces[1:]):
                out += [str_(I, x), p]
            return astr.mk(out)
        raise Inconclusive("%-format")
    if ka is Opaque or kb is Opaque:
        key = (f"op{op}", I.value_key(a), I.value_key(b))
        cache = I.facts.setdefault("opaque-app", {})
        if key not in cache:
            cache[key] = Opaque(f"({a!r} {op} {b!r})", args=(a, b), fn=op)
        return cache[key]
    if ka is TypeExpr or kb is TypeExpr:
        return TypeExpr("expr")
    raise I.exc(TypeError, f"unsupported operand type(s) for {op}: '{I.tname(a)}' and '{I.tname(b)}'")


def typeof_safe(I, v):
    try:
        return typeof(I, v)
    except Inconclusive:
        return object


def unary(I, op, v):
    if isinstance(v, Obj):
        m = I.lookup(v.cls, f"__{op}__")
        if m is None:
            raise I.exc(TypeError, f"bad operand type for unary {op}")
        return I.call(I.bind(m, v, v.cls), [])
    if isinstance(v, Arr):
        from . import np_model
        if op == "neg":
            return np_model.emap(v, lambda e: -np_model.num(e))
        if op == "pos":
            return v
        if op == "invert" and v.dtype == "bool":
            return np_model.emap(v, lambda e: not I.truth(e), "bool")
    if isinstance(v, Num):
        return mknum(-v.t, v.ty) if op == "neg" else v
    if isinstance(v, (int, float)):
        return -v if op == "neg" else (+v if op == "pos" else ~v)
    if isinstance(v, Opaque):
        return binop(I, "*", -1, v)
    raise I.exc(TypeError, f"bad operand type for unary {op}: '{I.tname(v)}'")


def equal(I, a, b):
    """interpreted == -> bool (or Arr)"""
    if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
        from . import np_model
        return np_model.compare(I, "==", a, b)
    ka, kb = type(a), type(b)
    if ka is Obj or kb is Obj:
        if ka is Obj:
            m = I.lookup(a.cls, "__eq__")
            if m is not None:
                r = I.call(I.bind(m, a, a.cls), [b])
                if r is not NotImplemented:
                    return r
        if kb is Obj:
            m = I.lookup(b.cls, "__eq__")
            if m is not None:
                r = I.call(I.bind(m, b, b.cls), [a])
                if r is not NotImplemented:
                    return r
        return a is b
    if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
        return seg_equal(I, a, b)
    if numlike(a) and numlike(b):
        if not isinstance(a, Num) and not isinstance(b, Num):
            return a == b
        if any(isinstance(x, float) and x in (float("inf"), float("-inf")) for x in (a, b)):
            return False
        return I.sign_of(rf(a) - rf(b), "0")
    if isinstance(a, tuple) and isinstance(b, tuple) or (ka is list and kb is list):
        if len(a) != len(b):
            return False
        return all(x is y or I.truth(equal(I, x, y)) for x, y in zip(a, b))
    if ka is dict and kb is dict:
        if len(a) != len(b):
            return False
        for k in list(a):
            found, kk = dict_find(I, b, k)
            if not found or a[k] is not b[kk] and not I.truth(equal(I, a[k], b[kk])):
                return False
        return True
    if isinstance(a, (set, frozenset, KEYS)) and isinstance(b, (set, frozenset, KEYS)):
        return set(a) == set(b)
    if ka is range and kb is range:
        return a == b
    if ka is Bound and kb is Bound:
        return a.func is b.func and a.self is b.self
    if ka is Opaque or kb is Opaque:
        if a is b:
            return True
        if ka is Opaque and kb is Opaque and (a.args is not None or b.args is not None or True):
            return I.decide(f"{a!r} == {b!r}", ("oeq", frozenset((I.py_id(a), I.py_id(b)))))
        return I.decide(f"{a!r} == {b!r}", ("oeq", I.py_id(a), I.py_id(b)))
    if isinstance(a, (bytes, complex)) and isinstance(b, (bytes, complex)):
        return a == b
    if ka is slice and kb is slice:
        return all(I.truth(equal(I, x, y)) for x, y in ((a.start, b.start), (a.stop, b.stop), (a.step, b.step)))
    if ka.__name__ == "DType":
        return a == b
    if kb.__name__ == "DType":
        return b == a
    if (ka is ITEMS or kb is ITEMS) and isinstance(a, (ITEMS, set, frozenset, KEYS)) and isinstance(b, (ITEMS, set, frozenset, KEYS)):
        xs, ys = list(a), list(b)
        return len(xs) == len(ys) and all(any(I.truth(equal(I, x, y)) for y in ys) for x in xs)
    return a is b


def compare(I, op, a, b):
    if op == "==":
        return equal(I, a, b)
    if op == "!=":
        if isinstance(a, Arr) or isinstance(b, Arr):
            from . import np_model
            return np_model.compare(I, "!=", a, b)
        if isinstance(a, Obj):
            m = I.lookup(a.cls, "__ne__")
            if m is not None:
                return I.call(I.bind(m, a, a.cls), [b])
        return not I.truth(equal(I, a, b))
    if isinstance(a, Arr) or isinstance(b, Arr):
        from . import np_model
        return np_model.compare(I, op, a, b)
    if numlike(a) and numlike(b):
        return num_compare(I, op, a, b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op])):
            if isinstance(x, Obj):
                m = I.lookup(x.cls, f"__{CMPD[o]}__")
                if m is not None:
                    r = I.call(I.bind(m, x, x.cls), [y])
                    if r is not NotImplemented:
                        return r
        raise I.exc(TypeError, f"'{op}' not supported")
    if isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
        if a == b:
            return op in ("<=", ">=")
        lt = I.decide(f"{a!r} < {b!r}", ("strlt", a, b)) if repr(a) < repr(b) else not I.decide(f"{b!r} < {a!r}", ("strlt", b, a))
        return lt if op in ("<", "<=") else not lt
    if isinstance(a, tuple) and isinstance(b, tuple) or (type(a) is list and type(b) is list):
        for x, y in zip(a, b):
            if not I.truth(equal(I, x, y)):
                return compare(I, op, x, y)
        return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[op]
    if isinstance(a, (set, frozenset, KEYS)) and isinstance(b, (set, frozenset, KEYS)):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return I.decide(f"{a!r} {op} {b!r}", ("ocmp", op, I.value_key(a), I.value_key(b)))
    raise I.exc(TypeError, f"'{op}' not supported between instances of '{I.tname(a)}' and '{I.tname(b)}'")


def num_compare(I, op, a, b):
    if not isinstance(a, Num) and not isinstance(b, Num):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    inf = float("inf")
    for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op])):
        if isinstance(x, float) and x in (inf, -inf):
            if o == "==":
                return False
            if o == "!=":
                return True
            return (x > 0) == (o in (">", ">="))
    d = rf(a) - rf(b)
    return I.sign_of(d, {"<": "-", "<=": "-0", ">": "+", ">=": "+0", "==": "0", "!=": "+-"}[op])


def contains(I, c, v):
    k = type(c)
    if k in (dict, set, frozenset, KEYS):
        return dict_find(I, c, v)[0]
    if k in (str, AStr):
        return str_contains(I, c, v)
    if k in (tuple, list, NTuple, VALUES):
        for x in c:
            if x is v or I.truth(equal(I, x, v)):
                return True
        return False
    if k is range:
        return I.as_int(v) in c if isinstance(v, (int, Num)) else False
    if k is Obj:
        m = I.lookup(c.cls, "__contains__")
        if m is not None:
            return I.truth(I.call(I.bind(m, c, c.cls), [v]))
    if k is Arr:
        from . import np_model
        return any(I.truth(x) for x in np_model.compare(I, "==", c, v).elems)
    for x in I.iterate(c):
        if x is v or I.truth(equal(I, x, v)):
            return True
    return False


def dict_find(I, d, v):
    """(found, actual key)"""
    v = I.hashable(v)
    if v in d:
        return True, v
    if type(v) is AStr and len(v.parts) == 1 and isinstance(v.parts[0], KAtom):
        # a source literal used as a key may coincide with an arbitrary key
        for kk in d:
            if type(kk) is str and kk in I_literals(I):
                I.str_equal_literal(v.parts[0], kk)
    elif type(v) is str and v in I_literals(I):
        for kk in d:
            if type(kk) is AStr and len(kk.parts) == 1 and isinstance(kk.parts[0], KAtom):
                I.str_equal_literal(kk.parts[0], v)
    return False, v


def I_literals(I):
    """dict keys are only partitioned against literals when a context asks for it"""
    return getattr(I, "key_literals", ())


def getitem(I, o, i):
    k = type(o)
    if k is dict:
        f, kk = dict_find(I, o, i)
        if f:
            return o[kk]
        if I.ddfactory.get(id(o)) == "counter":
            return 0
        if I.ddfactory.get(id(o)) is not None:
            o[kk] = I.call(I.ddfactory[id(o)], [])
            return o[kk]
        raise I.exc(KeyError, i)
    if k.__name__ == "AtHelper":
        return k(o.a, i)
    if k in (tuple, list, NTuple, range):
        if isinstance(i, slice):
            r = (tuple(o) if k is NTuple else o)[i]
            return r
        j = I.as_int(i) if not isinstance(i, int) else i
        try:
            return o[j]
        except IndexError as e:
            raise I.exc(IndexError, str(e))
    if k is Arr:
        from . import np_model
        return np_model.getitem(I, o, i)
    if k in (str, AStr):
        if isinstance(i, slice):
            return astr.slice_(o, i)
        j = I.as_int(i)
        if k is str:
            try:
                return o[j]
            except IndexError as e:
                raise I.exc(IndexError, str(e))
        if j == 0 and isinstance(o.parts[0], str):
            return o.parts[0][0]
        if j == -1 and isinstance(o.parts[-1], str):
            return o.parts[-1][-1]
        raise Inconclusive(f"character {j} of {o!r}")
    if k is Obj:
        m = I.lookup(o.cls, "__getitem__")
        if m is not None:
            return I.call(I.bind(m, o, o.cls), [i])
        raise I.exc(TypeError, f"'{I.tname(o)}' object is not subscriptable")
    if k in (TypeExpr, Cls) or isinstance(o, type):
        if k is Cls:
            if I.ext.enum_members(o) is not None:
                return getitem(I, o.ns["__members__"], i)
            m = I.lookup(o, "__class_getitem__")
            if m is not None:
                return I.call(I.bind(m, o, o), [i])
            return o            # Generic alias: same run-time class for our purposes
        return TypeExpr(f"{getattr(o, 'name', getattr(o, '__name__', '?'))}[...]")
    if k in (KEYS, VALUES, ITEMS, GenObj):
        raise I.exc(TypeError, f"'{I.tname(o)}' object is not subscriptable")
    if k is Opaque:
        raise Inconclusive(f"subscript of {o!r}")
    if k not in ATOMIC:
        raise Inconclusive(f"subscript of {o!r}")
    raise I.exc(TypeError, f"'{I.tname(o)}' object is not subscriptable")


ATOMIC = (int, float, bool, type(None), Num, set, frozenset, Func, Builtin, Bound, type(Ellipsis), type(NotImplemented), slice)


def setitem(I, o, i, v):
    k = type(o)
    if k is dict:
        f, kk = dict_find(I, o, i)
        o[kk] = v
        return
    if k is list:
        if isinstance(i, slice):
            o[i] = list(I.iterate(v))
            return
        try:
            o[I.as_int(i)] = v
        except IndexError as e:
            raise I.exc(IndexError, str(e))
        return
    if k is Arr:
        from . import np_model
        return np_model.setitem(I, o, i, v)
    if k is Obj:
        m = I.lookup(o.cls, "__setitem__")
        if m is not None:
            I.call(I.bind(m, o, o.cls), [i, v])
            return
    if k not in ATOMIC + (tuple, NTuple, str, AStr, Obj, Cls, range):
        raise Inconclusive(f"item assignment to {o!r}")
    raise I.exc(TypeError, f"'{I.tname(o)}' object does not support item assignment")


def delitem(I, o, i):
    if type(o) is dict:
        f, kk = dict_find(I, o, i)
        if not f:
            raise I.exc(KeyError, i)
        del o[kk]
        return
    if type(o) is list:
        try:
            del o[i if isinstance(i, slice) else I.as_int(i)]
        except IndexError as e:
            raise I.exc(IndexError, str(e))
        return
    if isinstance(o, Obj):
        m = I.lookup(o.cls, "__delitem__")
        if m is not None:
            I.call(I.bind(m, o, o.cls), [i])
            return
    raise I.exc(TypeError, "object doesn't support item deletion")


# ------------------------------------------------------------------ attributes of natives

STRM = set(m for m in dir(str) if not m.startswith("_"))


def native_attr(I, o, name):
    k = type(o)
    if name == "__class__":
        return typeof(I, o)
    if k.__name__ == "DType":
        from . import np_model
        return np_model.dtype_attr(I, o, name)
    if k.__name__ == "AtHelper" and name in ("set", "add", "multiply", "get"):
        def athelp(I, a, kw):
            from . import np_model as N
            r = Arr(o.a.shape, list(o.a.elems), "np", o.a.dtype)
            kind = N.outkind(o.a, *[x for x in a if isinstance(x, Arr)])
            if name != "get":
                v = a[0]
                if isinstance(v, Arr):
                    v = Arr(v.shape, v.elems, "np", v.dtype)
                if name == "add":
                    v = I.binop("+", N.getitem(I, r, o.i), v)
                if name == "multiply":
                    v = I.binop("*", N.getitem(I, r, o.i), v)
                N.setitem(I, r, o.i, v)
                return Arr(r.shape, r.elems, kind, r.dtype)
            return N.getitem(I, o.a, o.i)
        return Builtin(name, athelp)
    if k in (str, AStr):
        if name in STRM:
            return str_method(I, o, name)
    elif k is list:
        if name in LISTM:
            return Builtin(name, lambda I, a, kw: LISTM[name](I, o, *a, **kw))
    elif k is dict:
        if I.ddfactory.get(id(o)) == "counter":
            if name in ("most_common", "elements", "update", "subtract", "total"):
                from . import ext_model
                return Bound(ext_model.pystd(I, "counter_" + name), o)
            if name == "copy":
                raise Inconclusive("copy of a Counter")
        if name == "default_factory" and id(o) in I.ddfactory:
            return I.ddfactory[id(o)]
        if name in DICTM:
            return Builtin(name, lambda I, a, kw: DICTM[name](I, o, *a, **kw))
    elif k in (set, frozenset, KEYS):
        if name in SETM or name == "isdisjoint":
            return Builtin(name, lambda I, a, kw: _setm(I, o, name, a))
    elif k is tuple:
        if name == "index":
            return Builtin(name, lambda I, a, kw: _index(I, o, *a))
        if name == "count":
            return Builtin(name, lambda I, a, kw: sum(1 for x in o if I.truth(equal(I, x, a[0]))))
    elif k is slice or k is range:
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        if name == "indices":
            return Builtin(name, lambda I, a, kw: o.indices(I.as_int(a[0])))
    elif k is GenObj:
        if name == "close":
            return Builtin(name, lambda I, a, kw: o.gen.close())
        if name == "send":
            def send(I, a, kw):
                if a[0] is not None:
                    raise Inconclusive("a value sent into a generator")
                return next_(I, [o], {})
            return Builtin(name, send)
    elif isinstance(o, type):
        if o is dict and name == "fromkeys":
            return Builtin(name, lambda I, a, kw: {I.hashable(x): (a[1] if len(a) > 1 else None) for x in I.iterate(a[0])})
        if name in ("__name__", "__qualname__"):
            return o.__name__
        if name == "__mro__":
            return tuple(o.__mro__)
        if o is itertools.chain and name == "from_iterable":
            return Builtin(name, lambda I, a, kw: _chain(I, I.iterate(a[0])))
        if o is object and name in ("__new__", "__init__", "__setattr__", "__getattribute__", "__repr__", "__eq__", "__hash__"):
            return object_method(I, name)
        if o in (str, list, dict, tuple, set):
            if o is str and name == "maketrans":
                return Builtin(name, lambda I, a, kw: str.maketrans(*a))
            return Builtin(name, lambda I, a, kw: I.call(I.getattr(a[0], name), a[1:], kw))
        if name == "__doc__":
            return ""
        if issubclass(o, BaseException) and name == "__init__":
            return Builtin("__init__", lambda I, a, kw: a[0].attrs.__setitem__("args", tuple(a[1:])))
    elif k in (int, float, bool):
        if name in ("real",):
            return o
        if name == "is_integer":
            return Builtin(name, lambda I, a, kw: float(o).is_integer())
        if name == "imag":
            return 0
        if name in ("size",) and k is not int and k is not float:
            return 1
        if name == "conjugate":
            return Builtin(name, lambda I, a, kw: o)
    if name == "__len__" and k in (tuple, list, dict, set, str):
        return Builtin(name, lambda I, a, kw: len(o))
    if name == "__iter__" and k in (tuple, list, dict, set, str, KEYS, VALUES, ITEMS, range):
        return Builtin(name, lambda I, a, kw: GenObj(iter(o), "iterator"))
    if name == "__next__" and hasattr(o, "__next__"):
        return Builtin(name, lambda I, a, kw: next_(I, [o], {}))
    if name == "__getitem__" and k in (tuple, list, dict):
        return Builtin(name, lambda I, a, kw: getitem(I, o, a[0]))
    if name == "__setitem__" and k in (list, dict):
        return Builtin(name, lambda I, a, kw: setitem(I, o, a[0], a[1]))
    if name == "__contains__" and k in (tuple, list, dict, set):
        return Builtin(name, lambda I, a, kw: contains(I, o, a[0]))
    if name in ("__doc__",):
        return None
    if o is None or k in (int, float, bool, str, AStr, tuple, list, dict, set, frozenset, range, slice, KEYS, VALUES, ITEMS, GenObj):
        host = {AStr: str, KEYS: type({}.keys()), VALUES: type({}.values()), ITEMS: type({}.items()),
                GenObj: _HOST_GEN}.get(k, k)
        raise I.no_attr(host if o is not None else type(None), f"'{I.tname(o)}' object", name)
    raise Inconclusive(f"attribute {name} of {o!r}")


_HOST_GEN = frozenset(dir(type(_ for _ in ()))) | frozenset(dir(iter([])))


def _index(I, o, v, *rest):
    lo = rest[0] if rest else 0
    for i, x in enumerate(o):
        if i >= lo and (x is v or I.truth(equal(I, x, v))):
            return i
    raise I.exc(ValueError, "value not in sequence")


def _lpop(I, o, i=-1):
    try:
        return o.pop(I.as_int(i))
    except IndexError as e:
        raise I.exc(IndexError, str(e))


def _lremove(I, o, v):
    del o[_index(I, o, v)]


def _sort(I, o, key=None, reverse=False):
    o[:] = sorted_(I, o, key, reverse)


LISTM = {
    "append": lambda I, o, v: o.append(v),
    "extend": lambda I, o, v: o.extend(I.iterate(v)),
    "insert": lambda I, o, i, v: o.insert(I.as_int(i), v),
    "pop": _lpop,
    "remove": _lremove,
    "index": _index,
    "count": lambda I, o, v: sum(1 for x in o if I.truth(equal(I, x, v))),
    "reverse": lambda I, o: o.reverse(),
    "sort": _sort,
    "copy": lambda I, o: list(o),
    "clear": lambda I, o: o.clear(),
}


def _dpop(I, o, k, *d):
    f, kk = dict_find(I, o, k)
    if f:
        return o.pop(kk)
    if d:
        return d[0]
    raise I.exc(KeyError, k)


def _dsetdefault(I, o, k, d=None):
    f, kk = dict_find(I, o, k)
    if not f:
        o[kk] = d
    return o[kk]


def _dget(I, o, k, d=None):
    f, kk = dict_find(I, o, k)
    return o[kk] if f else d


def _dpopitem(I, o, last=True):
    if not o:
        raise I.exc(KeyError, "popitem(): dictionary is empty")
    if not last:
        k = next(iter(o))
        return (k, o.pop(k))
    return o.popitem()


def _move_to_end(I, o, key, last=True):
    f, kk = dict_find(I, o, key)
    if not f:
        raise I.exc(KeyError, key)
    v = o.pop(kk)
    rest = [] if last else list(o.items())
    if not last:
        o.clear()
    o[kk] = v
    o.update(rest)


DICTM = {
    "get": _dget,
    "keys": lambda I, o: o.keys(),
    "values": lambda I, o: o.values(),
    "items": lambda I, o: o.items(),
    "pop": _dpop,
    "popitem": _dpopitem, "move_to_end": _move_to_end,
    "setdefault": _dsetdefault,
    "update": lambda I, o, *a, **kw: o.update(*[to_dict(I, x) for x in a], **kw),
    "copy": lambda I, o: dict(o),
    "clear": lambda I, o: o.clear(),
}
SETM = {"add", "discard", "remove", "union", "intersection", "difference", "update",
        "issubset", "issuperset", "copy", "clear", "pop", "symmetric_difference",
        "difference_update", "intersection_update"}


def _setm(I, o, name, a):
    args = []
    for x in a:
        if name in ("add", "discard", "remove"):
            args.append(I.hashable(x))
        else:
            args.append({I.hashable(y) for y in I.iterate(x)})
    if isinstance(o, KEYS):
        o = set(o)
    try:
        return getattr(o, name)(*args)
    except KeyError as e:
        raise I.exc(KeyError, *e.args)


def to_dict(I, v):
    if isinstance(v, dict):
        return v
    if isinstance(v, Obj) and I.lookup(v.cls, "keys") is not None:
        return {I.hashable(k): I.getitem(v, k) for k in I.iterate(I.call(I.getattr(v, "keys"), []))}
    d = {}
    for kv in I.iterate(v):
        a = list(I.iterate(kv))
        if len(a) != 2:
            raise I.exc(ValueError, "dictionary update sequence element has wrong length")
        d[I.hashable(a[0])] = a[1]
    return d


# ------------------------------------------------------------------ object/type protocol

def object_attr(I, o, name):
    if BaseException in mro_of(o.cls):
        if name == "args":
            return (o.attrs.get("args", ()),)
        if name in ("__cause__", "__context__", "__traceback__", "__suppress_context__"):
            return (o.attrs.get(name),)
        if name == "with_traceback":
            return (Builtin(name, lambda I, a, kw: o),)
        if name == "add_note":
            return (Builtin(name, lambda I, a, kw: None),)
        if name == "value" and StopIteration in mro_of(o.cls):
            return ((o.attrs.get("args") or (None,))[0],)
    if name == "__module__":
        return (o.cls.ns.get("__module__") if isinstance(o.cls, Cls) else None,)
    if name in ("__str__", "__repr__"):
        return (Builtin(name, lambda I, a, kw: repr_(I, o)),)
    if name == "__init__":
        return (Builtin(name, lambda I, a, kw: None),)
    if name == "__eq__":
        return (Builtin(name, lambda I, a, kw: o is a[0]),)
    if name == "__hash__":
        return (Builtin(name, lambda I, a, kw: I.py_id(o)),)
    if name == "__setattr__":
        return (Builtin(name, lambda I, a, kw: o.attrs.__setitem__(a[0], a[1])),)
    return None


def class_attr(I, c, name):
    if name == "__name__":
        return (c.name,)
    if name == "__qualname__":
        return (c.ns.get("__qualname__", c.name),)
    if name == "__mro__":
        return (tuple(c.mro),)
    if name == "mro":
        return (Builtin("mro", lambda I, a, kw: list(c.mro)),)
    if name == "__bases__":
        return (c.bases,)
    if name == "__base__":
        return (c.bases[0],)
    if name == "__dict__":
        return (c.ns,)
    if name == "__class__":
        return (type,)
    if name == "__subclasses__":
        return (Builtin(name, lambda I, a, kw: list(c.subs)),)
    if name == "__module__":
        return (c.ns.get("__module__"),)
    if name == "__doc__":
        return (c.ns.get("__doc__"),)
    if name == "__annotations__":
        return ({},)
    if name in ("__new__", "__init__", "__setattr__", "__repr__", "__str__", "__eq__", "__hash__", "__init_subclass__", "__subclasshook__"):
        for x in c.mro:
            if isinstance(x, type) and issubclass(x, BaseException) and name == "__init__":
                return (native_attr(I, x, name),)
        return (object_method(I, name),)
    return None


def object_method(I, name):
    if name == "__new__":
        def new(I, a, kw):
            cls = a[0]
            if not isinstance(cls, (Cls, type)):
                raise I.exc(TypeError, "object.__new__(X): X is not a type object")
            o = Obj(cls)
            o.site = I.site()
            if isinstance(cls, Cls) and BaseException in cls.mro:
                o.attrs["args"] = tuple(a[1:])
            return o
        return Builtin("__new__", new)
    if name == "__setattr__":
        return Builtin(name, lambda I, a, kw: a[0].attrs.__setitem__(a[1], a[2]))
    if name in ("__repr__", "__str__"):
        return Builtin(name, lambda I, a, kw: f"<{I.tname(a[0])} object>")
    if name == "__eq__":
        return Builtin(name, lambda I, a, kw: True if a[0] is a[1] else NotImplemented)
    if name == "__hash__":
        return Builtin(name, lambda I, a, kw: I.py_id(a[0]))
    return Builtin(name, lambda I, a, kw: None)


def object_super(I, s, name):
    if name == "__new__":
        return object_method(I, "__new__")
    if name == "__init__":
        def init(I, a, kw, s=s):
            if BaseException in mro_of(s.objcls):
                s.obj.attrs["args"] = tuple(a)
                return None
            if a or kw:
                raise I.exc(TypeError, "object.__init__() takes exactly one argument")
            return None
        return Builtin("__init__", init)
    if name == "__init_subclass__":
        return Builtin(name, lambda I, a, kw: None)
    if name in ("__repr__", "__str__"):
        return Builtin(name, lambda I, a, kw: (str_(I, s.obj) if BaseException in mro_of(s.objcls) else f"<{I.tname(s.obj)} object>"))
    if name == "__setattr__":
        return Builtin(name, lambda I, a, kw: s.obj.attrs.__setitem__(a[0], a[1]))
    if name == "__eq__":
        return Builtin(name, lambda I, a, kw: True if s.obj is a[0] else NotImplemented)
    if name == "__hash__":
        return Builtin(name, lambda I, a, kw: I.py_id(s.obj))
    if hasattr(object, name) or any(isinstance(c, type) and hasattr(c, name) for c in s.objcls.mro):
        raise Inconclusive(f"super().{name}")
    raise I.exc(AttributeError, f"'super' object has no attribute '{name}'")


def call_type(I, t, args, kw):
    if t is type:
        if len(args) == 1:
            return typeof(I, args[0])
        return I.make_class(args[0], list(args[1]), dict(args[2]), Module("?", {}), None)
    if t is object:
        return Obj(object)
    if issubclass(t, BaseException):
        return Obj(t, {"args": tuple(args)})
    if t in (tuple, list):
        if not args:
            return t()
        return t(I.iterate(args[0]))
    if t in (set, frozenset):
        return t(I.hashable(x) for x in I.iterate(args[0])) if args else t()
    if t is dict:
        d = dict(to_dict(I, args[0])) if args else {}
        d.update(kw)
        return d
    if t is str:
        return str_(I, args[0]) if args else ""
    if t is bool:
        return I.truth(args[0]) if args else False
    if t is int:
        if not args:
            return 0
        v = args[0]
        if isinstance(v, str):
            try:
                return int(v, *args[1:], **kw)
            except ValueError as e:
                raise I.exc(ValueError, str(e))
        if isinstance(v, (int, float)):
            try:
                return int(v)
            except (ValueError, OverflowError) as e:
                raise I.exc(type(e), str(e))
        if isinstance(v, Num):
            if v.t.is_const():
                return int(v.t.const_value())
            if v.ty in ("int", "np.int64"):
                return Num(v.t, "int")
            if I.sign_of(v.t, "0+"):
                return Num(T.app("floor", v.t), "int")
            return Num(-T.app("floor", -v.t), "int")
        if isinstance(v, Arr) and v.kind == "trc":
            raise I.exc(TypeError, "ConcretizationTypeError: int() of a traced jax array")
        if isinstance(v, Arr) and v.size == 1:
            return call_type(I, int, [Num(v.elems[0], "float")] , {})
        if isinstance(v, AStr):
            if any(isinstance(p, str) and not p.strip().isdigit() for p in v.parts):
                raise I.exc(ValueError, f"invalid literal for int(): {v!r}")
            if I.decide(f"{v!r} is numeric", ("numeric", v)):
                return Num(T.app("int", repr(v)), "int")
            raise I.exc(ValueError, f"invalid literal for int(): {v!r}")
        if isinstance(v, Obj) and I.lookup(v.cls, "__int__") is not None:
            return I.call(I.bind(I.lookup(v.cls, "__int__"), v, v.cls), [])
        raise I.exc(TypeError, f"int() argument must be a string or a number, not '{I.tname(v)}'")
    if t is float:
        if not args:
            return 0.0
        v = args[0]
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError as e:
                raise I.exc(ValueError, str(e))
        if isinstance(v, Num):
            return mknum(v.t, "float")
        if isinstance(v, Arr):
            if v.kind == "trc":
                raise I.exc(TypeError, "ConcretizationTypeError: float() of a traced jax array")
            if v.size != 1:
                raise I.exc(TypeError, "only length-1 arrays can be converted to Python scalars")
            e = v.elems[0]
            return mknum(e if isinstance(e, RF) else T.from_number(e), "float")
        raise I.exc(TypeError, f"float() argument must be a string or a number, not '{I.tname(v)}'")
    if t is slice:
        return slice(*[x if x is None else I.as_int(x) for x in args])
    if t is range:
        return range(*[I.as_int(x) for x in args])
    if t is enumerate:
        start = kw.get("start", args[1] if len(args) > 1 else 0)
        return _iter(enumerate(I.iterate(args[0]), I.as_int(start)))
    if t is zip:
        its = [iter(I.iterate(a)) for a in args]
        return _zip(I, its, kw.get("strict", False))
    if t is map:
        f = args[0]
        its = [iter(I.iterate(a)) for a in args[1:]]
        return _gen(I.call(f, list(xs)) for xs in zip(*its))
    if t is filter:
        f = args[0]
        return _gen(x for x in I.iterate(args[1]) if I.truth(x if f is None else I.call(f, [x])))
    if t is reversed:
        v = args[0]
        if isinstance(v, Obj):
            m = I.lookup(v.cls, "__reversed__")
            if m is not None:
                return I.call(I.bind(m, v, v.cls), [])
            n = length(I, v)
            return _gen(I.getitem(v, i) for i in range(n - 1, -1, -1))
        if isinstance(v, (GenObj, set)):
            raise I.exc(TypeError, f"'{I.tname(v)}' object is not reversible")
        return _iter(reversed(list(I.iterate(v))))
    if t is property:
        return Property(*(args[:2] if args else (kw.get("fget"), kw.get("fset"))))
    if t is classmethod:
        return ClassMethod(args[0])
    if t is staticmethod:
        return StaticMethod(args[0])
    if t is super:
        if len(args) == 2:
            o = args[1]
            return Super(args[0], o, o if isinstance(o, Cls) else o.cls)
    if t is itertools.chain:
        return _chain(I, args)
    if t is memoryview or t is bytes or t is complex:
        raise Inconclusive(f"{t.__name__}()")
    raise Inconclusive(f"call of type {t!r}")


def _chain(I, seqs):
    # arguments of chain(*xs) are already evaluated; their iteration is lazy
    def g():
        for s in seqs:
            yield from I.iterate(s)
    return GenObj(g(), "chain")


def _zip(I, its, strict):
    strict = I.truth(strict)

    def g():
        if not its:
            return
        while True:
            row = []
            for j, it in enumerate(its):
                try:
                    row.append(next(it))
                except StopIteration:
                    if strict:
                        if j > 0:
                            raise I.exc(ValueError, "zip() argument is shorter")
                        for it2 in its[1:]:
                            try:
                                next(it2)
                            except StopIteration:
                                continue
                            raise I.exc(ValueError, "zip() argument is longer")
                    return
            yield tuple(row)
    return GenObj(g(), "zip")


def _gen(g):
    return GenObj(g, "iterator")


def _iter(g):
    return GenObj(iter(g), "iterator")


def length(I, v):
    k = type(v)
    if k in (tuple, list, dict, set, frozenset, str, range, NTuple, KEYS, VALUES, ITEMS):
        return len(v)
    if k is Arr:
        if not v.shape:
            raise I.exc(TypeError, "len() of unsized object")
        return v.shape[0]
    if k is Obj:
        m = I.lookup(v.cls, "__len__")
        if m is not None:
            return I.call(I.bind(m, v, v.cls), [])
    if k is AStr:
        n = sum(len(p) for p in v.parts if isinstance(p, str))
        t = RF.const(n)
        for p in v.parts:
            if isinstance(p, KAtom):
                t = t + T.app("len", p.name, sign="+")
        return Num(t, "int")
    raise I.exc(TypeError, f"object of type '{I.tname(v)}' has no len()")


def next_(I, a, kw):
    it = a[0]
    try:
        if isinstance(it, Obj):
            m = I.lookup(it.cls, "__next__")
            if m is None:
                raise I.exc(TypeError, "object is not an iterator")
            return I.call(I.bind(m, it, it.cls), [])
        if not hasattr(it, "__next__"):
            raise I.exc(TypeError, f"'{I.tname(it)}' object is not an iterator")
        try:
            return next(it)
        except StopIteration:
            raise I.exc(StopIteration)
    except PyExc as e:
        if len(a) > 1 and StopIteration in mro_of(e.obj.cls):
            return a[1]
        raise


import functools as _ft


def sorted_(I, it, key=None, reverse=False):
    items = list(I.iterate(it))
    ks = [I.call(key, [x]) for x in items] if key is not None else items

    def cmp(i, j):
        if I.truth(compare(I, "<", ks[i], ks[j])):
            return -1
        if I.truth(compare(I, "<", ks[j], ks[i])):
            return 1
        return 0
    order = sorted(range(len(items)), key=_ft.cmp_to_key(cmp), reverse=I.truth(reverse))
    return [items[i] for i in order]


def minmax(I, op, a, kw):
    if len(a) == 1:
        items = list(I.iterate(a[0]))
    else:
        items = list(a)
    if not items:
        if "default" in kw:
            return kw["default"]
        raise I.exc(ValueError, f"{'min' if op == '<' else 'max'}() arg is an empty sequence")
    key = kw.get("key")
    ks = [I.call(key, [x]) for x in items] if key is not None else items
    best = 0
    for i in range(1, len(items)):
        if I.truth(compare(I, op, ks[i], ks[best])):
            best = i
    return items[best]


def sum_(I, a, kw):
    tot = kw.get("start", a[1] if len(a) > 1 else 0)
    for x in I.iterate(a[0]):
        tot = I.binop("+", tot, x)
    return tot


def _all(I, a, kw):
    for x in I.iterate(a[0]):
        if not I.truth(x):
            return False
    return True


def _any(I, a, kw):
    for x in I.iterate(a[0]):
        if I.truth(x):
            return True
    return False


def _getattr_b(I, a, kw):
    if not isinstance(a[1], str):
        raise Inconclusive("getattr with an abstract name")
    return I.getattr(a[0], a[1], *(a[2:3]))


def _hasattr(I, a, kw):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyExc as e:
        if AttributeError in mro_of(e.obj.cls):
            return False
        raise


def _abs(I, a, kw):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Num):
        return mknum(T.t_abs(v.t), v.ty)
    if isinstance(v, Arr):
        from . import np_model
        return np_model.emap(v, lambda e: T.t_abs(np_model.num(e)))
    if isinstance(v, Obj):
        m = I.lookup(v.cls, "__abs__")
        if m is not None:
            return I.call(I.bind(m, v, v.cls), [])
    raise I.exc(TypeError, "bad operand type for abs()")


def _round(I, a, kw):
    if isinstance(a[0], (int, float)):
        return round(*a)
    if isinstance(a[0], Num):
        return Num(T.app("round", a[0].t, *[T.from_number(x) for x in a[1:]]), "int" if len(a) == 1 else a[0].ty)
    raise Inconclusive("round")


def _print(I, a, kw):
    return None


def _divmod(I, a, kw):
    return (I.binop("//", a[0], a[1]), I.binop("%", a[0], a[1]))


def _iterb(I, a, kw):
    v = a[0]
    if isinstance(v, Obj):
        m = I.lookup(v.cls, "__iter__")
        if m is not None:
            return I.call(I.bind(m, v, v.cls), [])
    if isinstance(v, GenObj):
        return v
    return GenObj(iter(I.iterate(v)), "iterator")


def _vars(I, a, kw):
    o = a[0]
    return o.attrs if isinstance(o, Obj) else o.ns


def _hash(I, a, kw):
    v = I.hashable(a[0])
    if isinstance(v, (int, float, type(None))):
        return hash(v)
    if v not in I.hashes:               # a number per value, the same in every run
        I.hashes[v] = 7919 * (len(I.hashes) + 3)
    return I.hashes[v]


def _dir(I, a, kw):
    o = a[0]
    names = set()
    c = o if isinstance(o, Cls) else typeof(I, o)
    for x in mro_of(c):
        if isinstance(x, Cls):
            names |= set(x.ns)
    if isinstance(o, Obj):
        names |= set(o.attrs)
    if isinstance(o, Module):
        names = set(o.ns)
    return sorted(names)


def _setattr_b(I, a, kw):
    I.setattr(a[0], a[1], a[2])


def _delattr_b(I, a, kw):
    d = a[0].attrs if isinstance(a[0], Obj) else a[0].ns
    if a[1] not in d:
        raise I.exc(AttributeError, a[1])
    del d[a[1]]


def make(I):
    d = {}
    for t in (int, float, str, bool, list, tuple, dict, set, frozenset, object, type, slice, range,
              enumerate, zip, map, filter, reversed, property, classmethod, staticmethod, super,
              bytes, complex, memoryview):
        d[t.__name__] = t
    for n in dir(hb):
        v = getattr(hb, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            d[n] = v
    d["NotImplemented"] = NotImplemented
    d["Ellipsis"] = Ellipsis
    d["__debug__"] = True

    def add(name, fn):
        d[name] = Builtin(name, fn)

    add("len", lambda I, a, kw: length(I, a[0]))
    add("isinstance", lambda I, a, kw: isinstance_(I, a[0], a[1]))
    add("issubclass", lambda I, a, kw: issubclass_(I, a[0], a[1]))
    add("callable", lambda I, a, kw: callable_(I, a[0]))
    add("id", lambda I, a, kw: I.py_id(a[0]))
    add("hash", _hash)
    add("repr", lambda I, a, kw: repr_(I, a[0]))
    add("format", lambda I, a, kw: format_(I, *a))
    add("all", _all)
    add("any", _any)
    add("sum", sum_)
    add("min", lambda I, a, kw: minmax(I, "<", a, kw))
    add("max", lambda I, a, kw: minmax(I, ">", a, kw))
    add("abs", _abs)
    add("round", _round)
    add("sorted", lambda I, a, kw: sorted_(I, a[0], **kw))
    add("iter", _iterb)
    add("next", next_)
    add("getattr", _getattr_b)
    add("setattr", _setattr_b)
    add("delattr", _delattr_b)
    add("hasattr", _hasattr)
    add("print", _print)
    add("divmod", _divmod)
    def pow_(I, a, kw):
        if len(a) == 3 or kw:
            if not kw and all(isinstance(x, int) for x in a):
                return pow(*a)
            raise Inconclusive("pow with a modulus")
        return I.binop("**", a[0], a[1])
    add("pow", pow_)
    for nm in ("bin", "hex", "oct"):
        add(nm, lambda I, a, kw, nm=nm: {"bin": bin, "hex": hex, "oct": oct}[nm](I.as_int(a[0])))
    add("vars", _vars)
    add("dir", _dir)
    add("chr", lambda I, a, kw: chr(a[0]))
    add("ord", lambda I, a, kw: ord(a[0]))
    return d


# ------------------------------------------------------------------ named tuples

def make_namedtuple(I, name, fields, defaults, ns):
    ns = dict(ns)
    ns["__nt_fields__"] = tuple(fields)
    ns["__nt_defaults__"] = defaults
    ns["_fields"] = tuple(fields)
    return Cls(name, [tuple], ns)


def new_namedtuple(I, cls, args, kw):
    fields = cls.ns["__nt_fields__"]
    vals = list(args)
    if len(vals) > len(fields):
        raise I.exc(TypeError, f"{cls.name}() takes {len(fields)} arguments")
    for f in fields[len(vals):]:
        if f in kw:
            vals.append(kw[f])
        elif f in cls.ns["__nt_defaults__"]:
            vals.append(cls.ns["__nt_defaults__"][f])
        else:
            raise I.exc(TypeError, f"{cls.name}() missing argument '{f}'")
    for k in kw:
        if k not in fields or fields.index(k) < len(args):
            raise I.exc(TypeError, f"{cls.name}() got an unexpected keyword argument '{k}'")
    t = NTuple(vals)
    t.cls = cls
    return t


def nt_attr(I, o, name):
    if name == "_replace":
        def rep(I, a, kw):
            t = NTuple([kw.get(f, v) for f, v in zip(o.cls.ns["__nt_fields__"], o)])
            t.cls = o.cls
            return t
        return Builtin(name, rep)
    if name == "_asdict":
        return Builtin(name, lambda I, a, kw: dict(zip(o.cls.ns["__nt_fields__"], o)))
    if name == "__class__":
        return o.cls
    if name in ("index", "count"):
        return native_attr(I, tuple(o), name)
    raise I.no_attr(tuple, f"'{o.cls.name}' object", name)
