"""
Driver: explores every partition of every analysis context of a property and checks its obligations.

A context (/verif/contexts/<ID>.py, functions named ctx_*) is a most-general client of the
repository's public API.  It is never executed by Python: the abstract interpreter walks it
together with the repository functions it reaches.
"""
import ast
import glob
import json
import multiprocessing as mp
import os
import sys
import threading
import time
import traceback

from . import terms as T
from . import astr
from . import builtins_model as B
from . import np_model as N
from .astr import AStr, KAtom
from .interp import (
    Arr, Bound, Builtin, Cls, Func, GenObj, Infeasible, Interp, Module, NTuple, Num, Obj, ObligationFailed,
    Opaque, OpaqueFn, PyExc, TypeExpr, mro_of, parse_file,
)
from .terms import Inconclusive, RF

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CTX = os.path.join(HERE, "contexts")


# ------------------------------------------------------------------ deep comparison

class Differ(Exception):
    pass


def rf_of(v):
    if isinstance(v, RF):
        return v
    if isinstance(v, bool):
        return RF.const(int(v))
    if isinstance(v, (int, float)):
        return T.from_number(v)
    if isinstance(v, Num):
        return v.t
    if isinstance(v, Arr) and v.size == 1:
        return rf_of(N.num(v.elems[0]))
    return None


def guarded_compare(I, a, b):
    n = T.RANDOM_INTERPRETATION[0]
    r = T.compare(a, b, [(n, s) for n, s in I.signs])
    if T.RANDOM_INTERPRETATION[0] != n:
        I.assumptions.add("some equalities were decided by random interpretation (agreement of value numbers at "
                          f"{T.AGREE} pseudo-random points), not by normal form")
    return r


def deep_equal(I, a, b, path="value"):
    """Raise Differ with a description, Inconclusive when undecided."""
    if a is b:
        return
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, (str, AStr, Obj)) or isinstance(b, (str, AStr, Obj)):
            raise Differ(f"{path}: {show(a)} vs {show(b)}")
        x, y = N.asarr(I, a), N.asarr(I, b)
        if x.shape != y.shape:
            raise Differ(f"{path}: shape {x.shape} vs {y.shape}: {show(a)} vs {show(b)}")
        for i, (p, q) in enumerate(zip(x.elems, y.elems)):
            if isinstance(p, (bool, N.SymBool)) and isinstance(q, (bool, N.SymBool)):
                if N.decide(I, p) != N.decide(I, q):
                    raise Differ(f"{path}[{i}]: {p} vs {q}")
                continue
            num_equal(I, N.num(p), N.num(q), f"{path}[{i}]")
        return
    ra, rb = rf_of(a), rf_of(b)
    if isinstance(a, float) and a in (float("inf"), float("-inf")) or isinstance(b, float) and b in (float("inf"), float("-inf")):
        if a != b:
            raise Differ(f"{path}: {show(a)} vs {show(b)}")
        return
    if ra is not None and rb is not None:
        num_equal(I, ra, rb, path)
        return
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            raise Differ(f"{path}: length {len(a)} vs {len(b)}: {show(a)} vs {show(b)}")
        for i, (p, q) in enumerate(zip(a, b)):
            deep_equal(I, p, q, f"{path}[{i}]")
        return
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b) and set(a) != set(b):
            raise Differ(f"{path}: keys {show(list(a))} vs {show(list(b))}")
        for k in a:
            deep_equal(I, a[k], b[k], f"{path}[{k!r}]")
        return
    if isinstance(a, Obj) and isinstance(b, Obj):
        r = B.equal(I, a, b)
        if I.truth(r):
            return
        raise Differ(f"{path}: different objects {a!r} vs {b!r}")
    if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
        if I.truth(B.equal(I, a, b)):
            return
        raise Differ(f"{path}: {show(a)} vs {show(b)}")
    try:
        if I.truth(B.equal(I, a, b)):
            return
    except PyExc:
        pass
    raise Differ(f"{path}: {show(a)} vs {show(b)}")


def num_equal(I, a, b, path):
    ok, w = guarded_compare(I, a, b)
    if ok is True:
        return
    if ok is False:
        raise Differ(f"{path}: {a!r} vs {b!r} (witness valuation #{w[0]}: {w[1]:.6g} vs {w[2]:.6g})")
    raise Inconclusive(f"equality of {path} not decided by the value-number domain: {a!r} vs {b!r}")


def show(v, depth=0):
    if depth > 4:
        return "..."
    if isinstance(v, Arr):
        return f"array{v.shape}{[show(e, depth + 1) for e in v.elems]}"
    if isinstance(v, NTuple):
        return f"{v.cls.name}{tuple(show(x, depth + 1) for x in v)}"
    if isinstance(v, (tuple, list)):
        o, c = ("(", ")") if isinstance(v, tuple) else ("[", "]")
        return o + ", ".join(show(x, depth + 1) for x in v) + c
    if isinstance(v, dict):
        return "{" + ", ".join(f"{show(k, depth + 1)}: {show(x, depth + 1)}" for k, x in v.items()) + "}"
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


# ------------------------------------------------------------------ heap graph

def heap(I, roots, skip_types=(Cls, Module, TypeExpr, Builtin)):
    """Mutable storage reachable from roots: {host id: (object, access path)}."""
    out = {}
    todo = [(r, "value") for r in roots]
    keep = []
    while todo:
        v, p = todo.pop()
        if isinstance(v, Arr):
            if id(v.buf) not in out:
                out[id(v.buf)] = (v, p)
            continue
        if id(v) in out:
            continue
        if isinstance(v, Obj):
            out[id(v)] = (v, p)
            for k, x in v.attrs.items():
                todo.append((x, f"{p}.{k}"))
        elif isinstance(v, (list, tuple, set, frozenset)):
            if isinstance(v, (list, set)):
                out[id(v)] = (v, p)
            for i, x in enumerate(v):
                todo.append((x, f"{p}[{i}]"))
        elif isinstance(v, dict):
            out[id(v)] = (v, p)
            for k, x in v.items():
                todo.append((x, f"{p}[{k!r}]"))
        elif isinstance(v, Bound):
            todo.append((v.self, f"{p}.__self__"))
    return out


def freeze(I, v, memo=None):
    """A hashable-free structural description of the heap graph reachable from v."""
    memo = {} if memo is None else memo
    if isinstance(v, Arr):
        key = id(v.buf)
        if key in memo:
            return ("ref", memo[key], v.shape, tuple(v.idx))
        memo[key] = len(memo)
        I.py_id(v)
        return ("arr", v.kind, v.shape, v.dtype, [e if not isinstance(e, RF) else e for e in v.elems])
    if isinstance(v, (Obj, list, dict, set)):
        if id(v) in memo:
            return ("ref", memo[id(v)])
        memo[id(v)] = len(memo)
        I.py_id(v)
        if isinstance(v, Obj):
            return ("obj", I.py_id(v), v.cls, [(k, freeze(I, x, memo)) for k, x in v.attrs.items()])
        if isinstance(v, dict):
            return ("dict", I.py_id(v), [(k, freeze(I, x, memo)) for k, x in v.items()])
        return (type(v).__name__, I.py_id(v), [freeze(I, x, memo) for x in v])
    if isinstance(v, tuple):
        return ("tuple", [freeze(I, x, memo) for x in v])
    return ("val", v)


def frozen_equal(I, a, b, path="value"):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            raise Differ(f"{path} changed")
        if len(a) > 1 and a[0] == "arr" and b[0] == "arr":
            if a[2] != b[2]:
                raise Differ(f"{path}: array shape {a[2]} became {b[2]}")
            for i, (p, q) in enumerate(zip(a[4], b[4])):
                if isinstance(p, RF) and isinstance(q, RF):
                    num_equal(I, p, q, f"{path}[{i}]")
                elif p is not q and p != q:
                    raise Differ(f"{path}[{i}] changed")
            return
        if len(a) > 1 and a[0] == "obj" and b[0] == "obj":
            if a[1] != b[1]:
                raise Differ(f"{path}: object replaced by another one")
            da, db = dict(a[3]), dict(b[3])
            # attributes that appear are caches, tolerated; attributes that vanish or change are not
            for k in da:
                if k not in db:
                    raise Differ(f"{path}.{k} disappeared")
                frozen_equal(I, da[k], db[k], f"{path}.{k}")
            return
        if len(a) > 1 and a[0] == "dict" and b[0] == "dict":
            ka, kb = [k for k, _ in a[2]], [k for k, _ in b[2]]
            if ka != kb:
                raise Differ(f"{path}: keys {show(ka)} became {show(kb)}")
            for (k, x), (_, y) in zip(a[2], b[2]):
                frozen_equal(I, x, y, f"{path}[{k!r}]")
            return
        for i, (x, y) in enumerate(zip(a, b)):
            frozen_equal(I, x, y, path if isinstance(x, str) else f"{path}[{i}]")
        return
    if isinstance(a, RF) or isinstance(b, RF):
        num_equal(I, a, b, path)
        return
    if isinstance(a, Num) and isinstance(b, Num):
        num_equal(I, a.t, b.t, path)
        return
    if a is not b and not (type(a) is type(b) and a == b):
        raise Differ(f"{path}: {show(a)} became {show(b)}")


# ------------------------------------------------------------------ context API

def const_int(n):
    """the integer that a literal, or arithmetic of literals, stands for (None for anything else)"""
    if isinstance(n, ast.Constant):
        if type(n.value) is int or (type(n.value) is float and n.value == n.value // 1 and abs(n.value) < 1e6):
            return int(n.value)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        x = const_int(n.operand)
        return None if x is None else -x
    elif isinstance(n, ast.BinOp):
        x, y = const_int(n.left), const_int(n.right)
        if x is not None and y is not None and abs(x) < 1e6 and 0 <= y < 1e6:
            if isinstance(n.op, ast.Add):
                return x + y
            if isinstance(n.op, ast.Sub):
                return x - y
            if isinstance(n.op, ast.Mult):
                return x * y
            if isinstance(n.op, ast.FloorDiv) and y:
                return x // y
            if isinstance(n.op, (ast.Pow, ast.LShift)) and y < 20:
                return x ** y if isinstance(n.op, ast.Pow) else x << y
    return None


_INTS = {}


def int_literals(files):
    """integer literals of the given source files: sizes where behaviour could change"""
    out = set()
    for p in files:
        if p not in _INTS:
            found = {const_int(n) for n in ast.walk(parse_file(p)) if isinstance(n, (ast.Constant, ast.BinOp, ast.UnaryOp))}
            _INTS[p] = {abs(x) for x in found if x is not None and abs(x) <= 4096}
        out |= _INTS[p]
    return sorted(out)


def loaded_files(I):
    """the repository's source files which are part of this analysis"""
    base = os.path.join(SRC, "mpllayout")
    return sorted({m.ns["__file__"] for m in I.modules.values() if str(m.ns.get("__file__", "")).startswith(base)})


def str_literals():
    """short string literals the repository compares, looks up or tests membership with"""
    out = set()
    for p in glob.glob(os.path.join(SRC, "mpllayout", "**", "*.py"), recursive=True):
        for n in ast.walk(parse_file(p)):
            if isinstance(n, (ast.Compare, ast.Subscript, ast.MatchValue)) or (
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                    and n.func.attr in ("get", "pop", "setdefault", "startswith", "endswith")):
                for c in ast.walk(n):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str) and 0 < len(c.value) < 20 \
                            and "/" not in c.value and " " not in c.value:
                        out.add(c.value)
    return frozenset(out)


def inspected_literals():
    """string literals which the repository looks for inside other strings"""
    out = set()
    for p in glob.glob(os.path.join(SRC, "mpllayout", "**", "*.py"), recursive=True):
        for n in ast.walk(parse_file(p)):
            if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                found = [n.left]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "startswith", "endswith", "removeprefix", "removesuffix", "find", "rfind", "index", "rindex",
                    "count", "replace", "strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition"):
                found = [c for a in n.args for c in ast.walk(a)]
            else:
                continue
            out.update(c.value for c in found if isinstance(c, ast.Constant) and isinstance(c.value, str)
                       and 0 < len(c.value) < 20 and "/" not in c.value)
    return frozenset(out)


def choose(I, label, options):
    options = list(options)
    n = len(I.trail)
    if n < len(I.prefix):
        i = I.prefix[n]
    else:
        i = 0
        for k in range(1, len(options)):
            I.pending.append([b for _, b in I.trail] + [k])
    if not options:
        raise Infeasible()
    I.trail.append((f"{label} = {show(options[int(i)])}", int(i)))
    return options[int(i)]


def oblige(I, desc):
    fr = I.stack[-1]
    I.obligations.append((os.path.basename(fr.path), fr.line, desc))


def fail(I, msg):
    raise ObligationFailed(msg, list(I.where(False)))


def api(I, tier):
    d = {}

    def add(name):
        def deco(f):
            d[name] = Builtin(name, f)
            return f
        return deco

    def msg_of(a, i):
        m = a[i] if len(a) > i else ""
        return m if isinstance(m, str) else repr(m)

    @add("sym")
    def sym(I, a, kw):
        return Num(T.atom_rf(T.TABLE.var(a[0], a[1] if len(a) > 1 else kw.get("sign"))), "float")

    @add("vec")
    def vec(I, a, kw):
        n = I.as_int(a[1])
        s = a[2] if len(a) > 2 else None
        return Arr((n,), [T.atom_rf(T.TABLE.var(f"{a[0]}{i}", s)) for i in range(n)], "np")

    @add("mat")
    def mat(I, a, kw):
        n, m = I.as_int(a[1]), I.as_int(a[2])
        return Arr((n, m), [T.atom_rf(T.TABLE.var(f"{a[0]}{i}_{j}")) for i in range(n) for j in range(m)], "np")

    @add("key")
    def key(I, a, kw):
        if a[0] in I.bindings:
            return I.bindings[a[0]]
        if I.concrete_keys is not None:
            if a[0] not in I.concrete_keys:
                n = len(I.concrete_keys)
                I.concrete_keys[a[0]] = I.key_pool[n] if n < len(I.key_pool) else f"q{n}z"
            return I.concrete_keys[a[0]]
        if a[0] not in I.key_atoms:
            I.key_atoms[a[0]] = AStr((KAtom(a[0]),))
        return I.key_atoms[a[0]]

    @add("opaque")
    def opaque(I, a, kw):
        return Opaque(a[0], ty=a[1] if len(a) > 1 else None)

    @add("ufn")
    def ufn(I, a, kw):
        return OpaqueFn(a[0], a[1] if len(a) > 1 else None)

    @add("uf")
    def uf(I, a, kw):
        """value of an arbitrary real function of real arguments"""
        args = []
        for x in a[1:]:
            if isinstance(x, Arr):
                args.extend(N.num(e) for e in x.elems)
            elif isinstance(x, (str, AStr)):
                args.append(repr(x))
            else:
                args.append(B.rf(x))
        return Num(T.app(f"uf:{a[0]}", *args), "float")

    @add("choose")
    def choose_(I, a, kw):
        return choose(I, a[0], I.iterate(a[1]))

    @add("other_world")
    def other_world(I, a, kw):
        """a helper of contexts, over the repository's modules imported afresh: nothing has happened there yet"""
        kept, ext = I.modules, I.ext_cache
        I.modules = {}
        I.ext_cache = {k: v for k, v in ext.items() if not os.path.exists(os.path.join(CTX, k + ".py"))}
        try:
            return load_context(I, os.path.join(CTX, a[0] + ".py"), tier)
        finally:
            I.modules, I.ext_cache = kept, ext

    @add("sizes")
    def sizes(I, a, kw):
        lo, hi, cap = I.as_int(a[0]), I.as_int(a[1]), I.as_int(a[2]) if len(a) > 2 else 24
        s = set(range(lo, hi + 1))
        for c in int_literals(loaded_files(I)):
            for x in (c - 1, c, c + 1, c + 2):
                if lo <= x <= cap:
                    s.add(x)
        return sorted(s)

    @add("tier")
    def tier_(I, a, kw):
        return tier

    @add("bound")
    def bound(I, a, kw):
        return a[1] if tier == "thorough" else a[0]

    @add("assume")
    def assume(I, a, kw):
        if not I.truth(a[0]):
            raise Infeasible()

    @add("require")
    def require(I, a, kw):
        oblige(I, msg_of(a, 1))
        if not I.truth(a[0]):
            fail(I, msg_of(a, 1))

    @add("require_equal")
    def require_equal(I, a, kw):
        oblige(I, msg_of(a, 2))
        try:
            deep_equal(I, a[0], a[1])
        except Differ as e:
            fail(I, f"{msg_of(a, 2)}: {e}")

    @add("require_same")
    def require_same(I, a, kw):
        oblige(I, msg_of(a, 2))
        if not B.is_(a[0], a[1]):
            fail(I, f"{msg_of(a, 2)}: {show(a[0])} is not {show(a[1])}")

    @add("require_raises")
    def require_raises(I, a, kw):
        """require_raises(exception types, thunk, message)"""
        oblige(I, msg_of(a, 2))
        depth = len(I.stack)
        try:
            r = I.call(a[1], [])
        except PyExc as e:
            del I.stack[depth:]
            if I.exc_matches(e.obj, a[0]):
                return e.obj
            e.note = msg_of(a, 2)
            raise
        fail(I, f"{msg_of(a, 2)}: no exception was raised (result {show(r)})")

    @add("attempt")
    def attempt(I, a, kw):
        """(True, value) or (False, exception)"""
        depth = len(I.stack)
        try:
            return (True, I.call(a[0], []))
        except PyExc as e:
            del I.stack[depth:]
            return (False, e.obj)

    @add("snapshot")
    def snapshot(I, a, kw):
        return Snap(freeze(I, tuple(a)))

    @add("require_unchanged")
    def require_unchanged(I, a, kw):
        oblige(I, msg_of(a, 2))
        try:
            frozen_equal(I, a[0].data, freeze(I, (a[1],)))
        except Differ as e:
            fail(I, f"{msg_of(a, 2)}: {e}")

    @add("require_disjoint")
    def require_disjoint(I, a, kw):
        oblige(I, msg_of(a, 2))
        h1, h2 = heap(I, [a[0]]), heap(I, [a[1]])
        for k in h1:
            if k in h2:
                o = h1[k][0]
                if kw.get("arrays") is False and isinstance(o, Arr):
                    continue
                if isinstance(o, Obj) and not o.attrs:
                    continue
                fail(I, f"{msg_of(a, 2)}: {h1[k][1]} and {h2[k][1]} are the same storage ({show(o)})")

    @add("same_storage")
    def same_storage(I, a, kw):
        return isinstance(a[0], Arr) and isinstance(a[1], Arr) and a[0].buf is a[1].buf

    @add("require_zero")
    def require_zero(I, a, kw):
        """every component of a residual is identically zero"""
        oblige(I, msg_of(a, 1))
        arr = N.asarr(I, a[0])
        for i, e in enumerate(arr.elems):
            ok, w = guarded_compare(I, N.num(e), RF({}))
            if ok is False:
                fail(I, f"{msg_of(a, 1)}: residual[{i}] = {N.num(e)!r} (witness valuation: {w[1]:.6g})")
            if ok is None:
                raise Inconclusive(f"residual[{i}] = {N.num(e)!r} not decided")

    @add("require_nonzero")
    def require_nonzero(I, a, kw):
        """not every component of a residual is identically zero"""
        oblige(I, msg_of(a, 1))
        arr = N.asarr(I, a[0])
        undecided = False
        for e in arr.elems:
            r = guarded_compare(I, N.num(e), RF({}))[0]
            if r is False:
                return
            undecided |= r is None
        if undecided:
            raise Inconclusive(f"residual {show(a[0])} not decided")
        fail(I, f"{msg_of(a, 1)}: the residual {show(a[0])} is identically zero")

    @add("register_model")
    def register_model(I, a, kw):
        I.models[a[0]] = a[1]

    @add("registry")
    def registry(I, a, kw):
        return list(I.registry)

    @add("module_classes")
    def module_classes(I, a, kw):
        return [v for v in a[0].ns.values() if isinstance(v, Cls) and v.module is a[0]]

    @add("all_subclasses")
    def all_subclasses(I, a, kw):
        out, todo = [], [a[0]]
        while todo:
            c = todo.pop(0)
            for s in c.subs:
                if s not in out:
                    out.append(s)
                    todo.append(s)
        return [c for c in out if c.module is None or (c.module.path or "").startswith(SRC)]

    @add("recorded_warnings")
    def recorded_warnings(I, a, kw):
        return list(I.warnings)

    @add("numeric")
    def numeric(I, a, kw):
        return rf_of(a[0]) is not None or isinstance(a[0], Arr)

    @add("is_scalar_number")
    def is_scalar_number(I, a, kw):
        return isinstance(a[0], (int, float, Num)) or (isinstance(a[0], Arr) and a[0].shape == ())

    @add("traced")
    def traced(I, a, kw):
        v = a[0]
        return Arr(v.shape, [N.num(e) for e in v.elems], "trc", v.dtype)

    @add("array_kind")
    def array_kind(I, a, kw):
        return a[0].kind if isinstance(a[0], Arr) else None

    @add("fail")
    def fail_(I, a, kw):
        oblige(I, msg_of(a, 0))
        fail(I, msg_of(a, 0))

    @add("show")
    def show_(I, a, kw):
        return show(a[0])

    @add("sign_known")
    def sign_known(I, a, kw):
        return T.rf_sign(rf_of(a[0]))
    d["PI"] = Num(N.pi(), "float")
    d["TIER"] = tier
    return d


# representatives used when an operation on an abstract key is not in the string domain
KEY_POOLS = [["q", "qq", "q0", "Q q", "1", "q-1", "qA", "Aq", "q.q", "Qq", "q_", "10"],
             ["zeta", "a10", "B2", "a", "aa", "_x", "A", "c d", "a2", "\u00e9", "0", "Zeta"]]


class Snap:
    def __init__(self, data):
        self.data = data


# ------------------------------------------------------------------ exploration

class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.inconclusive = []
        self.functions = set()
        self.lines = set()
        self.callsites = set()
        self.partitions = 0
        self.infeasible = 0
        self.obligations = 0
        self.sites = set()
        self.assumptions = set()
        self.contexts = {}


def make_interp(prefix, bindings, tier):
    T.reset()
    I = Interp({"mpllayout": SRC}, prefix, bindings, repo_root=SRC)
    I.key_literals = _STR
    I.own_literals = _OWN
    I.inspected_literals = _INSPECTED
    return I


_STR = frozenset()
_INSPECTED = frozenset()
_OWN = frozenset()      # strings which the contexts themselves use


def load_context(I, path, tier):
    m = Module(os.path.basename(path)[:-3], {"__name__": "ctx", "__package__": ""}, path)
    m.ns.update(api(I, tier))
    tree = parse_file(path)
    for s in tree.body:                     # helpers shared by contexts
        if isinstance(s, ast.ImportFrom) and not s.level and s.module not in I.ext_cache:
            helper = os.path.join(CTX, s.module + ".py")
            if os.path.exists(helper):
                I.ext_cache[s.module] = load_context(I, helper, tier)
    I.exec_module(m, tree)
    return m


def run_partition(path, fn, prefix, bindings, tier, concrete=False):
    """Analyse one partition; returns a picklable dict."""
    I = make_interp(prefix, bindings, tier)
    I.concrete_keys = {} if concrete is not False else None
    I.key_pool = KEY_POOLS[concrete or 0]
    I.key_atoms = {}
    out = {"status": "ok", "prefix": list(prefix), "bindings": dict(bindings), "concrete": concrete}
    try:
        m = load_context(I, path, tier)
        I.call(m.ns[fn], [])
    except Infeasible:
        out["status"] = "infeasible"
    except ObligationFailed as e:
        out.update(status="violation", message=e.args[0], stack=e.args[1])
    except Inconclusive as e:
        out.update(status="inconclusive", message=str(e), stack=list(I.where(False)))
    except PyExc as e:
        name = e.obj.cls.__name__ if isinstance(e.obj.cls, type) else getattr(e.obj.cls, "name", "?")
        args = e.obj.attrs.get("args", ())
        stack = list(e.stack)
        text = f"{name}({', '.join(show(x) for x in args)})"
        inner = stack[-1] if stack else ""
        if not any("src/" in s for s in stack[-1:]) and name in ("AttributeError", "ImportError", "ModuleNotFoundError") \
                and args and isinstance(args[0], str) and (args[0].startswith("module ") or "cannot import" in args[0] or "No module" in args[0]):
            out.update(status="inconclusive", message=f"missing anchor: {text}", stack=stack)
        else:
            note = getattr(e, "note", "")
            out.update(status="violation", message=(note + ": " if note else "") + f"unexpected {text}", stack=stack)
    except RecursionError:
        out.update(status="inconclusive", message="analysis recursion limit", stack=[])
    except Exception as e:                  # a fault of the analyser itself
        out.update(status="inconclusive", message=f"internal: {type(e).__name__}: {e}",
                   stack=list(I.where(False)) + traceback.format_exc().splitlines()[-8:])
    out["trail"] = [(l if isinstance(l, str) else repr(l), v) for l, v in I.trail]
    out["pending"] = I.pending
    out["new_bindings"] = I.new_bindings
    out["functions"] = {(os.path.relpath(p, REPO), q, l) for p, q, l in I.functions}
    out["lines"] = {(os.path.relpath(p, REPO), l) for p, l in I.lines}
    out["callsites"] = {(os.path.relpath(p, REPO) if p.startswith(REPO) else os.path.basename(p), l, q) for p, l, q in I.callsites}
    out["obligations"] = len(I.obligations)
    out["sites"] = {(f, l) for f, l, _ in I.obligations}
    out["assumptions"] = set(I.assumptions)
    return out


def explore(args):
    """All partitions of one context function.

    When the abstract-string domain cannot follow an operation on keys, the context is analysed
    again with representative concrete keys."""
    fn, res, stop = explore_(args, False)
    bad = [r for r in res if r["status"] == "inconclusive"]
    if bad and not any(r["status"] == "violation" for r in res):
        out = []
        for pool in range(len(KEY_POOLS)):
            fn, res2, stop2 = explore_(args, pool)
            if any(r["status"] == "violation" for r in res2):
                return fn, [r for r in res2 if r["status"] != "inconclusive"], stop2
            if stop2 or any(r["status"] == "inconclusive" for r in res2):
                return fn, res, stop
            out = out + res2
        for r in out:
            r["assumptions"].add(f"{fn}: keys instantiated with representative strings ({bad[0]['message'][:120]})")
        return fn, out, stop
    return fn, res, stop


def explore_(args, concrete):
    path, fn, tier, cap, deadline = args
    res = []
    work = [([], {})]
    seen_b = {()}
    stop = None
    while work:
        prefix, b = work.pop()
        if len(res) >= cap:
            stop = f"partition cap {cap} reached"
            break
        if time.time() > deadline:
            stop = "time budget exhausted"
            break
        r = run_partition(path, fn, prefix, b, tier, concrete)
        for p in r.pop("pending"):
            work.append((p, b))
        for nb in r.pop("new_bindings"):
            k = tuple(sorted(nb.items()))
            if k not in seen_b and len(nb) <= 2:
                seen_b.add(k)
                work.append(([], nb))
        r["fn"] = fn
        res.append(r)
        if sum(1 for x in res if x["status"] == "violation") >= 8:
            stop = "stopped after 8 violations"
            break
    return fn, res, stop


def context_functions(path):
    return [n.name for n in parse_file(path).body
            if isinstance(n, ast.FunctionDef) and n.name.startswith("ctx_")]


def _in_big_stack(f, *a, limit=None):
    box = []

    def g():
        try:
            box.append(("ok", f(*a)))
        except BaseException as e:          # noqa
            box.append(("err", e))
    t = threading.Thread(target=g)
    T.ABORT[0] = False
    t.start()
    t.join(limit)
    if t.is_alive():
        T.ABORT[0] = True
        t.join()
    if box[0][0] == "err":
        raise box[0][1]
    return box[0][1]


def _init():
    global _STR, _OWN, _INSPECTED
    _INSPECTED = inspected_literals()
    _OWN = frozenset(c.value for p in glob.glob(os.path.join(CTX, "*.py")) for c in ast.walk(parse_file(p))
                     if isinstance(c, ast.Constant) and isinstance(c.value, str))
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    _STR = str_literals()


def _worker(a):
    return _in_big_stack(explore, a, limit=max(1, a[-1] - time.time()) + 10)


def run(prop, tier, only=None, cap=None, budget=None, jobs=None):
    path = os.path.join(CTX, f"{prop}.py")
    fns = context_functions(path)
    if only:
        fns = [f for f in fns if f in only]
    if not fns:
        raise SystemExit(f"no contexts for {prop}")
    cap = cap or (4000 if tier == "quick" else 40000)
    budget = budget or (400 if tier == "quick" else 3000)
    deadline = time.time() + budget
    rep = Report(prop)
    jobs = jobs or min(8, os.cpu_count() or 1, len(fns))
    tasks = [(path, f, tier, cap, deadline) for f in fns]
    if jobs == 1:
        _init()
        results = [_worker(t) for t in tasks]
    else:
        with mp.get_context("fork").Pool(jobs, initializer=_init) as pool:
            results = pool.map(_worker, tasks, chunksize=1)
    for fn, res, stop in results:
        n_ok = 0
        for r in res:
            rep.partitions += 1
            if r["status"] == "infeasible":
                rep.infeasible += 1
            elif r["status"] == "violation":
                rep.violations.append(r)
            elif r["status"] == "inconclusive":
                rep.inconclusive.append(r)
            else:
                n_ok += 1
            rep.functions |= r["functions"]
            rep.lines |= r["lines"]
            rep.callsites |= r["callsites"]
            rep.obligations += r["obligations"]
            rep.sites |= r["sites"]
            rep.assumptions |= r["assumptions"]
        rep.contexts[fn] = {"partitions": len(res), "discharged": n_ok}
        if stop:
            rep.contexts[fn]["note"] = stop
            if not any(r["status"] == "violation" for r in res):
                rep.inconclusive.append({"fn": fn, "message": stop, "trail": [], "stack": [], "bindings": {}, "prefix": []})
    return rep
