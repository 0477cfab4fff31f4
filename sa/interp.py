"""
Trace-partitioned abstract interpreter over the Python syntax tree.

The interpreter walks the AST of /repo/src (never importing or running it) and computes,
for an *analysis context* (a most-general-client program in /verif/contexts), an abstract
state per trace partition:

* structure (tuples, dicts, classes, closures, literals)  -- constant propagation
* object identity                                         -- allocation-site/alias domain
* user-chosen keys                                        -- segmented strings (astr)
* scalars and small arrays                                -- value numbers (terms)
* branch conditions that the domains do not decide        -- trace partitioning (`decide`)

Anything without a transfer function raises `Inconclusive`.
"""
import ast
import builtins as host_builtins
import itertools
import os
import types as host_types

from . import terms as T
from .terms import Inconclusive, RF
from .astr import AStr, KAtom
from . import astr


class PyExc(Exception):
    """An exception of the analysed program."""

    def __init__(self, obj, stack=()):
        self.obj = obj
        self.stack = stack


class Infeasible(Exception):
    """The current partition contradicts itself."""


class ObligationFailed(Exception):
    pass


# ------------------------------------------------------------------ values

class Cls:
    def __init__(self, name, bases, ns, module=None, node=None):
        self.name = name
        self.bases = tuple(bases)
        self.ns = ns
        self.module = module
        self.node = node
        self.subs = []
        self.mro = c3(self)
        for b in self.bases:
            if isinstance(b, Cls):
                b.subs.append(self)

    def __repr__(self):
        return f"<class {self.name}>"


def mro_of(c):
    if isinstance(c, Cls):
        return c.mro
    if isinstance(c, type):
        return list(c.__mro__)
    return [c, object]


def c3(cls):
    seqs = [list(mro_of(b)) for b in cls.bases] + [list(cls.bases)]
    if not cls.bases:
        seqs = [[object]]
    out = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            raise Inconclusive("inconsistent MRO")
        out.append(cand)
        seqs = [[x for x in s if x is not cand] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class Obj:
    __slots__ = ("cls", "attrs", "site", "key", "__weakref__")

    def __init__(self, cls, attrs=None, site=None):
        self.key = None         # equivalence class, for an instance with its own __eq__ used as a key
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.site = site

    def __hash__(self):
        return id(self) >> 4 if self.key is None else hash(self.key)

    def __eq__(self, other):
        return self is other or (self.key is not None and type(other) is Obj and self.key == other.key)

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', getattr(self.cls, '__name__', '?'))} object>"


class NTuple(tuple):
    cls = None


class Module:
    def __init__(self, name, ns, path=None):
        self.name, self.ns, self.path = name, ns, path

    def __repr__(self):
        return f"<module {self.name}>"


class Func:
    __slots__ = ("node", "scope", "defaults", "kwdefaults", "module", "qualname", "owner",
                 "attrs", "is_gen", "localnames", "globalnames", "nonlocalnames")

    def __repr__(self):
        return f"<function {self.qualname}>"


class Builtin:
    __slots__ = ("name", "fn", "attrs")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.attrs = {}

    def __repr__(self):
        return f"<builtin {self.name}>"


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return f"<bound {self.func!r}>"


class ClassMethod:
    def __init__(self, f):
        self.f = f


class StaticMethod:
    def __init__(self, f):
        self.f = f


class Property:
    def __init__(self, fget, fset=None, name=None):
        self.fget, self.fset = fget, fset


class CachedProperty:
    def __init__(self, f, name):
        self.f, self.name = f, name


class Super:
    def __init__(self, start, obj, objcls):
        self.start, self.obj, self.objcls = start, obj, objcls


class TypeExpr:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class GenObj:
    def __init__(self, gen, name):
        self.gen, self.name = gen, name

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.gen)


class Opaque:
    """An arbitrary value about which nothing is known except its identity."""

    def __init__(self, name, ty=None, args=None, fn=None):
        self.name, self.ty, self.args, self.fn = name, ty, args, fn

    def __repr__(self):
        return f"?{self.name}"


class OpaqueFn:
    """An arbitrary pure function."""

    def __init__(self, name, rettype=None):
        self.name = name
        self.rettype = rettype

    def __repr__(self):
        return f"?fn {self.name}"


class Num:
    __slots__ = ("t", "ty")

    def __init__(self, t, ty="float"):
        self.t, self.ty = t, ty

    def __repr__(self):
        return f"{self.t!r}"


class Buf(list):
    """the storage of an array, and the array it belongs to"""
    __slots__ = ("owner",)


class Arr:
    __slots__ = ("shape", "buf", "idx", "kind", "dtype", "site")

    def __init__(self, shape, elems=None, kind="np", dtype="float64", buf=None, idx=None):
        self.shape = tuple(shape)
        if buf is None:
            buf = Buf(elems)
            buf.owner = self
            idx = list(range(len(buf)))
        self.buf, self.idx = buf, idx
        self.kind, self.dtype = kind, dtype
        self.site = None

    @property
    def elems(self):
        b = self.buf
        return [b[i] for i in self.idx]

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n *= s
        return n

    def __repr__(self):
        return f"{self.kind}.array(shape={self.shape}, {self.elems})"


class Scope:
    __slots__ = ("vars", "parent", "kind", "localnames", "globalnames", "nonlocalnames",
                 "module", "func", "self_")

    def __init__(self, kind, parent, module, localnames=()):
        self.vars = {}
        self.kind, self.parent, self.module = kind, parent, module
        self.localnames = localnames
        self.globalnames = ()
        self.nonlocalnames = ()
        self.func = None
        self.self_ = None


class Frame:
    __slots__ = ("name", "path", "line", "repo")

    def __init__(self, name, path, repo):
        self.name, self.path, self.line, self.repo = name, path, 0, repo


class _Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


BREAK, CONTINUE = object(), object()


# ------------------------------------------------------------------ scope analysis

def local_names(node):
    """names bound in a function/module body (not in nested scopes)"""
    names, globs, nonl = set(), set(), set()

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    target(w.target)
            return
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    return names - globs - nonl, globs, nonl


def has_yield(node):
    def visit(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef,
                          ast.GeneratorExp)):
            return False
        return any(visit(c) for c in ast.iter_child_nodes(n))
    body = node.body if isinstance(node.body, list) else [node.body]
    return any(visit(s) for s in body)


_META = {}


def func_meta(node):
    m = _META.get(node)
    if m is None:
        ln, gl, nl = local_names(node)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            ln.add(x.arg)
        if a.vararg:
            ln.add(a.vararg.arg)
        if a.kwarg:
            ln.add(a.kwarg.arg)
        m = (frozenset(ln), frozenset(gl), frozenset(nl), has_yield(node))
        _META[node] = m
    return m


_AST_CACHE = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _AST_CACHE:
        with open(path, encoding="utf-8") as f:
            _AST_CACHE[key] = ast.parse(f.read(), path)
    return _AST_CACHE[key]


# ------------------------------------------------------------------ interpreter

class Interp:
    MAX_STEPS = 6_000_000

    def __init__(self, roots, prefix=(), bindings=None, repo_root="/repo/src"):
        # package name -> directory
        self.roots = {**roots, **{p: os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude") for p in ("_pystd", "_pynp")}}
        self.repo_root = repo_root
        self.modules = {}
        self.prefix = list(prefix)
        self.trail = []                 # decisions taken: (label, bool)
        self.pending = []               # alternatives to explore
        self.bindings = dict(bindings or {})
        self.new_bindings = []
        self.key_atoms = {}
        self.own_literals = frozenset()
        self.inspected_literals = frozenset()
        self.facts = {}
        self.signs = []                 # [RF normalised, set of signs]
        self.stack = []
        self.steps = 0
        self.ids = {}
        self.ids_keep = []
        self.functions = set()
        self.lines = set()
        self.callsites = set()
        self.obligations = []
        self.registry = {}              # pytree registrations
        self.models = {}                # installed external models
        self.counter = itertools.count()
        self.assumptions = set()
        self.atoms_made = {}
        from . import builtins_model, ext_model
        self.builtins = builtins_model.make(self)
        self.bm = builtins_model
        self.ext = ext_model
        self.ext_cache = {}
        self.ddfactory = {}
        self.numkeys = []
        self.objkeys = []
        self.hashes = {}
        self.warnings = []

    # ---------------------------------------------------------- diagnostics
    def where(self, repo_only=True):
        out = []
        for f in self.stack:
            if f.repo or not repo_only:
                out.append(f"{os.path.relpath(f.path, '/repo') if f.repo else os.path.basename(f.path)}:{f.line} in {f.name}")
        return out

    def exc(self, cls, *args):
        return PyExc(Obj(cls, {"args": tuple(args)}), tuple(self.where(False)))

    # ---------------------------------------------------------- partitioning
    def decide(self, label, key=None):
        """Take a branch the abstract domains do not determine (trace partitioning)."""
        if key is None:
            key = label
        if key in self.facts:
            return self.facts[key]
        n = len(self.trail)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            v = True
            self.pending.append([b for _, b in self.trail] + [False])
        self.trail.append((label, v))
        self.facts[key] = v
        return v

    def str_equal_literal(self, atom, lit):
        """May the opaque key `atom` be the literal `lit`?"""
        key = ("streq", atom.name, lit)
        if key in self.facts:
            return False
        self.facts[key] = False
        if lit and "/" not in lit:
            if lit not in self.bindings.values():
                b = dict(self.bindings)
                b[atom.name] = lit
                self.new_bindings.append(b)
        return False

    def str_has_literal(self, s, lit):
        """May the abstract string `s` contain `lit` where user-chosen keys take part?

        This partition: no.  The keys which do contain it are analysed in further partitions, with
        the key bound to representatives.  None: not a matter of user-chosen keys alone."""
        atoms = [p for p in astr.parts(s) if not isinstance(p, str)]
        if any(p.name not in self.key_atoms for p in atoms):
            return None
        for atom in atoms:
            for seg in lit.split("/"):
                key = ("strhas", atom.name, seg)
                if not seg or key in self.facts:
                    continue
                self.facts[key] = False
                others = [o for o in sorted(self.inspected_literals) if o != seg and o not in seg]
                for w in ["u" + seg + "v", seg + "v", "u" + seg, seg] + [w for o in others for w in (seg + o, o + seg)]:
                    if w == seg and w in self.own_literals:
                        continue
                    b = dict(self.bindings)
                    b[atom.name] = w
                    self.new_bindings.append(b)
        return False

    # ---------------------------------------------------------- numeric facts
    def sign_of(self, d, want):
        """Is the sign of RF d in `want` (subset of '+-0')?"""
        if d.is_const():
            c = d.const_value()
            return ("+" if c > 0 else "-" if c < 0 else "0") in want
        lead = T.leading_in_infinity(d)
        if lead is not None:
            return self.sign_of(lead, want)
        plain = T.without_root(d)
        if plain is not None:
            return self.sign_of(plain, want)
        s = T.rf_sign(d) or T.ground_sign(d)
        poss = {"+": {"+"}, "-": {"-"}, "0": {"0"}, "0+": {"0", "+"}, "0-": {"0", "-"},
                None: {"+", "-", "0"}}[s]
        # normalise
        num = d.num
        c = num[T.p_lead(num)]
        n = RF(T.p_scale(num, 1 / c), d.den)
        flip = c < 0
        entry = None
        for e in self.signs:
            if T.rf_zero(e[0] - n):
                entry = e
                break
        fl = {"+": "-", "-": "+", "0": "0"}
        if entry is not None:
            poss = poss & ({fl[x] for x in entry[1]} if flip else set(entry[1]))
        if not poss:
            raise Infeasible()
        # entailment from order facts
        if len(poss) > 1:
            e = self._entailed(d)
            if e is not None:
                poss = poss & e
                if not poss:
                    raise Infeasible()
        yes = poss & set(want)
        no = poss - set(want)
        if not yes:
            return False
        if not no:
            return True
        txt = {"+": "> 0", "-": "< 0", "0": "== 0", "+0": ">= 0", "0+": ">= 0", "-0": "<= 0",
               "0-": "<= 0", "+-": "!= 0", "-+": "!= 0"}.get("".join(sorted(want)), want)
        # never branch on an equality first: prefer strict part as True
        v = self.decide(f"{d!r} {txt}", key=("sign", len(self.trail)))
        keep = yes if v else no
        stored = {fl[x] for x in keep} if flip else set(keep)
        if entry is None:
            self.signs.append([n, stored])
        else:
            entry[1] = stored
        return v

    def _entailed(self, d):
        facts = []
        for n, s in self.signs:
            s = set(s)
            if s <= {"+", "0"}:
                facts.append((n, "+" in s and "0" not in s))
            elif s <= {"-", "0"}:
                facts.append((-n, "-" in s and "0" not in s))
        facts = facts[-24:]

        def ratio_pos(x, y):
            # x == k*y with k>0 ?
            try:
                q = x / y
            except ZeroDivisionError:
                return None
            return q.is_const() and q.const_value() > 0

        for target, pos in ((d, True), (-d, False)):
            for i, (f, st) in enumerate(facts):
                r1 = target - f
                if T.rf_zero(r1):
                    return {"+"} if (st and pos) else {"-"} if st else ({"+", "0"} if pos else {"-", "0"})
                for j, (g, st2) in enumerate(facts):
                    r2 = r1 - g
                    if T.rf_zero(r2):
                        st_ = st or st2
                        return {"+"} if (st_ and pos) else {"-"} if st_ else ({"+", "0"} if pos else {"-", "0"})
                    if len(facts) <= 8:
                        for (h, st3) in facts:
                            if T.rf_zero(r2 - h):
                                st_ = st or st2 or st3
                                return {"+"} if (st_ and pos) else {"-"} if st_ else ({"+", "0"} if pos else {"-", "0"})
        return None

    # ---------------------------------------------------------- modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split(".")[0]
        if top in self.roots:
            base = os.path.join(self.roots[top], *name.split("."))
            if os.path.isdir(base):
                path = os.path.join(base, "__init__.py")
            else:
                path = base + ".py"
            if not os.path.exists(path):
                raise self.exc(ModuleNotFoundError, f"No module named '{name}'")
            if "." in name:
                parent = self.load_module(name.rsplit(".", 1)[0])
            m = Module(name, {"__name__": name, "__file__": path,
                              "__package__": name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]}, path)
            self.modules[name] = m
            tree = parse_file(path)
            self.exec_module(m, tree)
            if "." in name:
                parent.ns[name.rsplit(".", 1)[1]] = m
            return m
        return self.ext.module(self, name)

    def exec_module(self, m, tree):
        sc = Scope("module", None, m)
        sc.vars = m.ns
        self.stack.append(Frame("<module>", m.path or m.name, self.is_repo(m.path)))
        try:
            for _ in self.exec_block(tree.body, sc):
                raise Inconclusive("yield at module level")
        finally:
            self.stack.pop()

    def is_repo(self, path):
        return bool(path) and path.startswith(self.repo_root)

    # ---------------------------------------------------------- statements
    # exec_block is a host generator: it yields values of interpreted `yield`s and
    # returns a control signal.

    def exec_block(self, stmts, sc):
        for s in stmts:
            self.steps += 1
            if self.steps > self.MAX_STEPS or T.ABORT[0]:
                raise Inconclusive("step budget exceeded")
            fr = self.stack[-1]
            fr.line = s.lineno
            if fr.repo:
                self.lines.add((fr.path, s.lineno))
            k = type(s)
            if k is ast.Expr:
                v = s.value
                if type(v) is ast.Constant:
                    continue
                if type(v) is ast.Yield:
                    val = self.ev(v.value, sc) if v.value else None
                    yield val
                    continue
                if type(v) is ast.YieldFrom:
                    yield from self.yield_from(v, sc)
                    continue
                self.ev(v, sc)
            elif k is ast.Assign:
                v = s.value
                if type(v) is ast.Yield:
                    yield (self.ev(v.value, sc) if v.value else None)
                    val = None
                elif type(v) is ast.YieldFrom:
                    val = yield from self.yield_from(v, sc)
                else:
                    val = self.ev(v, sc)
                for t in s.targets:
                    self.assign(t, val, sc)
            elif k is ast.Return:
                if type(s.value) is ast.YieldFrom:
                    return _Ret((yield from self.yield_from(s.value, sc)))
                if type(s.value) is ast.Yield:
                    yield (self.ev(s.value.value, sc) if s.value.value else None)
                    return _Ret(None)
                return _Ret(self.ev(s.value, sc) if s.value else None)
            elif k is ast.If:
                c = self.truth(self.ev(s.test, sc))
                r = yield from self.exec_block(s.body if c else s.orelse, sc)
                if r is not None:
                    return r
            elif k is ast.For:
                r = yield from self.exec_for(s, sc)
                if r is not None:
                    return r
            elif k is ast.While:
                broke = False
                while self.truth(self.ev(s.test, sc)):
                    self.steps += 1
                    if self.steps > self.MAX_STEPS:
                        raise Inconclusive("step budget exceeded")
                    r = yield from self.exec_block(s.body, sc)
                    fr.line = s.lineno
                    if r is BREAK:
                        broke = True
                        break
                    if r is CONTINUE:
                        continue
                    if r is not None:
                        return r
                if not broke and s.orelse:
                    r = yield from self.exec_block(s.orelse, sc)
                    if r is not None:
                        return r
            elif k is ast.AugAssign:
                self.augassign(s, sc)
            elif k is ast.AnnAssign:
                if sc.kind == "class" and isinstance(s.target, ast.Name):
                    sc.vars.setdefault("__annotations__", {})[s.target.id] = TypeExpr("annotation " + ast.unparse(s.annotation))
                if s.value is not None:
                    self.assign(s.target, self.ev(s.value, sc), sc)
            elif k is ast.FunctionDef:
                f = self.make_func(s, sc)
                for d in reversed(s.decorator_list):
                    f = self.decorate(self.ev(d, sc), f, s.name)
                self.store(s.name, f, sc)
            elif k is ast.ClassDef:
                yield from self.exec_class(s, sc)
            elif k is ast.Raise:
                self.exec_raise(s, sc)
            elif k is ast.Try:
                r = yield from self.exec_try(s, sc)
                if r is not None:
                    return r
            elif k is ast.With:
                r = yield from self.exec_with(s, sc, 0)
                if r is not None:
                    return r
            elif k is ast.Assert:
                if not self.truth(self.ev(s.test, sc)):
                    args = (self.ev(s.msg, sc),) if s.msg else ()
                    raise self.exc(AssertionError, *args)
            elif k is ast.Pass:
                pass
            elif k is ast.Break:
                return BREAK
            elif k is ast.Continue:
                return CONTINUE
            elif k is ast.Import:
                for a in s.names:
                    m = self.load_module(a.name)
                    if a.asname:
                        self.store(a.asname, m, sc)
                    else:
                        self.store(a.name.split(".")[0], self.load_module(a.name.split(".")[0]), sc)
            elif k is ast.ImportFrom:
                self.import_from(s, sc)
            elif k in (ast.Global, ast.Nonlocal):
                if sc.kind in ("module", "class") and k is ast.Global:
                    pass
            elif k is ast.Delete:
                for t in s.targets:
                    self.delete(t, sc)
            elif k is ast.Match:
                r = yield from self.exec_match(s, sc)
                if r is not None:
                    return r
            else:
                raise Inconclusive(f"statement {k.__name__} at line {s.lineno}")
        return None

    def exec_for(self, s, sc):
        it = iter(self.iterate(self.ev(s.iter, sc)))
        broke = False
        fr = self.stack[-1]
        while True:
            try:
                v = next(it)
            except StopIteration:
                break
            except RuntimeError as e:
                raise self.exc(RuntimeError, str(e))
            self.steps += 1
            if self.steps > self.MAX_STEPS or T.ABORT[0]:
                raise Inconclusive("step budget exceeded")
            self.assign(s.target, v, sc)
            r = yield from self.exec_block(s.body, sc)
            fr.line = s.lineno
            if r is BREAK:
                broke = True
                break
            if r is CONTINUE:
                continue
            if r is not None:
                return r
        if not broke and s.orelse:
            r = yield from self.exec_block(s.orelse, sc)
            if r is not None:
                return r
        return None

    def exec_try(self, s, sc):
        sig = None
        pend = None
        depth = len(self.stack)
        try:
            sig = yield from self.exec_block(s.body, sc)
            ok = True
        except PyExc as e:
            ok = False
            del self.stack[depth:]
            handler = None
            for h in s.handlers:
                if h.type is None or self.exc_matches(e.obj, self.ev(h.type, sc)):
                    handler = h
                    break
            if handler is None:
                pend = e
            else:
                if handler.name:
                    self.store(handler.name, e.obj, sc)
                saved = getattr(self, "current_exc", None)
                self.current_exc = e
                try:
                    sig = yield from self.exec_block(handler.body, sc)
                except PyExc as e2:
                    if e2.obj is not e.obj:
                        e2.obj.attrs.setdefault("__context__", e.obj)
                    pend = e2
                    del self.stack[depth:]
                finally:
                    self.current_exc = saved
                if handler.name and sc.kind != "module":
                    sc.vars.pop(handler.name, None)
        if ok and s.orelse and sig is None:
            try:
                sig = yield from self.exec_block(s.orelse, sc)
            except PyExc as e:
                del self.stack[depth:]
                pend = e
        if s.finalbody:
            r = yield from self.exec_block(s.finalbody, sc)
            if r is not None:
                return r
        if pend is not None:
            raise pend
        return sig

    def exc_matches(self, obj, types):
        if isinstance(types, tuple):
            return any(self.exc_matches(obj, t) for t in types)
        return types in mro_of(obj.cls)

    def exec_with(self, s, sc, i):
        if i == len(s.items):
            return (yield from self.exec_block(s.body, sc))
        item = s.items[i]
        cm = self.ev(item.context_expr, sc)
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        v = self.call(enter, [])
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, sc)
        depth = len(self.stack)
        try:
            sig = yield from self.exec_with(s, sc, i + 1)
        except PyExc as e:
            del self.stack[depth:]
            if not self.truth(self.call(exit_, [e.obj.cls, e.obj, None])):
                raise
            return None
        self.call(exit_, [None, None, None])
        return sig

    def exec_raise(self, s, sc):
        if s.exc is None:
            cur = getattr(self, "current_exc", None)
            if cur is None:
                raise self.exc(RuntimeError, "No active exception to reraise")
            raise cur
        v = self.ev(s.exc, sc)
        if isinstance(v, (Cls, type)):
            v = self.call(v, [])
        if not (isinstance(v, Obj) and BaseException in mro_of(v.cls)):
            raise self.exc(TypeError, "exceptions must derive from BaseException")
        if s.cause is not None:
            v.attrs["__cause__"] = self.ev(s.cause, sc)
        raise PyExc(v, tuple(self.where(False)))

    def yield_from(self, e, sc):
        src = self.iterate(self.ev(e.value, sc))
        if type(src) is GenObj:
            return (yield from src.gen)
        for x in src:
            yield x
        return None

    def exec_class(self, s, sc):
        bases = []
        for b in s.bases:
            v = self.ev(b.value if isinstance(b, ast.Starred) else b, sc)
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(v))
            else:
                bases.append(v)
        kw = {k.arg: self.ev(k.value, sc) for k in s.keywords if k.arg}
        csc = Scope("class", sc, sc.module)
        pre, p = [], sc
        while p is not None:
            if p.kind == "func" and p.func is not None:
                pre = [p.func.qualname, "<locals>"]
                break
            if p.kind == "class":
                pre = [p.vars.get("__qualname__", "")]
                break
            p = p.parent
        qual = ".".join(pre + [s.name])
        csc.vars["__module__"] = sc.module.name
        csc.vars["__qualname__"] = qual
        d = ast.get_docstring(s)
        csc.vars["__doc__"] = d
        cell = Scope("cell", sc, sc.module)     # holds __class__
        csc.parent = cell
        csc.self_ = s.name
        r = yield from self.exec_block(s.body, csc)
        cls = self.make_class(s.name, bases, csc.vars, sc.module, s, kw)
        cell.vars["__class__"] = cls
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d, sc), [cls])
        self.store(s.name, cls, sc)

    def make_class(self, name, bases, ns, module, node=None, kw=None):
        if any(isinstance(b, TypeExpr) and b.name == "NamedTuple" for b in bases):
            fields = [k for k in ns.get("__annotations__", {})]
            return self.bm.make_namedtuple(self, name, fields,
                                           {f: ns[f] for f in fields if f in ns},
                                           {k: v for k, v in ns.items() if k not in fields})
        real = []
        for b in bases:
            if isinstance(b, TypeExpr):
                continue
            if isinstance(b, (Cls, type)):
                if b is object and len(bases) > 1:
                    continue
                real.append(b)
            else:
                raise Inconclusive(f"class base {b!r}")
        if not real:
            real = [object]
        cls = Cls(name, real, ns, module, node)
        if self.ext.ENUM in cls.mro:
            self.ext.make_enum(self, cls)
        if kw and "metaclass" in kw and not (isinstance(kw["metaclass"], TypeExpr) or kw["metaclass"] is type):
            raise Inconclusive(f"metaclass {kw['metaclass']!r}")
        for k, v in list(ns.items()):
            if k in ("__init_subclass__", "__class_getitem__") and isinstance(v, Func):
                ns[k] = ClassMethod(v)
            if k == "__new__" and isinstance(v, Func):
                ns[k] = StaticMethod(v)
            if isinstance(v, Obj):
                sn = self.lookup(v.cls, "__set_name__")
                if sn is not None:
                    self.call(self.bind(sn, v, v.cls), [cls, k])
        for c in cls.mro[1:]:
            if isinstance(c, Cls) and "__init_subclass__" in c.ns:
                self.call(self.bind(c.ns["__init_subclass__"], cls, cls), [], kw or {})
                break
        return cls

    def exec_match(self, s, sc):
        subj = self.ev(s.subject, sc)
        for case in s.cases:
            b = {}
            if self.match_pattern(case.pattern, subj, b, sc):
                for k, v in b.items():
                    self.store(k, v, sc)
                if case.guard is None or self.truth(self.ev(case.guard, sc)):
                    return (yield from self.exec_block(case.body, sc))
        return None

    def match_pattern(self, p, v, b, sc):
        k = type(p)
        if k is ast.MatchValue:
            return self.truth(self.compare_op("==", v, self.ev(p.value, sc)))
        if k is ast.MatchSingleton:
            return v is p.value
        if k is ast.MatchAs:
            if p.pattern is not None and not self.match_pattern(p.pattern, v, b, sc):
                return False
            if p.name:
                b[p.name] = v
            return True
        if k is ast.MatchOr:
            return any(self.match_pattern(q, v, b, sc) for q in p.patterns)
        if k is ast.MatchSequence:
            if not isinstance(v, (tuple, list)):
                return False
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not stars:
                return len(v) == len(p.patterns) and all(
                    self.match_pattern(q, x, b, sc) for q, x in zip(p.patterns, v))
            i = stars[0]
            n = len(p.patterns) - 1
            if len(v) < n:
                return False
            tail = n - i
            if not all(self.match_pattern(q, x, b, sc) for q, x in zip(p.patterns[:i], v[:i])):
                return False
            if tail and not all(self.match_pattern(q, x, b, sc)
                                for q, x in zip(p.patterns[i + 1:], v[len(v) - tail:])):
                return False
            if p.patterns[i].name:
                b[p.patterns[i].name] = list(v[i:len(v) - tail])
            return True
        if k is ast.MatchMapping:
            if not isinstance(v, dict):
                return False
            seen = []
            for key, q in zip(p.keys, p.patterns):
                key = self.ev(key, sc)
                if not self.truth(self.bm.contains(self, v, key)):
                    return False
                seen.append(self.hashable(key))
                if not self.match_pattern(q, self.getitem(v, key), b, sc):
                    return False
            if p.rest:
                b[p.rest] = {kk: x for kk, x in v.items() if kk not in seen}
            return True
        if k is ast.MatchClass:
            c = self.ev(p.cls, sc)
            if not self.truth(self.bm.isinstance_(self, v, c)):
                return False
            if p.patterns:
                if c in (int, float, str, tuple, list, dict, bool) and len(p.patterns) == 1:
                    return self.match_pattern(p.patterns[0], v, b, sc)
                names = self.getattr(c, "__match_args__")
                for i, q in enumerate(p.patterns):
                    if i >= len(names):
                        raise self.exc(TypeError, "too many positional patterns")
                    if not self.match_pattern(q, self.getattr(v, names[i]), b, sc):
                        return False
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    x = self.getattr(v, a)
                except PyExc as e:
                    if AttributeError in mro_of(e.obj.cls):
                        return False
                    raise
                if not self.match_pattern(q, x, b, sc):
                    return False
            return True
        raise Inconclusive(f"pattern {k.__name__}")

    def import_from(self, s, sc):
        if s.level:
            pkg = sc.module.ns["__package__"].split(".")
            if s.level > 1:
                pkg = pkg[: -(s.level - 1)]
            base = ".".join(pkg + ([s.module] if s.module else []))
        else:
            base = s.module
        if base == "__future__":
            return
        m = self.load_module(base)
        for a in s.names:
            if a.name == "*":
                ns = m.ns
                names = ns.get("__all__") or [k for k in ns if not k.startswith("_")]
                for k in names:
                    self.store(k, ns[k], sc)
                continue
            if isinstance(m, Module) and a.name in m.ns:
                v = m.ns[a.name]
            else:
                try:
                    v = self.load_module(base + "." + a.name) if base.split(".")[0] in self.roots else self.getattr(m, a.name)
                except PyExc:
                    raise self.exc(ImportError, f"cannot import name {a.name!r} from {base!r}")
            self.store(a.asname or a.name, v, sc)

    # ---------------------------------------------------------- names
    def store(self, name, v, sc):
        if sc.kind == "comp":
            # walrus inside a comprehension binds in the enclosing function
            pass
        if name in sc.globalnames:
            sc.module.ns[name] = v
            return
        if name in sc.nonlocalnames:
            p = sc.parent
            while p is not None:
                if p.kind in ("func", "comp") and name in p.localnames:
                    p.vars[name] = v
                    return
                p = p.parent
            raise Inconclusive(f"nonlocal {name}")
        sc.vars[name] = v

    def load(self, name, sc):
        s = sc
        first = True
        while s is not None:
            if s.kind == "class" and not first:
                s = s.parent
                continue
            if s.kind == "func" and name in s.globalnames:
                break
            if name in s.vars:
                return s.vars[name]
            if s.kind == "func" and name in s.localnames and name not in s.nonlocalnames:
                if first:
                    raise self.exc(UnboundLocalError, f"cannot access local variable '{name}'")
                raise self.exc(NameError, f"cannot access free variable '{name}'")
            if s.kind != "comp":
                first = False
            s = s.parent
        g = sc.module.ns
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(host_builtins, name):
            raise Inconclusive(f"builtin {name}")
        raise self.exc(NameError, f"name '{name}' is not defined")

    def no_attr(self, host, what, name):
        """an attribute that is not modelled: absent only when the real type lacks it too"""
        if name in host if isinstance(host, (set, frozenset)) else hasattr(host, name):
            return Inconclusive(f"attribute {name} of {what}")
        return self.exc(AttributeError, f"{what} has no attribute '{name}'")

    def assign(self, t, v, sc):
        k = type(t)
        if k is ast.Name:
            self.store(t.id, v, sc)
        elif k in (ast.Tuple, ast.List):
            items = list(self.iterate(v))
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                tail = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise self.exc(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, sc)
                self.assign(t.elts[i].value, list(items[i:len(items) - tail]), sc)
                for e, x in zip(t.elts[i + 1:], items[len(items) - tail:]):
                    self.assign(e, x, sc)
            else:
                if len(items) != len(t.elts):
                    raise self.exc(
                        ValueError,
                        f"cannot unpack {len(items)} values into {len(t.elts)} targets")
                for e, x in zip(t.elts, items):
                    self.assign(e, x, sc)
        elif k is ast.Attribute:
            self.setattr(self.ev(t.value, sc), t.attr, v)
        elif k is ast.Subscript:
            self.setitem(self.ev(t.value, sc), self.ev_index(t.slice, sc), v)
        elif k is ast.Starred:
            self.assign(t.value, list(self.iterate(v)), sc)
        else:
            raise Inconclusive(f"assignment target {k.__name__}")

    def delete(self, t, sc):
        if isinstance(t, ast.Name):
            if t.id not in sc.vars:
                raise self.exc(NameError, t.id)
            del sc.vars[t.id]
        elif isinstance(t, ast.Subscript):
            self.bm.delitem(self, self.ev(t.value, sc), self.ev_index(t.slice, sc))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            d = o.attrs if isinstance(o, (Obj, Func)) else o.ns
            if t.attr not in d:
                raise self.exc(AttributeError, t.attr)
            del d[t.attr]
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, sc)
        else:
            raise Inconclusive("del target")

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
           ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.BitOr: "|", ast.BitAnd: "&",
           ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
    CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
            ast.GtE: ">="}

    def augassign(self, s, sc):
        op = self.OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, sc)
            self.store(t.id, self.inplace(op, cur, self.ev(s.value, sc)), sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.ev(s.value, sc)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            i = self.ev_index(t.slice, sc)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, cur, self.ev(s.value, sc)))
        else:
            raise Inconclusive("augmented assignment target")

    def inplace(self, op, a, b):
        if isinstance(a, list) and op == "+":
            a.extend(self.iterate(b))
            return a
        if isinstance(a, list) and op == "*":
            a[:] = a * self.as_int(b)
            return a
        if isinstance(a, dict) and op == "|":
            a.update(b)
            return a
        if isinstance(a, set) and op in "|&-^":
            r = self.binop(op, a, b)
            a.clear()
            a.update(r)
            return a
        if isinstance(a, Arr) and a.kind == "np":
            r = self.binop(op, a, b)
            from . import np_model
            np_model.setitem(self, a, Ellipsis, r)
            return a
        if isinstance(a, Obj):
            m = self.lookup(a.cls, "__i" + self.bm.DUNDER[op] + "__")
            if m is not None:
                r = self.call(self.bind(m, a, a.cls), [b])
                if r is not NotImplemented:
                    return r
        return self.binop(op, a, b)

    # ---------------------------------------------------------- functions
    def make_func(self, node, sc):
        f = Func()
        f.node = node
        f.scope = sc
        a = node.args
        f.defaults = [self.ev(d, sc) for d in a.defaults]
        f.kwdefaults = {x.arg: self.ev(d, sc) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.module = sc.module
        name = getattr(node, "name", "<lambda>")
        s = sc
        pre = []
        while s is not None:
            if s.kind == "class":
                pre.append(s.self_)
            elif s.kind == "func" and s.func is not None:
                pre.append(s.func.qualname)
                break
            s = s.parent
        f.qualname = ".".join(list(reversed(pre)) + [name])
        f.owner = None
        f.attrs = {}
        f.localnames, f.globalnames, f.nonlocalnames, f.is_gen = func_meta(node)
        return f

    def decorate(self, d, f, name):
        return self.call(d, [f])

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        v = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        nm = f.qualname
        if len(args) > len(pos) and not a.vararg:
            raise self.exc(TypeError, f"{nm}() takes {len(pos)} positional arguments but {len(args)} were given")
        for p, x in zip(pos, args):
            v[p] = x
        if a.vararg:
            v[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        konly = {x.arg for x in a.kwonlyargs}
        for k, x in kwargs.items():
            if k in konly or (k in pos and pos.index(k) >= npos):
                if k in v:
                    raise self.exc(TypeError, f"{nm}() got multiple values for argument '{k}'")
                v[k] = x
            elif a.kwarg:
                extra[k] = x
            else:
                raise self.exc(TypeError, f"{nm}() got an unexpected keyword argument '{k}'")
        if a.kwarg:
            v[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in v:
                j = i - (len(pos) - nd)
                if j >= 0:
                    v[p] = f.defaults[j]
                else:
                    raise self.exc(TypeError, f"{nm}() missing required argument: '{p}'")
        for x in a.kwonlyargs:
            if x.arg not in v:
                if x.arg in f.kwdefaults:
                    v[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise self.exc(TypeError, f"{nm}() missing keyword-only argument: '{x.arg}'")
        return v

    def call_func(self, f, args, kwargs):
        v = self.bind_args(f, args, kwargs)
        sc = Scope("func", f.scope, f.module, f.localnames)
        sc.globalnames, sc.nonlocalnames = f.globalnames, f.nonlocalnames
        sc.vars = v
        sc.func = f
        pos = f.node.args.posonlyargs + f.node.args.args
        if pos:
            sc.self_ = pos[0].arg
        repo = self.is_repo(f.module.path)
        if repo:
            self.functions.add((f.module.path, f.qualname, f.node.lineno))
            if self.stack:
                self.callsites.add((self.stack[-1].path, self.stack[-1].line, f.qualname))
        if len(self.stack) > 400:
            raise self.exc(RecursionError, "maximum recursion depth exceeded")
        fr = Frame(f.qualname, f.module.path or f.module.name, repo)
        fr.line = f.node.lineno
        if isinstance(f.node, ast.Lambda):
            self.stack.append(fr)
            try:
                return self.ev(f.node.body, sc)
            finally:
                if self.stack and self.stack[-1] is fr:
                    self.stack.pop()
        if f.is_gen:
            return GenObj(self.run_gen(f, sc, fr), f.qualname)
        self.stack.append(fr)
        depth = len(self.stack)
        g = self.exec_block(f.node.body, sc)
        try:
            try:
                next(g)
            except StopIteration as e:
                r = e.value
            else:
                raise Inconclusive("unexpected yield")
        except PyExc:
            del self.stack[depth - 1:]
            raise
        del self.stack[depth - 1:]
        if isinstance(r, _Ret):
            return r.v
        return None

    def run_gen(self, f, sc, fr):
        g = self.exec_block(f.node.body, sc)
        thrown = None
        while True:
            self.stack.append(fr)
            depth = len(self.stack)
            try:
                x = next(g) if thrown is None else g.throw(thrown)
                thrown = None
            except StopIteration as e:
                return e.value.v if type(e.value) is _Ret else None
            except PyExc as e:
                if StopIteration in mro_of(e.obj.cls):
                    raise self.exc(RuntimeError, "generator raised StopIteration")
                raise
            finally:
                del self.stack[depth - 1:]
            try:
                yield x
            except PyExc as e:      # thrown in by the user of the generator (`contextlib.contextmanager`)
                thrown = e

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        k = type(f)
        if k is Func:
            return self.call_func(f, list(args), kwargs)
        if k is Bound:
            return self.call(f.func, [f.self] + list(args), kwargs)
        if k is Builtin:
            return f.fn(self, list(args), kwargs)
        if k is Cls:
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, type):
            return self.bm.call_type(self, f, list(args), kwargs)
        if k is StaticMethod or k is ClassMethod:
            return self.call(f.f, args, kwargs)
        if k is Obj:
            m = self.lookup(f.cls, "__call__")
            if m is not None:
                return self.call(self.bind(m, f, f.cls), args, kwargs)
            raise self.exc(TypeError, f"'{self.tname(f)}' object is not callable")
        if k is OpaqueFn:
            return self.apply_opaque(f, args, kwargs)
        if k is TypeExpr:
            if f.name == "TypeVar":
                return TypeExpr(f"~{args[0]}")
            return TypeExpr(f"{f.name}(...)")
        if k is Opaque:
            raise Inconclusive(f"call of an opaque value {f!r}")
        raise self.exc(TypeError, f"'{self.tname(f)}' object is not callable")

    def apply_opaque(self, f, args, kwargs):
        key = (f.name, tuple(self.value_key(a) for a in args),
               tuple(sorted((k, self.value_key(v)) for k, v in kwargs.items())))
        cache = self.facts.setdefault("opaque-app", {})
        if key not in cache:
            if f.rettype == "num":
                cache[key] = Num(T.app(f"uf:{f.name}", repr(key)), "float")
            else:
                cache[key] = Opaque(f"{f.name}({', '.join(map(repr, args))})", args=tuple(args), fn=f)
        return cache[key]

    def value_key(self, v):
        if v is None or isinstance(v, (bool, int, float, str)):
            return (type(v).__name__, v)
        if isinstance(v, Num):
            return ("num", v.t.fingerprint())
        if isinstance(v, AStr):
            return v
        if isinstance(v, (tuple, list)):
            return (type(v).__name__,) + tuple(self.value_key(x) for x in v)
        if isinstance(v, Arr):
            return ("arr", v.shape, tuple(self.value_key(e) if not isinstance(e, RF) else e.fingerprint() for e in v.elems))
        return ("id", self.py_id(v))

    def instantiate(self, cls, args, kwargs):
        if "__nt_fields__" in cls.ns:
            return self.bm.new_namedtuple(self, cls, args, kwargs)
        new = self.lookup(cls, "__new__")
        if new is not None:
            fn = new.f if isinstance(new, StaticMethod) else new
            o = self.call(fn, [cls] + args, kwargs)
        else:
            host = next((c for c in cls.mro if isinstance(c, type) and c is not object), None)
            if host is not None and issubclass(host, BaseException):
                o = Obj(cls, {"args": tuple(args)})
            elif host in (dict, list, tuple, str, int, float):
                raise Inconclusive(f"subclass of builtin {host.__name__}")
            else:
                o = Obj(cls)
                o.site = self.site()
        if isinstance(o, Obj) and cls in mro_of(o.cls):
            init = self.lookup(o.cls, "__init__")
            if init is not None:
                r = self.call(self.bind(init, o, o.cls), args, kwargs)
                if r is not None:
                    raise self.exc(TypeError, "__init__() should return None")
            elif (args or kwargs) and new is None and BaseException not in cls.mro:
                raise self.exc(TypeError, f"{cls.name}() takes no arguments")
        return o

    def site(self):
        for f in reversed(self.stack):
            if f.repo:
                return f"{os.path.relpath(f.path, '/repo')}:{f.line}"
        return f"{os.path.basename(self.stack[-1].path)}:{self.stack[-1].line}" if self.stack else "?"

    # ---------------------------------------------------------- attributes
    def lookup(self, cls, name):
        for c in mro_of(cls):
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name]
        return None

    def bind(self, v, obj, cls):
        k = type(v)
        if k is Func or (k is Builtin and not v.attrs.get("static")):
            return Bound(v, obj)
        if k is ClassMethod:
            return Bound(v.f, cls)
        if k is StaticMethod:
            return v.f
        if k is Property:
            if v.fget is None:
                raise self.exc(AttributeError, "unreadable attribute")
            return self.call(v.fget, [obj])
        if k is CachedProperty:
            if v.name in obj.attrs:
                return obj.attrs[v.name]
            r = self.call(v.f, [obj])
            obj.attrs[v.name] = r
            return r
        if k is Obj and self.lookup(v.cls, "__get__") is not None:
            return self.call(self.bind(self.lookup(v.cls, "__get__"), v, v.cls), [obj, cls])
        return v

    def getattr(self, o, name, default=Ellipsis):
        try:
            return self._getattr(o, name)
        except PyExc as e:
            if default is not Ellipsis and AttributeError in mro_of(e.obj.cls):
                return default
            raise

    def _getattr(self, o, name):
        k = type(o)
        if k is Obj:
            v = self.lookup(o.cls, name)
            if type(v) is Property:
                return self.bind(v, o, o.cls)
            if name in o.attrs:
                return o.attrs[name]
            if v is not None or any(isinstance(c, Cls) and name in c.ns for c in mro_of(o.cls)):
                return self.bind(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            r = self.bm.object_attr(self, o, name)
            if r is not None:
                return r[0]
            ga = self.lookup(o.cls, "__getattr__")
            if ga is not None:
                return self.call(self.bind(ga, o, o.cls), [name])
            if hasattr(object, name) or any(isinstance(c, type) and hasattr(c, name) for c in o.cls.mro):
                raise Inconclusive(f"attribute {name} of an instance of {o.cls.name}")
            raise self.exc(AttributeError, f"'{self.tname(o)}' object has no attribute '{name}'")
        if k is Cls:
            for c in o.mro:
                if isinstance(c, Cls) and name in c.ns:
                    v = c.ns[name]
                    t = type(v)
                    if t is ClassMethod:
                        return Bound(v.f, o)
                    if t is StaticMethod:
                        return v.f
                    if t is Builtin and v.attrs.get("classmethod"):
                        return Bound(v, o)
                    return v
            r = self.bm.class_attr(self, o, name)
            if r is not None:
                return r[0]
            if hasattr(type, name) or any(isinstance(c, type) and hasattr(c, name) for c in o.mro):
                raise Inconclusive(f"attribute {name} of class {o.name}")
            raise self.exc(AttributeError, f"type object '{o.name}' has no attribute '{name}'")
        if k is Module:
            if name in o.ns:
                return o.ns[name]
            if o.path is None:
                return self.ext.module_attr(self, o, name)
            if name == "__dict__":
                return o.ns
            top = o.name + "." + name
            if top in self.modules:
                return self.modules[top]
            raise self.exc(AttributeError, f"module '{o.name}' has no attribute '{name}'")
        if k is Super:
            return self.super_attr(o, name)
        if k is Func:
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.qualname.rsplit(".", 1)[-1]
            if name == "__qualname__":
                return o.qualname
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__module__":
                return o.module.name
            if name in ("__wrapped__",):
                raise self.exc(AttributeError, name)
            if name == "__get__":
                return Builtin("__get__", lambda I, a, kw: Bound(o, a[0]) if a and a[0] is not None else o)
            if name == "__call__":
                return o
            if name == "__dict__":
                return o.attrs
            if name == "__annotations__":
                g = o.node.args if not isinstance(o.node, ast.Lambda) else None
                ps = [] if g is None else g.posonlyargs + g.args + [x for x in (g.vararg,) if x] + g.kwonlyargs + [x for x in (g.kwarg,) if x]
                r = {p.arg: self.ev(p.annotation, o.scope) for p in ps if p.annotation is not None}
                if g is not None and o.node.returns is not None:
                    r["return"] = self.ev(o.node.returns, o.scope)
                return r
            raise self.no_attr(host_types.FunctionType, "'function' object", name)
        if k is Bound:
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            if name == "__call__":
                return o
            return self._getattr(o.func, name)
        if k is Builtin:
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            raise Inconclusive(f"attribute {name} of builtin {o.name}") if hasattr(len, name) or not name.startswith("__") else self.exc(AttributeError, f"builtin has no attribute '{name}'")
        if k is Property:
            if name in ("setter", "getter", "deleter"):
                def mk(I, a, kw, o=o, name=name):
                    p = Property(o.fget, o.fset)
                    if name == "setter":
                        p.fset = a[0]
                    elif name == "getter":
                        p.fget = a[0]
                    return p
                return Builtin(name, mk)
            if name == "fget":
                return o.fget
        if k is Arr or k is Num:
            from . import np_model
            return np_model.attr(self, o, name)
        if k is NTuple:
            v = self.lookup(o.cls, name)
            if v is not None:
                return self.bind(v, o, o.cls)
            if name in o.cls.ns["__nt_fields__"]:
                return o[o.cls.ns["__nt_fields__"].index(name)]
            return self.bm.nt_attr(self, o, name)
        if k is TypeExpr:
            return TypeExpr(f"{o.name}.{name}")
        if k is Opaque:
            raise Inconclusive(f"attribute {name} of opaque {o!r}")
        if k is ClassMethod or k is StaticMethod:
            return self._getattr(o.f, name)
        return self.bm.native_attr(self, o, name)

    def super_attr(self, s, name):
        mro = mro_of(s.objcls)
        i = mro.index(s.start) + 1
        for c in mro[i:]:
            if isinstance(c, Cls) and name in c.ns:
                v = c.ns[name]
                t = type(v)
                if t is ClassMethod:
                    return Bound(v.f, s.objcls)
                if t is StaticMethod:
                    return v.f
                if s.obj is s.objcls:
                    if isinstance(v, (Func,)):
                        return v
                    return v
                return self.bind(v, s.obj, s.objcls)
        return self.bm.object_super(self, s, name)

    def setattr(self, o, name, v):
        k = type(o)
        if k is Obj:
            p = self.lookup(o.cls, name)
            if type(p) is Property:
                if p.fset is None:
                    raise self.exc(AttributeError, f"property '{name}' has no setter")
                self.call(p.fset, [o, v])
                return
            sa = self.lookup(o.cls, "__setattr__")
            if sa is not None:
                self.call(self.bind(sa, o, o.cls), [name, v])
                return
            o.attrs[name] = v
        elif k is Cls:
            if name == "__name__":
                o.name = v
            else:
                o.ns[name] = v
        elif k is Func or k is Builtin:
            o.attrs[name] = v
        elif k is Module:
            o.ns[name] = v
        elif k is Arr:
            from . import np_model
            np_model.set_attr(self, o, name, v)
        elif k is NTuple or isinstance(o, tuple):
            raise self.exc(AttributeError, "can't set attribute")
        elif k is Bound:
            raise self.exc(AttributeError, "can't set attribute on method")
        else:
            raise Inconclusive(f"setattr on {o!r}")

    # ---------------------------------------------------------- helpers
    def tname(self, v):
        t = self.bm.typeof(self, v)
        return t.name if isinstance(t, (Cls, TypeExpr)) else t.__name__

    def py_id(self, v):
        if v is None or isinstance(v, (bool, int, str)):
            return hash((type(v).__name__, v)) & 0x7FFFFFFF
        h = id(v)
        if h not in self.ids:
            self.ids[h] = 1000 + 16 * len(self.ids)
            self.ids_keep.append(v)
        return self.ids[h]

    def truth(self, v):
        if v is True or v is False:
            return v
        if v is None:
            return False
        k = type(v)
        if k in (int, float, str, tuple, list, dict, set, frozenset, range, NTuple):
            return bool(v)
        if k is Num:
            return self.sign_of(v.t, "+-")
        if k is AStr:
            return True
        if k is Arr:
            n = v.size
            if v.kind == "trc":
                raise self.exc(TypeError, "TracerBoolConversionError: truth value of a traced jax array")
            if n == 1:
                e = v.elems[0]
                return self.truth(e) if not isinstance(e, RF) else self.sign_of(e, "+-")
            if n == 0:
                return False
            raise self.exc(ValueError, "The truth value of an array with more than one element is ambiguous")
        if k is Opaque:
            return self.decide(f"bool({v!r})", ("truth", self.py_id(v)))
        if k is Obj:
            b = self.lookup(v.cls, "__bool__")
            if b is not None:
                return self.truth(self.call(self.bind(b, v, v.cls), []))
            l = self.lookup(v.cls, "__len__")
            if l is not None:
                return self.truth(self.call(self.bind(l, v, v.cls), []))
            return True
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()), int, float, str, tuple, list,
                          dict, set, frozenset, range, bytes)):
            return bool(v)
        if k.__name__ == "SymBool":
            from . import np_model
            return np_model.decide(self, v)
        return True

    def as_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Num) and v.t.is_const() and v.ty in ("int", "np.int64"):
            return int(v.t.const_value())
        if isinstance(v, Arr) and v.kind == "trc":
            raise self.exc(TypeError, "TracerIntegerConversionError")
        if isinstance(v, Arr) and v.size == 1 and v.shape == () and v.dtype.startswith("int"):
            e = v.elems[0]
            if isinstance(e, RF) and e.is_const():
                return int(e.const_value())
        if isinstance(v, Obj):
            m = self.lookup(v.cls, "__index__")
            if m is not None:
                return self.as_int(self.call(self.bind(m, v, v.cls), []))
        if isinstance(v, (Num, Opaque)) and getattr(v, "ty", None) in ("int", "np.int64", None):
            raise Inconclusive(f"symbolic integer {v!r} used as an index")
        raise self.exc(TypeError, f"'{self.tname(v)}' object cannot be interpreted as an integer")

    def iterate(self, v):
        k = type(v)
        if k in (tuple, list, dict, set, frozenset, range, NTuple, GenObj):
            return v
        if k is str:
            return v
        if k is Arr:
            from . import np_model
            if not v.shape:
                raise self.exc(TypeError, "iteration over a 0-d array")
            return [np_model.getitem(self, v, i) for i in range(v.shape[0])]
        if k is Obj:
            m = self.lookup(v.cls, "__iter__")
            if m is not None:
                r = self.call(self.bind(m, v, v.cls), [])
                return self.iter_obj(r)
            m = self.lookup(v.cls, "__getitem__")
            if m is not None:
                return self.iter_seq(v, m)
            raise self.exc(TypeError, f"'{self.tname(v)}' object is not iterable")
        if k is AStr:
            raise Inconclusive("iteration over the characters of an abstract key")
        if k in (Opaque,):
            raise Inconclusive(f"iteration over opaque {v!r}")
        if k is TypeExpr:
            return [TypeExpr(f"*{v.name}")]
        if k is Cls:
            ms = self.ext.enum_members(v)
            if ms is not None:
                return ms
        if k in (Cls, Func, Builtin, Bound, Num) or v is None or isinstance(v, (int, float, bool, type)):
            raise self.exc(TypeError, f"'{self.tname(v)}' object is not iterable")
        if hasattr(v, "__iter__"):
            return v
        raise Inconclusive(f"iterate {v!r}")

    def iter_obj(self, r):
        if isinstance(r, Obj):
            m = self.lookup(r.cls, "__next__")
            if m is None:
                raise self.exc(TypeError, "iter() returned non-iterator")
            return self._next_loop(r, m)
        return self.iterate(r)

    def _next_loop(self, r, m):
        while True:
            try:
                x = self.call(self.bind(m, r, r.cls), [])
            except PyExc as e:
                if StopIteration in mro_of(e.obj.cls):
                    return
                raise
            yield x

    def iter_seq(self, v, m):
        i = 0
        while True:
            try:
                x = self.call(self.bind(m, v, v.cls), [i])
            except PyExc as e:
                if IndexError in mro_of(e.obj.cls):
                    return
                raise
            yield x
            i += 1

    # ---------------------------------------------------------- expressions
    def ev_index(self, n, sc):
        if isinstance(n, ast.Tuple):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out.extend(self.iterate(self.ev(e.value, sc)))
                else:
                    out.append(self.ev_index(e, sc))
            return tuple(out)
        return self.ev(n, sc)

    def ev(self, n, sc):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Inconclusive("step budget exceeded")
        k = type(n)
        if k is ast.Name:
            return self.load(n.id, sc)
        if k is ast.Constant:
            if type(n.value) is complex:
                raise Inconclusive("complex numbers")
            return n.value
        if k is ast.Attribute:
            return self.getattr(self.ev(n.value, sc), n.attr)
        if k is ast.Call:
            return self.ev_call(n, sc)
        if k is ast.Subscript:
            o = self.ev(n.value, sc)
            return self.getitem(o, self.ev_index(n.slice, sc))
        if k is ast.Tuple or k is ast.List:
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out.extend(self.iterate(self.ev(e.value, sc)))
                else:
                    out.append(self.ev(e, sc))
            return tuple(out) if k is ast.Tuple else out
        if k is ast.BinOp:
            return self.binop(self.OPS[type(n.op)], self.ev(n.left, sc), self.ev(n.right, sc))
        if k is ast.Compare:
            left = self.ev(n.left, sc)
            res = True
            for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
                right = self.ev(rn, sc)
                res = self.cmp1(op, left, right)
                if i < len(n.ops) - 1 and not self.truth(res):
                    return res
                left = right
            return res
        if k is ast.BoolOp:
            isand = isinstance(n.op, ast.And)
            v = None
            for e in n.values:
                v = self.ev(e, sc)
                if e is n.values[-1]:
                    return v
                t = self.truth(v)
                if isand and not t:
                    return v
                if not isand and t:
                    return v
            return v
        if k is ast.UnaryOp:
            v = self.ev(n.operand, sc)
            if isinstance(n.op, ast.Not):
                return not self.truth(v)
            return self.bm.unary(self, {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(n.op)], v)
        if k is ast.IfExp:
            return self.ev(n.body if self.truth(self.ev(n.test, sc)) else n.orelse, sc)
        if k is ast.JoinedStr:
            ps = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    ps.append(v.value)
                else:
                    x = self.ev(v.value, sc)
                    spec = self.ev(v.format_spec, sc) if v.format_spec else ""
                    if v.conversion == 114:
                        x = self.bm.repr_(self, x)
                    elif v.conversion == 115:
                        x = self.bm.str_(self, x)
                    ps.append(self.bm.format_(self, x, spec))
            return astr.mk(ps)
        if k is ast.Dict:
            d = {}
            for kk, vv in zip(n.keys, n.values):
                if kk is None:
                    d.update(self.bm.to_dict(self, self.ev(vv, sc)))
                else:
                    key = self.ev(kk, sc)
                    d[self.hashable(key)] = self.ev(vv, sc)
            return d
        if k is ast.Set:
            s = set()
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    s.update(self.iterate(self.ev(e.value, sc)))
                else:
                    s.add(self.hashable(self.ev(e, sc)))
            return s
        if k is ast.ListComp:
            return list(self.comp(n, sc))
        if k is ast.SetComp:
            return {self.hashable(x) for x in self.comp(n, sc)}
        if k is ast.DictComp:
            d = {}
            for a, b in self.comp(n, sc):
                d[self.hashable(a)] = b
            return d
        if k is ast.GeneratorExp:
            return GenObj(self.comp(n, sc, eager_first=True), "<genexpr>")
        if k is ast.Lambda:
            return self.make_func(n, sc)
        if k is ast.Slice:
            return slice(*(self._slice_bound(self.ev(x, sc)) if x is not None else None
                           for x in (n.lower, n.upper, n.step)))
        if k is ast.NamedExpr:
            v = self.ev(n.value, sc)
            s = sc
            while s.kind == "comp":
                s = s.parent
            self.store(n.target.id, v, s)
            return v
        if k is ast.Starred:
            raise Inconclusive("starred expression")
        raise Inconclusive(f"expression {k.__name__} at line {getattr(n, 'lineno', '?')}")

    def _slice_bound(self, v):
        if v is None:
            return None
        return self.as_int(v)

    def comp(self, n, sc, eager_first=False):
        first = self.iterate(self.ev(n.generators[0].iter, sc))
        return self._comp(n, sc, first, list(self.stack[-1:]))

    def _comp(self, n, sc, first, frames):
        names = set()
        for g in n.generators:
            for w in ast.walk(g.target):
                if isinstance(w, ast.Name):
                    names.add(w.id)
        csc = Scope("comp", sc, sc.module, frozenset(names))
        csc.globalnames = ()

        def rec(i):
            g = n.generators[i]
            it = first if i == 0 else self.iterate(self.ev(g.iter, csc))
            it = iter(it)
            while True:
                try:
                    v = next(it)
                except StopIteration:
                    return
                except RuntimeError as e:
                    raise self.exc(RuntimeError, str(e))
                self.assign(g.target, v, csc)
                if all(self.truth(self.ev(c, csc)) for c in g.ifs):
                    if i + 1 < len(n.generators):
                        yield from rec(i + 1)
                    elif isinstance(n, ast.DictComp):
                        yield (self.ev(n.key, csc), self.ev(n.value, csc))
                    else:
                        yield self.ev(n.elt, csc)
        return rec(0)

    def ev_call(self, n, sc):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not n.args:
            return self.make_super(sc)
        if isinstance(fn, ast.Name) and fn.id == "locals" and "locals" not in sc.vars:
            return dict(sc.vars)
        if isinstance(fn, ast.Name) and fn.id == "globals":
            return sc.module.ns
        f = self.ev(fn, sc)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, sc)))
            else:
                args.append(self.ev(a, sc))
        kwargs = {}
        for kw in n.keywords:
            if kw.arg is None:
                d = self.ev(kw.value, sc)
                for kk, vv in self.bm.to_dict(self, d).items():
                    if kk in kwargs:
                        raise self.exc(TypeError, f"multiple values for keyword argument '{kk}'")
                    kwargs[kk] = vv
            else:
                kwargs[kw.arg] = self.ev(kw.value, sc)
        line = self.stack[-1].line
        if hasattr(n, "lineno"):
            self.stack[-1].line = n.lineno
        r = self.call(f, args, kwargs)
        self.stack[-1].line = line
        return r

    def make_super(self, sc):
        s = sc
        fs = None
        cls = None
        while s is not None:
            if fs is None and s.kind == "func" and s.self_ is not None:
                fs = s
            if s.kind == "cell" and "__class__" in s.vars:
                cls = s.vars["__class__"]
                break
            s = s.parent
        if cls is None or fs is None:
            raise self.exc(RuntimeError, "super(): no arguments")
        # first positional argument of the outermost function below the class
        o = fs.vars[fs.self_]
        if isinstance(o, Cls):
            return Super(cls, o, o)
        return Super(cls, o, o.cls)

    def generic_number(self, v):
        return type(v) is Num and not v.t.is_const()

    def has_generic(self, v):
        return any(self.generic_number(x) or (type(x) is tuple and self.has_generic(x)) for x in v)

    def symbolic_key(self, v):
        """Representative of a key made of symbolic numbers.

        Two keys are the same key exactly when their numbers are equal, which
        the analysis either knows or takes both ways (a partition each).
        """
        for r in self.numkeys:
            if type(r) is not type(v):
                continue
            if r is v or self.truth(self.bm.equal(self, r, v)):
                return r
        self.numkeys.append(v)
        return v

    def hashable(self, v):
        k = type(v)
        if k in (list, dict, set) or (k is Arr):
            raise self.exc(TypeError, f"unhashable type: '{self.tname(v)}'")
        if k is Num:
            if v.t.is_const():
                c = v.t.const_value()
                return int(c) if c.denominator == 1 else float(c)
            return self.symbolic_key(v)
        if k in (tuple, NTuple):
            out = tuple(self.hashable(y) if type(y) in (tuple, Num) and not self.generic_number(y)
                        else (y if self.generic_number(y) else self.hashable(y)) for y in v)
            if self.has_generic(out):
                return self.symbolic_key(out)
            if any(a is not b for a, b in zip(out, v)):
                return out
        if k is Obj:
            for c in mro_of(v.cls):
                if isinstance(c, Cls) and ("__hash__" in c.ns or "__eq__" in c.ns):
                    self.object_key(v, c)
                    break
        return v

    def object_key(self, v, c):
        """an instance whose class says what equality is: gives it the token of its equivalence class"""
        h = c.ns.get("__hash__")
        if h is None:
            raise self.exc(TypeError, f"unhashable type: '{self.tname(v)}'")
        hv = self.hashable(self.call(self.bind(h, v, v.cls), []))
        if self.lookup(v.cls, "__eq__") is not None:
            for hv2, o, tok in self.objkeys:
                if o is v and hv2 == hv or hv2 == hv and self.truth(self.bm.equal(self, o, v)):
                    v.key = tok
                    return
        tok = (hv, len(self.objkeys))
        self.objkeys.append((hv, v, tok))
        v.key = tok

    # ---------------------------------------------------------- operators
    def binop(self, op, a, b):
        return self.bm.binop(self, op, a, b)

    def compare_op(self, op, a, b):
        return self.bm.compare(self, op, a, b)

    def cmp1(self, op, a, b):
        k = type(op)
        if k is ast.Is:
            return self.bm.is_(a, b)
        if k is ast.IsNot:
            return not self.bm.is_(a, b)
        if k is ast.In:
            return self.bm.contains(self, b, a)
        if k is ast.NotIn:
            return not self.truth(self.bm.contains(self, b, a))
        return self.bm.compare(self, self.CMPS[k], a, b)

    def getitem(self, o, i):
        return self.bm.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.bm.setitem(self, o, i, v)
