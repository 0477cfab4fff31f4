"""
Value-numbering domain for scalars.

A scalar is abstracted by a rational function (`RF`) over *atoms*.  Atoms are the
opaque inputs of an analysis context (a coordinate of an arbitrary point, an arbitrary
parameter, ...) and applications of non-rational operators (`sqrt`, `abs`, `arctan2`,
uninterpreted operators).  Two scalars with the same value number are equal for every
valuation of the inputs.  Nothing here executes repository code and no solver is used:
equality is normal-form comparison.  A *disequality* is only ever reported together with
a witness valuation (see `compare`), so an incomplete normal form can make the analysis
inconclusive but cannot make it raise a false alarm.
"""

from fractions import Fraction
import decimal
import math
import random

P = (1 << 61) - 1


ABORT = [False]                             # set when the time of a worker is up


class Inconclusive(Exception):
    """The analysis met something it has no transfer function for (exit status 2)."""


class Atom:
    __slots__ = ("idx", "name", "fn", "args", "sign", "fp", "table", "extra", "_repr")

    def __init__(self, idx, name, fn, args, sign, fp, table, extra=None):
        self.idx, self.name, self.fn, self.args = idx, name, fn, args
        self.sign, self.fp, self.table, self.extra = sign, fp, table, extra

    def __repr__(self):
        if self.fn is None:
            return self.name
        r = getattr(self, "_repr", None)
        if r is None:
            r = f"{self.fn}({', '.join(map(str, self.args))})"
            if len(r) > 600:                # nested terms are shared: their text would be exponential
                r = f"{r[:200]}...#{self.idx})"
            self._repr = r
        return r


class Table:
    """Intern table of atoms (one per analysis run)."""

    def __init__(self):
        self.atoms = []
        self.vars = {}
        self.bucket = {}
        self.rng = random.Random(20240607)

    def var(self, name, sign=None):
        if name in self.vars:
            return self.vars[name]
        a = Atom(len(self.atoms), name, None, (), sign, self.rng.randrange(2, P - 2), self)
        self.atoms.append(a)
        self.vars[name] = a
        return a

    def app(self, fn, args, sign=None, extra=None):
        key = (fn, len(args), tuple(a.fingerprint() if isinstance(a, RF) else repr(a) for a in args))
        for cand in self.bucket.get(key, ()):
            if all(
                (rf_zero(x - y) if isinstance(x, RF) else x == y)
                for x, y in zip(cand.args, args)
            ):
                return cand
        a = Atom(len(self.atoms), None, fn, tuple(args), sign,
                 self.rng.randrange(2, P - 2), self, extra)
        self.atoms.append(a)
        self.bucket.setdefault(key, []).append(a)
        return a


TABLE = Table()


def reset():
    global TABLE
    TABLE = Table()


# ---------------------------------------------------------------- polynomials
# poly: dict  mono -> Fraction ; mono: tuple of (atom_idx, exp) sorted by atom_idx

def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_atom(a, e=1):
    return {((a.idx, e),): Fraction(1)}


def p_add(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def p_neg(p):
    return {m: -v for m, v in p.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


MAXTERMS = 60000


def p_mul_raw(p, q):
    if len(p) * len(q) > MAXTERMS * 20:
        raise Inconclusive("polynomial too large")
    r = {}
    for m1, c1 in p.items():
        if ABORT[0]:
            raise Inconclusive("time budget exhausted")
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_reduce(p):
    """Apply sqrt(q)^2 -> q and abs(x)^2 -> x^2."""
    atoms = TABLE.atoms
    todo = False
    for m in p:
        for i, e in m:
            if e >= 2 and atoms[i].fn in ("sqrt", "abs"):
                todo = True
                break
        if todo:
            break
    if not todo:
        return p
    r = {}
    for m, c in p.items():
        keep = []
        extra = None
        for i, e in m:
            a = atoms[i]
            if e >= 2 and a.fn in ("sqrt", "abs"):
                k, rem = divmod(e, 2)
                base = a.args[0].num
                if a.fn == "abs":
                    base = p_mul_raw(base, base)
                f = base
                for _ in range(k - 1):
                    f = p_mul_raw(f, base)
                extra = f if extra is None else p_mul_raw(extra, f)
                if rem:
                    keep.append((i, 1))
            else:
                keep.append((i, e))
        t = {tuple(keep): c}
        if extra is not None:
            t = p_mul_raw(t, extra)
        r = p_add(r, t)
    return p_reduce(r)


def p_mul(p, q):
    return p_reduce(p_mul_raw(p, q))


def p_fp(p):
    s = 0
    atoms = TABLE.atoms
    for m, c in p.items():
        v = c.numerator % P * pow(c.denominator % P, P - 2, P) % P
        for i, e in m:
            v = v * pow(atoms[i].fp, e, P) % P
        s = (s + v) % P
    return s


def p_lead(p):
    """leading monomial (graded lex on atom index)"""
    return max(p, key=lambda m: (sum(e for _, e in m), m))


def m_div(a, b):
    d = dict(a)
    for i, e in b:
        if d.get(i, 0) < e:
            return None
        d[i] -= e
        if not d[i]:
            del d[i]
    return tuple(sorted(d.items()))


def _gkey(m):
    # a genuine monomial order: graded lex with dense comparison
    return (sum(e for _, e in m), tuple((-i, e) for i, e in m))


def p_divexact(p, q, limit=4000):
    """p / q when q divides p exactly in Q[atoms] (no relations), else None."""
    if not q:
        return None
    if len(q) == 1:
        (mq, cq), = q.items()
        r = {}
        for m, c in p.items():
            d = m_div(m, mq)
            if d is None:
                return None
            r[d] = c / cq
        return r
    idxs = sorted({i for m in q for i, _ in m} | {i for m in p for i, _ in m})

    def key(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(i, 0) for i in idxs))

    lq = max(q, key=key)
    cq = q[lq]
    r = {}
    rem = dict(p)
    n = 0
    while rem:
        n += 1
        if n > limit:
            return None
        lm = max(rem, key=key)
        d = m_div(lm, lq)
        if d is None:
            return None
        c = rem[lm] / cq
        r[d] = c
        for m, v in q.items():
            mm = m_mul(d, m)
            nv = rem.get(mm, 0) - c * v
            if nv:
                rem[mm] = nv
            else:
                rem.pop(mm, None)
    return r


def p_sqrt(p):
    """Exact polynomial square root or None."""
    if not p:
        return {}
    idxs = sorted({i for m in p for i, _ in m})

    def key(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(i, 0) for i in idxs))

    lm = max(p, key=key)
    c = p[lm]
    if c < 0 or any(e % 2 for _, e in lm):
        return None
    rc = _fsqrt(c)
    if rc is None:
        return None
    lead = tuple((i, e // 2) for i, e in lm)
    root = {lead: rc}
    rem = p_add(p, p_neg(p_mul_raw(root, root)))
    n = 0
    while rem:
        n += 1
        if n > 200:
            return None
        m = max(rem, key=key)
        d = m_div(m, lead)
        if d is None or key(d) >= key(lead):
            return None
        t = {d: rem[m] / (2 * rc)}
        new = p_add(root, t)
        rem = p_add(p, p_neg(p_mul_raw(new, new)))
        root = new
    return root


def _isqrt_exact(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def _fsqrt(f):
    a, b = _isqrt_exact(f.numerator), _isqrt_exact(f.denominator)
    return None if a is None or b is None else Fraction(a, b)


class RF:
    __slots__ = ("num", "den", "_fp")

    def __init__(self, num, den=None):
        if den is None:
            den = {(): Fraction(1)}
        self.num, self.den = num, den
        self._fp = None
        if ABORT[0]:
            raise Inconclusive("time budget exhausted")

    # -- construction
    @staticmethod
    def make(num, den):
        num = p_reduce(num)
        den = p_reduce(den)
        if not den:
            raise ZeroDivisionError
        if not num:
            return RF({})
        if len(den) == 1 and () in den:
            c = den[()]
            return RF(num if c == 1 else p_scale(num, 1 / c))
        # common monomial factor
        common = None
        for m in list(num) + list(den):
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {i: min(e, d[i]) for i, e in common.items() if i in d}
            if not common:
                break
        if common:
            cm = tuple(sorted(common.items()))
            num = {m_div(m, cm): c for m, c in num.items()}
            den = {m_div(m, cm): c for m, c in den.items()}
            return RF.make(num, den)
        q = p_divexact(num, den) if len(den) > 1 else None
        if q is not None:
            return RF(q)
        if len(num) > 1 and len(den) > 1:
            q = p_divexact(den, num)
            if q is not None:
                return RF.make(p_const(1), q)
        # scale: leading coeff of den = 1
        c = den[p_lead(den)]
        if c != 1:
            num, den = p_scale(num, 1 / c), p_scale(den, 1 / c)
        return RF(num, den)

    @staticmethod
    def const(c):
        return RF(p_const(c))

    # -- predicates
    def is_const(self):
        return (not self.num) or (
            len(self.num) == 1 and () in self.num and len(self.den) == 1 and () in self.den
        )

    def const_value(self):
        if not self.num:
            return Fraction(0)
        return self.num[()] / self.den[()]

    def is_poly(self):
        return len(self.den) == 1 and () in self.den

    def fingerprint(self):
        if self._fp is None:
            d = p_fp(self.den)
            self._fp = p_fp(self.num) * pow(d, P - 2, P) % P
        return self._fp

    # -- arithmetic
    def __add__(self, o):
        if self.den == o.den:
            return RF.make(p_add(self.num, o.num), self.den)
        return RF.make(
            p_add(p_mul_raw(self.num, o.den), p_mul_raw(o.num, self.den)),
            p_mul_raw(self.den, o.den),
        )

    def __neg__(self):
        return RF(p_neg(self.num), self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return RF.make(p_mul_raw(self.num, o.num), p_mul_raw(self.den, o.den))

    def __truediv__(self, o):
        if not o.num:
            raise ZeroDivisionError
        return RF.make(p_mul_raw(self.num, o.den), p_mul_raw(self.den, o.num))

    def powi(self, n):
        if n < 0:
            return RF.const(1) / self.powi(-n)
        r = RF.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b if n > 1 else b
            n >>= 1
        return r

    def atoms(self):
        out = set()
        for p in (self.num, self.den):
            for m in p:
                for i, _ in m:
                    out.add(i)
        return out

    def __repr__(self):
        def pp(p):
            if not p:
                return "0"
            s = []
            for m, c in sorted(p.items(), key=lambda kv: kv[0]):
                t = "*".join(
                    (repr(TABLE.atoms[i]) + (f"^{e}" if e != 1 else "")) for i, e in m
                )
                if not t:
                    s.append(_cs(c))
                elif c == 1:
                    s.append(t)
                elif c == -1:
                    s.append("-" + t)
                else:
                    s.append(f"{_cs(c)}*{t}")
            r = " + ".join(s).replace("+ -", "- ")
            return r if len(r) < 400 else r[:400] + "..."

        if self.is_poly():
            return pp(self.num) if self.den == {(): Fraction(1)} else f"({pp(self.num)})/{pp(self.den)}"
        return f"({pp(self.num)})/({pp(self.den)})"


def _cs(c):
    return str(c) if c.denominator < 10 ** 6 else repr(float(c))


def rf_zero(r):
    return not r.num


def atom_rf(a):
    return RF(p_atom(a))


def from_number(x):
    if isinstance(x, RF):
        return x
    if isinstance(x, bool):
        return RF.const(int(x))
    if isinstance(x, int):
        return RF.const(x)
    if isinstance(x, Fraction):
        return RF.const(x)
    if isinstance(x, float):
        if math.isinf(x):
            r = atom_rf(TABLE.app("const", ("inf",), "+"))
            return r if x > 0 else -r
        if math.isnan(x):
            return atom_rf(TABLE.app("const", (repr(x),)))
        f = Fraction(x)
        g = f.limit_denominator(10 ** 6)
        if f != g and abs(f - g) <= abs(f) * Fraction(1, 10 ** 15):
            f = g
        return RF.const(f)
    raise Inconclusive(f"not a number: {x!r}")


# ---------------------------------------------------------------- signs

def leading_in_infinity(r):
    """the coefficient of the highest power of infinity in a fraction, None without infinities"""
    inf = next((a for a in TABLE.bucket.get(("const", 1, ("'inf'",)), ())), None)
    if inf is None:
        return None

    def lead(p):
        top = max([e for m in p for i, e in m if i == inf.idx], default=0)
        return top, {tuple([x for x in m if x[0] != inf.idx]): c for m, c in p.items()
                     if sum([e for i, e in m if i == inf.idx]) == top}
    (n, num), (d, den) = lead(r.num), lead(r.den)
    if n == 0 and d == 0:
        return None
    return RF(num) / RF(den)


def without_root(d):
    """for c + k sqrt(p) with numbers c and k of opposite signs: an expression of the same sign without the root"""
    if not d.is_poly() or len(d.num) != 2 or () not in d.num:
        return None
    m = next(x for x in d.num if x != ())
    if len(m) != 1 or m[0][1] != 1 or TABLE.atoms[m[0][0]].fn != "sqrt":
        return None
    den = d.den.get((), 1)
    c, k = d.num[()] / den, d.num[m] / den
    if c * k >= 0:
        return None
    r = RF.const(c * c) - RF.const(k * k) * TABLE.atoms[m[0][0]].args[0]
    return r if c > 0 else -r


def atom_sign(i):
    """'+', '0+', '-', or None"""
    return TABLE.atoms[i].sign


def p_sign(p):
    """one of '+','-','0','0+','0-', None"""
    if not p:
        return "0"
    allp = alln = True
    strictp = strictn = False
    for m, c in p.items():
        s = 1
        strict = True
        for i, e in m:
            a = atom_sign(i)
            if e % 2 == 0:
                if a not in ("+", "-"):
                    strict = False
                continue
            if a == "+":
                pass
            elif a == "-":
                s = -s
            elif a == "0+":
                strict = False
            else:
                s = None
                break
        if s is None:
            return None
        s = s if c > 0 else -s
        if s > 0:
            alln = False
            strictp |= strict
        else:
            allp = False
            strictn |= strict
    if allp:
        return "+" if strictp else "0+"
    if alln:
        return "-" if strictn else "0-"
    return None


def rf_sign(r):
    n = p_sign(r.num)
    if n == "0":
        return "0"
    if n is None:
        # perfect squares are non-negative
        if r.is_poly() and len(r.num) <= 40:
            q = p_sqrt(r.num)
            if q is not None:
                return "0+"
        if r.is_poly() and _sum_of_squares(r.num):
            return "0+"
        return None
    d = p_sign(r.den)
    if d in ("+", "0+"):       # denominators are non-zero by assumption
        return n
    if d in ("-", "0-"):
        return {"+": "-", "-": "+", "0+": "0-", "0-": "0+"}[n]
    return None


def _sum_of_squares(p):
    """Recognise sum of squares of differences: sum_k (linear_k)^2 by greedy completion."""
    # greedy: repeatedly take the smallest atom with a square term and complete the square
    rem = dict(p)
    for _ in range(30):
        if not rem:
            return True
        sq = [m for m in rem if len(m) == 1 and m[0][1] == 2]
        if any(sum(e for _, e in m) != 2 for m in rem):
            return False
        if not sq:
            return False
        m = min(sq)
        i = m[0][0]
        c = rem[m]
        if c < 0:
            return False
        lin = {((i, 1),): Fraction(1)}
        for mm, cc in rem.items():
            d = dict(mm)
            if i in d and mm != m:
                other = m_div(mm, ((i, 1),))
                lin[other] = cc / (2 * c)
        rem = p_add(rem, p_scale(p_mul_raw(lin, lin), -c))
    return False


# ---------------------------------------------------------------- operators

def app(fn, *args, sign=None, extra=None):
    return atom_rf(TABLE.app(fn, args, sign, extra))


def t_abs(r):
    if r.is_const():
        return RF.const(abs(r.const_value()))
    s = rf_sign(r)
    if s in ("+", "0+"):
        return r
    if s in ("-", "0-"):
        return -r
    if not r.is_poly():
        return t_abs(RF(r.num)) / t_abs(RF(r.den))
    # content / monomial
    num = r.num
    c = abs(num[p_lead(num)])
    base = p_scale(num, 1 / c)
    if base[p_lead(base)] < 0:
        base = p_neg(base)
    if len(base) == 1:
        (m, _), = base.items()
        out = RF.const(c)
        for i, e in m:
            a = TABLE.atoms[i]
            if e % 2 == 0 or a.sign in ("+", "0+"):
                out = out * RF({((i, e),): Fraction(1)})
            else:
                out = out * RF({((i, e - 1),): Fraction(1)} if e > 1 else p_const(1)) * atom_rf(
                    TABLE.app("abs", (RF(p_atom(a)),), "0+"))
        return out
    return RF.const(c) * app("abs", RF(base), sign="0+")


def t_sqrt(r):
    if not r.num:
        return RF({})
    if r.is_const():
        c = r.const_value()
        if c < 0:
            return app("sqrtneg", r)
        q = _fsqrt(c)
        if q is not None:
            return RF.const(q)
    if not r.is_poly():
        n, d = RF(r.num), RF(r.den)
        qd = p_sqrt(r.den)
        if qd is not None:
            return t_sqrt(n) / t_abs(RF(qd))
        return t_sqrt(n * d) / t_abs(d)
    p = r.num
    q = p_sqrt(p)
    if q is not None:
        return t_abs(RF(q))
    # rational content
    from math import gcd
    nums = [abs(c.numerator) for c in p.values()]
    dens = [c.denominator for c in p.values()]
    g = 0
    for n in nums:
        g = gcd(g, n)
    l = 1
    for d in dens:
        l = l * d // gcd(l, d)
    c = Fraction(g, l)
    # sqrt(c) = sqrt(g*l)/l ; extract squares from g*l
    k, rest = _square_part(g * l)
    outer = Fraction(k, l)
    p2 = p_scale(p, 1 / c)
    p2 = p_scale(p2, rest)
    # monomial squares
    out = RF.const(outer)
    common = None
    for m in p2:
        d = dict(m)
        common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
    for i, e in sorted((common or {}).items()):
        k = e // 2
        if k:
            p2 = {m_div(m, ((i, 2 * k),)): v for m, v in p2.items()}
            out = out * t_abs(RF({((i, k),): Fraction(1)}))
    s = p_sign(p2)
    return out * app("sqrt", RF(p2), sign="+" if (s == "+" or s is None or s == "0+") else "0+")


def _square_part(n):
    k = 1
    f = 2
    while f * f <= n and f < 2000:
        while n % (f * f) == 0:
            n //= f * f
            k *= f
        f += 1
    return k, n


def t_pow(b, e):
    """b ** e for RF b and RF e"""
    if e.is_const():
        c = e.const_value()
        if c.denominator == 1:
            return b.powi(int(c))
        if c.denominator == 2:
            s = t_sqrt(b)
            return s.powi(int(c * 2))
    if b.is_const() and b.const_value() == 1:
        return b
    return app("pow", b, e)


def t_arctan2(y, x):
    if rf_zero(y) and rf_sign(x) in ("+",):
        return RF({})
    # scale both by a positive common factor to polynomial form
    sy, sx = p_sign(y.den), p_sign(x.den)

    def posden(r):
        return p_sign(r.den) in ("+", "0+")

    if not posden(y):
        y = RF(p_mul(y.num, y.den), p_mul(y.den, y.den))
    if not posden(x):
        x = RF(p_mul(x.num, x.den), p_mul(x.den, x.den))
    if y.den == x.den:
        ny, nx = y.num, x.num
    else:
        ny, nx = p_mul(y.num, x.den), p_mul(x.num, y.den)
    # strip common monomials of positive atoms
    common = None
    for m in list(ny) + list(nx):
        d = dict(m)
        common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
    strip = tuple(sorted((i, e) for i, e in (common or {}).items() if TABLE.atoms[i].sign in ("+", "0+")))
    if strip:
        ny = {m_div(m, strip): c for m, c in ny.items()}
        nx = {m_div(m, strip): c for m, c in nx.items()}
    ref = ny or nx
    c = abs(ref[p_lead(ref)]) if ref else Fraction(1)
    ny, nx = p_scale(ny, 1 / c), p_scale(nx, 1 / c)
    return app("arctan2", RF(ny), RF(nx))


# ---------------------------------------------------------------- numeric witnesses

class NoValue(Exception):
    pass


def _sample(rr, mode, shared):
    """a pseudo-random magnitude; the modes differ in scale and in how alike the variables are"""
    if mode == "default":
        return rr.uniform(0.3, 3.0)
    if mode == "small":
        return rr.uniform(0.3, 3.0) * 10.0 ** -shared.choice((1, 2, 3))
    if mode == "large":
        return rr.uniform(0.3, 3.0) * 10.0 ** shared.choice((1, 2, 3))
    if mode == "cluster":
        return shared.uniform(0.5, 3.0) + rr.uniform(-1, 1) * 10.0 ** -shared.choice((1, 2, 3))
    if mode == "mixed":
        return 10.0 ** rr.uniform(-3, 3)
    return rr.choice((0.5, 1.0, 1.5, 2.0, 3.0))


MODES = ("default", "default", "small", "cluster", "mixed", "large", "few", "cluster")


def _valuation(seed, mode="default", given=None, overrides=None):
    """`given`: values of variables; `overrides`: values of applications of uninterpreted functions, by the
    function and the values of its arguments, so that equal arguments always have equal values"""
    cache = dict(given or {})
    touched = {}

    def val(i):
        if i in cache:
            return cache[i]
        a = TABLE.atoms[i]
        if a.fn is None:
            if a.name == "pi":
                v = math.pi
            else:
                rr = random.Random(f"{seed}:{a.name}")
                v = abs(_sample(rr, mode, random.Random(seed)))
                if a.sign not in ("+", "0+") and (rr if mode != "cluster" else random.Random(seed)).random() < 0.5:
                    v = -v
        else:
            args = [ev(x) if isinstance(x, RF) else x for x in a.args]
            v = _fn_value(a, args, seed, overrides, touched)
        cache[i] = v
        return v

    def evp(p):
        s = 0.0
        for m, c in p.items():
            t = float(c)
            for i, e in m:
                t *= val(i) ** e
            s += t
        return s

    def ev(r):
        d = evp(r.den)
        if abs(d) < 1e-12:
            raise NoValue
        return evp(r.num) / d

    def magnitude(r):
        """of the terms of a fraction, as a measure of rounding errors"""
        return sum(abs(evp({m: c})) for m, c in r.num.items()) / abs(evp(r.den))

    ev.magnitude = magnitude
    ev.cache = cache
    ev.touched = touched
    return ev


def _variables(p, out, seen):
    for m in p:
        for i, _ in m:
            if i in seen:
                continue
            seen.add(i)
            a = TABLE.atoms[i]
            if a.fn is None:
                if a.name != "pi":
                    out.append(i)
            else:
                for x in a.args:
                    if isinstance(x, RF):
                        _variables(x.num, out, seen)
                        _variables(x.den, out, seen)


def _on_equalities(seed, mode, equalities):
    """a valuation which satisfies the given equations, each solved for one of its variables"""
    given = {}
    rr = random.Random(f"eq:{seed}")
    for n in equalities:
        vs = []
        _variables(n.num, vs, set())
        vs = [v for v in vs if v not in given] or vs
        if not vs:
            return None
        rr.shuffle(vs)
        for v in vs[:3]:
            base = {k: x for k, x in given.items() if k != v}

            def f(x):
                return _valuation(seed, mode, {**base, v: x})(n)
            x0 = _valuation(seed, mode, base)(RF(p_atom_index(v)))
            x1 = x0 * 1.1 + 0.01
            try:
                f0, f1 = f(x0), f(x1)
                for _ in range(40):
                    if abs(f1) < 1e-13 or f1 == f0:
                        break
                    x0, x1, f0 = x1, x1 - f1 * (x1 - x0) / (f1 - f0), f1
                    f1 = f(x1)
            except (NoValue, OverflowError, ZeroDivisionError):
                continue
            if isinstance(x1, complex) or isinstance(f1, complex) or not abs(f1) < 1e-10:
                continue
            if TABLE.atoms[v].sign in ("+", "0+") and x1 < 0:
                continue
            given[v] = x1
            break
        else:
            return None
    return _valuation(seed, mode, given)


def _search(seed, guard, steps=400):
    """a valuation in a narrow partition: from a random one, by changes of one variable or of one application of
    an uninterpreted function at a time, each of which gets closer to the facts of the guard, one fact after the
    other"""
    rr = random.Random(f"search:{seed}")
    mode = MODES[seed % len(MODES)]
    vs = []
    seen = set()
    for n, _ in guard:
        _variables(n.num, vs, seen)
        _variables(n.den, vs, seen)
    given, over = {}, {}
    best = None
    for step in range(steps):
        g, o = given, over
        if best is not None:
            scale = 10.0 ** rr.choice((-2, -1, 1, 2)) if rr.random() < 0.4 else 1 + rr.uniform(-1, 1) * rr.choice((0.5, 0.1, 0.01))
            apps = sorted(touched)
            if apps and (not vs or rr.random() < 0.6):
                # late applications, which are the ones of the last facts, more often
                key = rr.choice(sorted(recent)) if recent and rr.random() < 0.7 else rr.choice(apps)
                o = {**over, key: touched[key] * scale}
            elif vs:
                v = rr.choice(vs)
                x = cache[v] if v in cache else 1.0
                x = x * scale
                if TABLE.atoms[v].sign not in ("+", "0+") and rr.random() < 0.2:
                    x = -x
                g = {**given, v: x}
            else:
                return None
        try:
            ev = _valuation(seed, mode, g, o)
            k, amount = 0, 0.0
            new = set()
            for k, (n, want) in enumerate(guard):
                before = set(ev.touched)
                x = ev(n)
                if isinstance(x, complex) or x != x:
                    raise NoValue
                sg = "+" if x > 1e-9 else "-" if x < -1e-9 else "0"
                more = set(ev.touched) - before
                new = more or new
                if sg not in want:
                    amount = max(abs(x), 1e-9)
                    break
            else:
                return ev
        except (NoValue, OverflowError, ZeroDivisionError):
            if best is None:
                return None
            continue
        score = (-k, amount)
        if best is None or score <= best:
            best, given, over = score, g, o
            touched, cache, recent = ev.touched, ev.cache, new
    return None


def p_atom_index(i):
    return {((i, 1),): Fraction(1)}


INTERPRETED = {"sqrt", "abs", "arctan2", "pow", "cos", "sin", "tan", "exp", "arccos", "arcsin", "arctan", "max", "min", "log"}


def _ground(p, seen):
    for m in p:
        for i, _ in m:
            if i in seen:
                continue
            a = TABLE.atoms[i]
            if a.fn is None:
                if a.name != "pi":
                    return False
            elif a.fn not in INTERPRETED or not all(
                    isinstance(x, RF) and _ground(x.num, seen) and _ground(x.den, seen) for x in a.args):
                return False
            seen.add(i)
    return True


def ground_sign(r):
    """Sign of a term without variables, where its magnitude clearly exceeds rounding errors."""
    seen = set()
    if not (_ground(r.num, seen) and _ground(r.den, seen)):
        return None
    try:
        ev = _valuation(1)
        scale = sum(abs(ev(RF({m: c}))) for m, c in r.num.items()) / abs(ev(RF(r.den)))
        v = ev(r)
    except (NoValue, OverflowError, ZeroDivisionError):
        return None
    if isinstance(v, complex) or not abs(v) > 1e-9 * scale:
        return None
    return "+" if v > 0 else "-"


def _fn_value(a, args, seed, overrides=None, touched=None):
    fn = a.fn
    try:
        if fn == "sqrt":
            if args[0] < 0:
                raise NoValue
            return math.sqrt(args[0])
        if fn == "abs":
            return abs(args[0])
        if fn == "arctan2":
            return math.atan2(0.0 if abs(args[0]) < 1e-12 else args[0], args[1])
        if fn == "pow":
            return args[0] ** args[1] if args[0] > 0 else (_ for _ in ()).throw(NoValue())
        if fn in ("cos", "sin", "tan", "exp"):
            return getattr(math, fn)(args[0])
        if fn == "arccos":
            return math.acos(max(-1.0, min(1.0, args[0])))
        if fn == "arcsin":
            return math.asin(max(-1.0, min(1.0, args[0])))
        if fn == "arctan":
            return math.atan(args[0])
        if fn == "mod":
            return args[0] - args[1] * math.floor(args[0] / args[1] + 1e-11)
        if fn == "floor":
            return float(math.floor(args[0] + 1e-11))
        if fn == "ceil":
            return float(math.ceil(args[0] - 1e-11))
        if fn == "round":
            return float(round(args[0], int(args[1]) if len(args) > 1 else 0))
        if fn == "rint":
            return float(round(args[0]))
        if fn == "trunc":
            return float(math.trunc(args[0] + math.copysign(1e-11, args[0])))
        if fn == "max":
            return max(args)
        if fn == "min":
            return min(args)
        if fn == "sgn":
            return float((args[0] > 1e-12) - (args[0] < -1e-12))
        if fn == "log":
            return math.log(args[0]) if args[0] > 0 else (_ for _ in ()).throw(NoValue())
    except (OverflowError, ValueError, ZeroDivisionError):
        raise NoValue
    # uninterpreted: a hash-based but argument-continuous-enough value
    key = f"{seed}:{fn}:" + ",".join(
        (f"{round(x, 8) + 0.0:.8f}" if isinstance(x, float) else repr(x)) for x in args)
    if overrides is not None and key in overrides:
        v = overrides[key]
    else:
        v = random.Random(key).uniform(0.3, 3.0)
    if touched is not None:
        touched[key] = v
    return v


# ---- the same with many digits, to tell small differences from rounding errors

_D = decimal.Decimal
_MP = decimal.Context(prec=60, Emax=10 ** 6, Emin=-10 ** 6, traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])
_PI = _D("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899")


def _mp_atan(x):
    if abs(x) > 1:
        return (_PI / 2 if x > 0 else -_PI / 2) - _mp_atan(1 / x)
    for _ in range(4):
        x = x / (1 + (1 + x * x).sqrt())
    s, t, k, y = _D(0), x, 1, x * x
    while abs(t) > _D(10) ** -70 and k < 400:
        s += t / k
        t, k = -t * y, k + 2
    return 16 * s


def _mp_atan2(y, x):
    if abs(y) < _D(10) ** -40:
        y = _D(0)
    if x == 0:
        return _PI / 2 if y > 0 else -_PI / 2 if y < 0 else _D(0)
    t = _mp_atan(y / x)
    return t if x > 0 else t + _PI if y >= 0 else t - _PI


def _mp_sin(x):
    x = x - 2 * _PI * (x / (2 * _PI)).to_integral_value()
    s, t, k = _D(0), x, 1
    while abs(t) > _D(10) ** -70 and k < 400:
        s += t
        t, k = -t * x * x / ((k + 1) * (k + 2)), k + 2
    return s


def _mp_function(fn, args, seed):
    x = args[0] if args else None
    tiny = _D(10) ** -30
    if fn == "sqrt":
        return x.sqrt() if x >= 0 else (_ for _ in ()).throw(NoValue())
    if fn == "abs":
        return abs(x)
    if fn == "arctan2":
        return _mp_atan2(x, args[1])
    if fn == "pow":
        return x ** args[1] if x > 0 else (_ for _ in ()).throw(NoValue())
    if fn == "sin":
        return _mp_sin(x)
    if fn == "cos":
        return _mp_sin(x + _PI / 2)
    if fn == "tan":
        return _mp_sin(x) / _mp_sin(x + _PI / 2)
    if fn == "exp":
        return x.exp()
    if fn == "log":
        return x.ln() if x > 0 else (_ for _ in ()).throw(NoValue())
    if fn in ("arccos", "arcsin"):
        x = max(_D(-1), min(_D(1), x))
        t = _mp_atan2(x, (1 - x * x).sqrt())
        return t if fn == "arcsin" else _PI / 2 - t
    if fn == "arctan":
        return _mp_atan(x)
    if fn == "max":
        return max(args)
    if fn == "min":
        return min(args)
    if fn == "sgn":
        return _D((x > tiny) - (x < -tiny))
    if fn == "mod":
        return x - args[1] * (x / args[1] + tiny).to_integral_value(rounding=decimal.ROUND_FLOOR)
    if fn == "floor":
        return (x + tiny).to_integral_value(rounding=decimal.ROUND_FLOOR)
    if fn == "ceil":
        return (x - tiny).to_integral_value(rounding=decimal.ROUND_CEILING)
    if fn in ("round", "rint", "trunc"):
        raise NoValue
    key = f"{seed}:{fn}:" + ",".join(str(a.quantize(_D(10) ** -12)) if isinstance(a, _D) else repr(a) for a in args)
    return _D(random.Random(key).uniform(0.3, 3.0))


def _mp_valuation(seed, mode, unit):
    """like _valuation, all variables in multiples of `unit`"""
    cache = {}

    def val(i):
        if i in cache:
            return cache[i]
        a = TABLE.atoms[i]
        if a.fn is None:
            if a.name == "pi":
                v = _PI
            else:
                rr = random.Random(f"{seed}:{a.name}")
                v = _D(abs(_sample(rr, mode, random.Random(seed)))) * unit
                if a.sign not in ("+", "0+") and (rr if mode != "cluster" else random.Random(seed)).random() < 0.5:
                    v = -v
        else:
            v = _mp_function(a.fn, [ev(x) if isinstance(x, RF) else x for x in a.args], seed)
        cache[i] = v
        return v

    def evp(p, size=False):
        s = _D(0)
        for m, c in p.items():
            t = _D(c.numerator) / _D(c.denominator)
            for i, e in m:
                t *= val(i) ** e
            s += abs(t) if size else t
        return s

    def ev(r):
        d = evp(r.den)
        if abs(d) < _D(10) ** -45:
            raise NoValue
        return evp(r.num) / d

    ev.magnitude = lambda r: evp(r.num, True) / abs(evp(r.den))
    return ev


def _small_difference(a, b, points):
    """a point where the values differ by more than the rounding of constants can explain, or None"""
    with decimal.localcontext(_MP):
        for seed, mode, unit in points:
            unit = _D(10) ** unit
            try:
                ev = _mp_valuation(seed, mode, unit)
                x, y = ev(a), ev(b)
                scale = max(ev.magnitude(a), ev.magnitude(b), unit)
            except (NoValue, decimal.DecimalException, OverflowError, ZeroDivisionError, TypeError, ValueError):
                continue
            if abs(x - y) > scale * _D(10) ** -14:
                return seed, float(x), float(y)
    return None


def _holds(ev, guard):
    for n, want in guard:
        x = ev(n)
        sg = "+" if x > 1e-9 else "-" if x < -1e-9 else "0"
        if sg not in want:
            return False
    return True


def compare(a, b, guard=()):
    """True (equal for all valuations) / (False, witness) / None (undecided).

    Equality is decided by normal form; where the normal form is not complete (nested radicals,
    inverse trigonometry) by random interpretation (Gulwani & Necula): agreement of the two value
    numbers at AGREE pseudo-random points of the partition.  A disequality always has a witness.
    `guard`: sign facts of the current partition; a point has to satisfy them.  Points are drawn at
    several scales, alike and apart, so that narrow partitions have points as well; where a fact is
    an equation, it is solved for one of its variables."""
    d = a - b
    if rf_zero(d):
        return True, None
    agree, points = 0, []
    guard = [(n, want) for n, want in guard if not (set("+-0") <= set(want))]
    equalities = [n for n, want in guard if set(want) == {"0"}]
    for seed in range(1, 400 if not guard else 4000 if not equalities else 1000):
        mode = MODES[seed % len(MODES)] if guard else "default"
        try:
            if guard and not equalities and not agree and 150 < seed <= 170:
                ev = _search(seed, guard)
            else:
                ev = _on_equalities(seed, mode, equalities) if equalities else _valuation(seed, mode)
            if ev is None or guard and not _holds(ev, guard):
                continue
            x, y = ev(a), ev(b)
            scale = max(1.0, abs(x), abs(y)) if mode == "default" else max(
                ev.magnitude(a), ev.magnitude(b), abs(x), abs(y), 1e-12)
        except (NoValue, OverflowError, ZeroDivisionError):
            continue
        if isinstance(x, complex) or isinstance(y, complex) or x != x or y != y:
            continue
        if abs(x - y) > 1e-6 * scale:
            return False, (seed, x, y)
        agree += 1
        if not equalities and len(points) < 2:
            try:
                if _holds(_valuation(seed, mode), guard):
                    points.append((seed, mode, 0))
            except (NoValue, OverflowError, ZeroDivisionError):
                pass
        if agree >= AGREE:
            RANDOM_INTERPRETATION[0] += 1
            found = _small_difference(a, b, points + ([] if guard else [(1, "default", -6), (2, "default", 6)]))
            return (False, found) if found else (True, None)
    return None, None


AGREE = 24
RANDOM_INTERPRETATION = [0]
