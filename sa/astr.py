"""
Segmented abstract strings: concatenations of literals and opaque atoms.

A `KAtom` stands for an arbitrary non-empty string without '/' (a tree key chosen by a
user).  Distinct atoms are distinct strings; whether an atom equals / contains a literal
of the analysed program is a partition (see `Interp.decide`).
"""
from .terms import Inconclusive


class KAtom:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class AStr:
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def __hash__(self):
        return hash(self.parts)

    def __eq__(self, o):
        return isinstance(o, AStr) and self.parts == o.parts

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)


def mk(parts):
    out = []
    for p in parts:
        if isinstance(p, AStr):
            sub = p.parts
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return AStr(tuple(out))


def concat(a, b):
    return mk((a, b))


def parts(s):
    return s.parts if isinstance(s, AStr) else ((s,) if s else ())


def split(s, sep, maxsplit=-1):
    """exact for '/' (atoms contain no slash)"""
    if isinstance(s, str):
        return s.split(sep, maxsplit)
    if sep is None or "/" not in sep:
        raise Inconclusive(f"split of {s!r} at {sep!r}")
    if sep != "/":
        raise Inconclusive("multi-character separator")
    out = [[]]
    n = 0
    for p in s.parts:
        if isinstance(p, str):
            rest = p
            while True:
                i = rest.find(sep)
                if i < 0 or (maxsplit >= 0 and n >= maxsplit):
                    out[-1].append(rest)
                    break
                out[-1].append(rest[:i])
                out.append([])
                n += 1
                rest = rest[i + 1:]
        else:
            out[-1].append(p)
    return [mk(o) for o in out]


def rsplit(s, sep, maxsplit=-1):
    if isinstance(s, str):
        return s.rsplit(sep, maxsplit)
    full = split(s, sep)
    if maxsplit < 0 or len(full) - 1 <= maxsplit:
        return full
    k = len(full) - maxsplit
    head = join(sep, full[:k])
    return [head] + full[k:]


def join(sep, items):
    out = []
    for i, it in enumerate(items):
        if i:
            out.append(sep)
        out.append(it)
    return mk(out)


def slice_(s, sl):
    if isinstance(s, str):
        return s[sl]
    if sl.step not in (None, 1):
        raise Inconclusive("strided slice of abstract string")
    start, stop = sl.start, sl.stop
    p = list(s.parts)
    if start is not None and start > 0:
        if isinstance(p[0], str) and len(p[0]) >= start:
            p[0] = p[0][start:]
        else:
            raise Inconclusive(f"slice {sl} of {s!r}")
        if stop is not None and stop > 0:
            stop -= start
            if stop <= 0:
                return ""
    elif start is not None and start < 0:
        if isinstance(p[-1], str) and len(p[-1]) >= -start:
            tail = p[-1][start:]
            if stop is None:
                return tail
        raise Inconclusive(f"slice {sl} of {s!r}")
    if stop is not None:
        if stop < 0:
            if isinstance(p[-1], str) and len(p[-1]) >= -stop:
                p[-1] = p[-1][:stop]
            else:
                raise Inconclusive(f"slice {sl} of {s!r}")
        elif stop == 0:
            return ""
        else:
            if isinstance(p[0], str) and len(p[0]) >= stop:
                return p[0][:stop]
            raise Inconclusive(f"slice {sl} of {s!r}")
    return mk(p)
