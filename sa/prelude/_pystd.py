"""
Standard-library containers and helpers, written in Python for the abstract interpreter.

They are analysed like any other code; nothing here is executed by the host.
"""


class deque:
    def __init__(self, iterable=(), maxlen=None):
        self._items = []
        self.maxlen = maxlen
        self.extend(iterable)

    def append(self, x):
        self._items.append(x)
        if self.maxlen is not None and len(self._items) > self.maxlen:
            del self._items[0]

    def appendleft(self, x):
        self._items.insert(0, x)
        if self.maxlen is not None and len(self._items) > self.maxlen:
            del self._items[-1]

    def extend(self, xs):
        for x in list(xs):
            self.append(x)

    def extendleft(self, xs):
        for x in list(xs):
            self.appendleft(x)

    def pop(self):
        if not self._items:
            raise IndexError("pop from an empty deque")
        return self._items.pop()

    def popleft(self):
        if not self._items:
            raise IndexError("pop from an empty deque")
        return self._items.pop(0)

    def clear(self):
        self._items.clear()

    def copy(self):
        return deque(self._items, self.maxlen)

    def __copy__(self):
        return self.copy()

    def count(self, x):
        return self._items.count(x)

    def index(self, x, *a):
        return self._items.index(x, *a)

    def insert(self, i, x):
        if self.maxlen is not None and len(self._items) >= self.maxlen:
            raise IndexError("deque already at its maximum size")
        self._items.insert(i, x)

    def remove(self, x):
        self._items.remove(x)

    def reverse(self):
        self._items.reverse()

    def rotate(self, n=1):
        if self._items:
            n = n % len(self._items)
            self._items[:] = self._items[len(self._items) - n:] + self._items[:len(self._items) - n]

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self._items)

    def __reversed__(self):
        return reversed(self._items)

    def __contains__(self, x):
        return x in self._items

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise TypeError("sequence index must be integer, not 'slice'")
        return self._items[i]

    def __setitem__(self, i, x):
        self._items[i] = x

    def __delitem__(self, i):
        del self._items[i]

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, other):
        r = self.copy()
        r.extend(other)
        return r

    def __eq__(self, other):
        if not isinstance(other, deque):
            return NotImplemented
        return self._items == other._items

    __hash__ = None

    def __repr__(self):
        return f"deque({self._items!r})"


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def _merged(self):
        d = {}
        for m in reversed(self.maps):
            d.update(dict.fromkeys(m))
        return {k: self[k] for k in d}

    def __len__(self):
        return len(self._merged())

    def __iter__(self):
        return iter(self._merged())

    def __bool__(self):
        return any(self.maps)

    def keys(self):
        return self._merged().keys()

    def values(self):
        return self._merged().values()

    def items(self):
        return self._merged().items()

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __delitem__(self, key):
        del self.maps[0][key]

    def pop(self, key, *a):
        return self.maps[0].pop(key, *a)

    def new_child(self, m=None):
        return ChainMap({} if m is None else m, *self.maps)

    @property
    def parents(self):
        return ChainMap(*self.maps[1:])

    __hash__ = None


class _CmpKey:
    def __init__(self, cmp, obj):
        self.cmp, self.obj = cmp, obj

    def __lt__(self, other):
        return self.cmp(self.obj, other.obj) < 0

    def __gt__(self, other):
        return self.cmp(self.obj, other.obj) > 0

    def __le__(self, other):
        return self.cmp(self.obj, other.obj) <= 0

    def __ge__(self, other):
        return self.cmp(self.obj, other.obj) >= 0

    def __eq__(self, other):
        return self.cmp(self.obj, other.obj) == 0

    __hash__ = None


def cmp_to_key(cmp):
    return lambda obj: _CmpKey(cmp, obj)


def _annotated_class(func):
    ann = list(func.__annotations__.values())
    if not ann:
        raise TypeError("Invalid first argument to `register()`")
    return ann[0]


def _dispatch(registry, cls):
    for c in cls.__mro__:
        if c in registry:
            return registry[c]
    return registry[object]


def singledispatch(func):
    registry = {object: func}

    def dispatch(cls):
        return _dispatch(registry, cls)

    def register(cls, f=None):
        if f is None:
            if isinstance(cls, type):
                return lambda f: register(cls, f)
            f = cls
            cls = _annotated_class(f)
        registry[cls] = f
        return f

    def wrapper(*args, **kwargs):
        if not args:
            raise TypeError("function requires at least 1 positional argument")
        return dispatch(type(args[0]))(*args, **kwargs)

    wrapper.register = register
    wrapper.dispatch = dispatch
    wrapper.registry = registry
    wrapper.__wrapped__ = func
    return wrapper


class singledispatchmethod:
    def __init__(self, func):
        self.func = func
        self.registry = {object: func}

    def register(self, cls, f=None):
        if f is None:
            if isinstance(cls, type):
                return lambda f: self.register(cls, f)
            f = cls
            cls = _annotated_class(f)
        self.registry[cls] = f
        return f

    def __get__(self, obj, cls=None):
        def method(*args, **kwargs):
            f = _dispatch(self.registry, type(args[0]))
            if hasattr(f, "__get__"):
                return f.__get__(obj, cls)(*args, **kwargs)
            return f(obj, *args, **kwargs)
        return method


def total_ordering(cls):
    ns = vars(cls)
    if "__lt__" in ns:
        if "__gt__" not in ns:
            cls.__gt__ = lambda self, o: not (self < o) and self != o
        if "__le__" not in ns:
            cls.__le__ = lambda self, o: self < o or self == o
        if "__ge__" not in ns:
            cls.__ge__ = lambda self, o: not (self < o)
    elif "__gt__" in ns:
        cls.__lt__ = lambda self, o: not (self > o) and self != o
        if "__ge__" not in ns:
            cls.__ge__ = lambda self, o: self > o or self == o
        if "__le__" not in ns:
            cls.__le__ = lambda self, o: not (self > o)
    elif "__le__" in ns:
        cls.__gt__ = lambda self, o: not (self <= o)
        cls.__lt__ = lambda self, o: self <= o and self != o
        if "__ge__" not in ns:
            cls.__ge__ = lambda self, o: not (self <= o) or self == o
    elif "__ge__" in ns:
        cls.__lt__ = lambda self, o: not (self >= o)
        cls.__gt__ = lambda self, o: self >= o and self != o
        if "__le__" not in ns:
            cls.__le__ = lambda self, o: not (self >= o) or self == o
    else:
        raise ValueError("must define at least one ordering operation: < > <= >=")
    return cls


def counter_most_common(c, n=None):
    r = sorted(c.items(), key=lambda kv: kv[1], reverse=True)
    return r if n is None else r[:n]


def counter_elements(c):
    for k, n in c.items():
        for _ in range(n):
            yield k


def counter_update(c, xs=()):
    if isinstance(xs, dict):
        for k, n in xs.items():
            c[k] = c.get(k, 0) + n
    else:
        for k in xs:
            c[k] = c.get(k, 0) + 1


def counter_subtract(c, xs=()):
    if isinstance(xs, dict):
        for k, n in xs.items():
            c[k] = c.get(k, 0) - n
    else:
        for k in xs:
            c[k] = c.get(k, 0) - 1


def counter_total(c):
    return sum(c.values())


def gcd(*xs):
    r = 0
    for x in xs:
        x = abs(x)
        while x:
            r, x = x, r % x
    return r


def factorial(n):
    if n < 0:
        raise ValueError("factorial() not defined for negative values")
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def comb(n, k):
    if k > n:
        return 0
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def perm(n, k=None):
    k = n if k is None else k
    if k > n:
        return 0
    r = 1
    for i in range(k):
        r *= n - i
    return r




def lcm(*xs):
    r = 1
    for x in xs:
        g = gcd(r, x)
        r = 0 if g == 0 else abs(r * x) // g
    return r


def isqrt(n):
    if n < 0:
        raise ValueError("isqrt() argument must be nonnegative")
    k = 0
    while (k + 1) * (k + 1) <= n:
        k += 1
    return k


def sumprod(p, q):
    p, q = list(p), list(q)
    if len(p) != len(q):
        raise ValueError("Inputs are not the same length")
    r = 0
    for x, y in zip(p, q):
        r = r + x * y
    return r


# ---------------------------------------------------------------- math, statistics, bisect, heapq

def math_sinh(x):
    import math
    return (math.exp(x) - math.exp(-x)) / 2


def math_cosh(x):
    import math
    return (math.exp(x) + math.exp(-x)) / 2


def math_tanh(x):
    return math_sinh(x) / math_cosh(x)


def math_log1p(x):
    import math
    return math.log(1 + x)


def math_expm1(x):
    import math
    return math.exp(x) - 1


def math_copysign(x, y):
    return abs(float(x)) if y >= 0 else -abs(float(x))


class StatisticsError(ValueError):
    pass


statistics_StatisticsError = StatisticsError


def statistics_mean(data):
    data = list(data)
    if not data:
        raise StatisticsError("mean requires at least one data point")
    return sum(data) / len(data)


def statistics_fmean(data, weights=None):
    data = [float(x) for x in data]
    if not data:
        raise StatisticsError("fmean requires at least one data point")
    if weights is None:
        return sum(data) / len(data)
    weights = list(weights)
    return sum(x * w for x, w in zip(data, weights)) / sum(weights)


def statistics_median(data):
    data = sorted(data)
    n = len(data)
    if not n:
        raise StatisticsError("no median for empty data")
    return data[n // 2] if n % 2 else (data[n // 2 - 1] + data[n // 2]) / 2


def statistics_pvariance(data, mu=None):
    data = list(data)
    m = statistics_mean(data) if mu is None else mu
    return sum((x - m) ** 2 for x in data) / len(data)


def statistics_pstdev(data, mu=None):
    return float(statistics_pvariance(data, mu)) ** 0.5


def statistics_variance(data, xbar=None):
    data = list(data)
    if len(data) < 2:
        raise StatisticsError("variance requires at least two data points")
    m = statistics_mean(data) if xbar is None else xbar
    return sum((x - m) ** 2 for x in data) / (len(data) - 1)


def statistics_stdev(data, xbar=None):
    return float(statistics_variance(data, xbar)) ** 0.5


def bisect_bisect_left(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if (a[mid] if key is None else key(a[mid])) < x:
            lo = mid + 1
        else:
            hi = mid
    return lo


def bisect_bisect_right(a, x, lo=0, hi=None, *, key=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if x < (a[mid] if key is None else key(a[mid])):
            hi = mid
        else:
            lo = mid + 1
    return lo


bisect_bisect = bisect_bisect_right


def bisect_insort_right(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)


bisect_insort = bisect_insort_right


def bisect_insort_left(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)


def heapq_heappush(heap, item):
    heap.append(item)
    i = len(heap) - 1
    while i > 0:
        p = (i - 1) // 2
        if heap[i] < heap[p]:
            heap[i], heap[p] = heap[p], heap[i]
            i = p
        else:
            break


def _sift(heap, i):
    n = len(heap)
    while True:
        c = 2 * i + 1
        if c >= n:
            return
        if c + 1 < n and not heap[c] < heap[c + 1]:
            c += 1
        if heap[c] < heap[i]:
            heap[i], heap[c] = heap[c], heap[i]
            i = c
        else:
            return


def heapq_heappop(heap):
    last = heap.pop()
    if not heap:
        return last
    top = heap[0]
    heap[0] = last
    _sift(heap, 0)
    return top


def heapq_heapify(heap):
    for i in reversed(range(len(heap) // 2)):
        _sift(heap, i)


def heapq_heappushpop(heap, item):
    heapq_heappush(heap, item)
    return heapq_heappop(heap)


def heapq_heapreplace(heap, item):
    top = heapq_heappop(heap)
    heapq_heappush(heap, item)
    return top


def heapq_nsmallest(n, iterable, key=None):
    return sorted(iterable, key=key)[:max(n, 0)]


def heapq_nlargest(n, iterable, key=None):
    return sorted(iterable, key=key, reverse=True)[:max(n, 0)]


def heapq_merge(*iterables, key=None, reverse=False):
    items = []
    for it in iterables:
        items.extend(it)
    return iter(sorted(items, key=key, reverse=reverse))
