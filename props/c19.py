"""Splitting work into chunks covers every item once, in order, and never changes an answer."""

import contextlib
import numbers
from fractions import Fraction

from symgb import terms as T

from . import api
from .spec import Inst

KMAX = 15  # more chunks than any instance asks for
BIG = 2**26


class Z:
    """an integer of unbounded size given by a linear term; quotients are decided up to KMAX"""

    ctx = None

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        return x.t if isinstance(x, Z) else x

    @staticmethod
    def wrap(t):
        return t if T.is_const(t) else Z(t)

    def _lin(self, o, f):
        if isinstance(o, Frac) or isinstance(o, float):
            return NotImplemented
        if not isinstance(o, (int, Z)):
            return NotImplemented
        return Z.wrap(f(self.t, Z.of(o)))

    def __add__(self, o):
        return self._lin(o, T.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, T.sub)

    def __rsub__(self, o):
        return self._lin(o, lambda a, b: T.sub(b, a))

    def __mul__(self, o):
        return self._lin(o, T.mul)

    __rmul__ = __mul__

    def __neg__(self):
        return Z.wrap(T.sub(0, self.t))

    def __pos__(self):
        return self

    def _cmp(self, o, f):
        if isinstance(o, float):
            o = Fraction(o)
        if isinstance(o, Frac):
            return NotImplemented
        return self.ctx.decide(f(self.t, Z.of(o)))

    def __lt__(self, o):
        return self._cmp(o, T.lt)

    def __le__(self, o):
        return self._cmp(o, T.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: T.lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: T.le(b, a))

    def __eq__(self, o):
        return self._cmp(o, T.eq)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __bool__(self):
        return self != 0

    def __truediv__(self, o):
        return Frac(self, o)

    def __rtruediv__(self, o):
        return Frac(o, self)

    def __floordiv__(self, o):
        return Frac(self, o).floor()

    def __rfloordiv__(self, o):
        return Frac(o, self).floor()

    def __mod__(self, o):
        return self - o * (self // o)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def __rdivmod__(self, o):
        q = Frac(o, self).floor()
        return q, o - self * q

    def __rmod__(self, o):
        return o - self * Frac(o, self).floor()

    def __ceil__(self):
        return self

    __floor__ = __trunc__ = __round__ = __ceil__

    def __int__(self):
        raise TypeError("int() of a symbolic size")

    __index__ = __int__


numbers.Number.register(Z)


class Frac:
    """a quotient; rounding it decides the result when the divisor is symbolic"""

    def __init__(self, a, b):
        if isinstance(a, float):
            a = Fraction(a)
        if isinstance(b, float):
            b = Fraction(b)
        if isinstance(b, Fraction):
            a, b = a * b.denominator, b.numerator
        self.a, self.b = a, b

    def floor(self):
        a, b = Z.of(self.a), Z.of(self.b)
        if T.is_const(b):
            if b < 0:
                a, b = T.sub(0, a), -b
            return a // b if T.is_const(a) else Z.wrap(a / b)
        c = Z.ctx
        if not c.decide(T.lt(0, b)):
            raise TypeError("division by a negative symbolic size")
        sign = 1 if c.decide(T.le(0, a)) else -1
        # |a| // b decided one by one
        m = a if sign > 0 else T.sub(0, a)
        for q in range(KMAX + 2):
            if c.decide(T.lt(m, T.mul(q + 1, b))):
                if sign > 0 or c.decide(T.eq(m, T.mul(q, b))):
                    return sign * q
                return -q - 1
        raise TypeError("too many chunks")

    def ceil(self):
        a = self.a
        return -Frac(-a if not isinstance(a, Z) else Z.wrap(T.sub(0, a.t)), self.b).floor()

    __ceil__ = ceil
    __floor__ = floor

    def __trunc__(self):
        return self.floor() if self >= 0 else self.ceil()

    def __round__(self):
        """to the nearest integer, halves to the even one"""
        q = (self + Fraction(1, 2)).floor()
        if self + Fraction(1, 2) == q and q % 2 == 1:
            return q - 1
        return q

    def __neg__(self):
        return Frac(-self.a, self.b)

    def __add__(self, o):
        o = Fraction(o) if isinstance(o, float) else o
        if isinstance(o, Fraction):
            return Frac(self.a * o.denominator + self.b * o.numerator, self.b * o.denominator)
        return Frac(self.a + self.b * o, self.b) if isinstance(o, (int, Z)) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self + -o

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        o = Fraction(o) if isinstance(o, float) else o
        if isinstance(o, Fraction):
            return Frac(self.a * o.numerator, self.b * o.denominator)
        return Frac(self.a * o, self.b) if isinstance(o, (int, Z)) else NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return Frac(self.a, self.b * o).floor()

    def __eq__(self, o):
        return Z.ctx.decide(T.eq(*self._cmp(o)))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def _cmp(self, o):
        c = Z.ctx
        if not T.is_const(Z.of(self.b)) and not c.decide(T.lt(0, Z.of(self.b))):
            raise TypeError("negative divisor")
        if isinstance(o, float):
            o = Fraction(o)
        if isinstance(o, Fraction):
            return T.mul(Z.of(self.a), o.denominator), T.mul(Z.of(self.b), o.numerator)
        return Z.of(self.a), T.mul(Z.of(o), Z.of(self.b))

    def __lt__(self, o):
        return Z.ctx.decide(T.lt(*self._cmp(o)))

    def __le__(self, o):
        return Z.ctx.decide(T.le(*self._cmp(o)))

    def __gt__(self, o):
        return not self <= o

    def __ge__(self, o):
        return not self < o


class Seq:
    """a sequence of symbolic length; a slice remembers its ends"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step is not None:
            raise TypeError("only slices")
        n = self.hi - self.lo

        def end(x, default):
            if x is None:
                return default
            if x < 0:
                x = x + n
                return 0 if x < 0 else x
            return n if x > n else x

        a, b = end(s.start, 0), end(s.stop, n)
        if b < a:
            b = a
        return Seq(self.lo + a, self.lo + b)


def _len(x):
    return x.hi - x.lo if isinstance(x, Seq) else len(x)


def _int(x):
    if isinstance(x, Z):
        return x
    if isinstance(x, Frac):
        return x.floor() if x >= 0 else x.ceil()
    return int(x)


def _range(*a):
    if not any(isinstance(x, Z) for x in a):
        yield from range(*a)
        return
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (*a, 1) if len(a) == 2 else a
    up = step > 0
    for _k in range(KMAX + 4):
        if not (start < stop if up else start > stop):
            return
        yield start
        start = start + step
    raise TypeError("too many chunks")


def _ceil(x):
    import math

    return x.__ceil__() if isinstance(x, (Z, Frac)) else math.ceil(x)


@contextlib.contextmanager
def _shim(ctx):
    """the module under test sees sizes that may be symbolic"""
    from graphblas_algorithms.nxapi import _utils

    Z.ctx = ctx
    names = {"len": _len, "int": _int, "range": _range, "ceil": _ceil}
    old = {k: vars(_utils).get(k) for k in names}
    try:
        if ctx.sym:
            vars(_utils).update(names)
        yield _utils
    finally:
        for k, v in old.items():
            if v is None:
                vars(_utils).pop(k, None)
            else:
                setattr(_utils, k, v)


def _ends(ctx, s, sym):
    if sym:
        return Z.of(s.lo), Z.of(s.hi)
    if isinstance(s, range):
        return s.start, s.stop
    return (s[0], s[-1] + 1) if len(s) else (0, 0)


def partition(ctx, evenly, kmax):
    """the chunks are the sequence cut into consecutive non-empty parts no larger than asked"""
    n = ctx.int("N", 0, BIG)
    c = ctx.int("c", -2, BIG + 2)
    ctx.assume(T.b_or(T.le(c, 0), T.le(n, T.mul(kmax, c))))
    if ctx.sym:
        L, cs = Seq(0, Z(n)), Z(c)
    else:
        L, cs = range(n), c
    kw = {} if evenly is None else {"evenly": evenly}
    with _shim(ctx) as u:
        parts = [_ends(ctx, s, ctx.sym) for s in u.partition(cs, L, **kw)]
    ctx.check(T.b_iff(T.eq(n, 0), not parts), "chunks of nothing")
    if not parts:
        return
    ctx.check(T.eq(parts[0][0], 0), "starts with the first item")
    ctx.check(T.eq(parts[-1][1], n), "ends with the last item")
    for i, (a, b) in enumerate(parts):
        ctx.check(T.lt(a, b), f"chunk {i} is not empty")
        if i:
            ctx.check(T.eq(parts[i - 1][1], a), f"chunk {i} follows its predecessor")
    whole = T.b_or(T.le(c, 0), T.le(n, c))
    ctx.check(T.b_or(T.b_not(whole), len(parts) == 1), "one chunk when it is large enough")
    sizes = [T.sub(b, a) for a, b in parts]
    for i, s in enumerate(sizes):
        ctx.check(T.b_or(whole, T.le(s, c)), f"chunk {i} is not too large")
    if evenly is not False:
        for s in sizes:
            for r in sizes:
                ctx.check(T.le(T.sub(s, r), 1), "chunks are about equal")
    else:
        for s in sizes[:-1]:
            ctx.check(T.b_or(whole, T.eq(s, c)), "all but the last are full")
    # no more chunks than needed
    ctx.check(T.b_or(whole, T.lt(T.mul(len(parts) - 1, c), n)), "number of chunks")


def split(ctx, kmax):
    """split_evenly cuts into k parts (fewer only for short lists) whose sizes differ by at most one"""
    k = ctx.choice("k", range(-1, kmax + 1))
    n = ctx.int("N", 0, BIG)
    L = Seq(0, Z(n)) if ctx.sym else range(n)
    with _shim(ctx) as u:
        parts = [_ends(ctx, s, ctx.sym) for s in u.split_evenly(k, L)]
    ctx.check(T.b_iff(T.eq(n, 0), not parts), "chunks of nothing")
    if not parts:
        return
    ctx.check(T.eq(parts[0][0], 0), "starts with the first item")
    ctx.check(T.eq(parts[-1][1], n), "ends with the last item")
    for i, (a, b) in enumerate(parts):
        ctx.check(T.lt(a, b), f"chunk {i} is not empty")
        if i:
            ctx.check(T.eq(parts[i - 1][1], a), f"chunk {i} follows its predecessor")
    sizes = [T.sub(b, a) for a, b in parts]
    for s in sizes:
        for r in sizes:
            ctx.check(T.le(T.sub(s, r), 1), "chunks are about equal")
    want = T.if_(T.le(n, max(k, 1)), n, max(k, 1)) if k > 1 else 1
    ctx.check(T.eq(want, len(parts)), "number of chunks")


UNITS = {"": 1, "b": 1, "kb": 1000, "mb": 1000**2, "gb": 1000**3, "tb": 1000**4, "pb": 1000**5,
         "eb": 1000**6, "zb": 1000**7, "kib": 1024, "mib": 1024**2, "gib": 1024**3, "tib": 1024**4,
         "pib": 1024**5, "eib": 1024**6, "zib": 1024**7}


def number(ctx):
    """a number of items is used as it is, unless that means a single chunk"""
    n = ctx.int("N", 0, BIG)
    c = ctx.int("c", -2, BIG + 2)
    item = ctx.choice("itemsize", [1, 8])
    with _shim(ctx) as u:
        r = u.normalize_chunksize(Z(c) if ctx.sym else c, item, Z(n) if ctx.sym else n)
    one = T.b_or(T.le(c, 0), T.le(n, c))
    ctx.check(T.b_iff(r is None, one), "a single chunk")
    if r is not None:
        ctx.check(T.eq(Z.of(r), c), "items per chunk")


def sizes(ctx, text, amount, unit):
    """'10 MiB' etc.: as many items as fit (rounded), at least one"""
    n = ctx.int("N", 0, BIG)
    item = ctx.choice("itemsize", [1, 8, 24, 4000, 10**7])
    with _shim(ctx) as u:
        r = u.normalize_chunksize(text, item, Z(n) if ctx.sym else n)
    if unit in ("chunk", "chunks"):
        # ceil(N / amount) items per chunk
        a = Fraction(amount)
        if a <= 1:
            ctx.check(r is None, "a single chunk")
            return
        q = ctx.num(r) if not isinstance(r, Z) and r is not None else None if r is None else r.t
        if q is not None:
            ctx.check(T.b_and(T.le(T.mul(n, a.denominator), T.mul(q, a.numerator)),
                              T.lt(T.mul(T.sub(q, 1), a.numerator), T.mul(n, a.denominator)),
                              T.lt(0, q), T.lt(q, n)), "items per chunk")
        else:
            # ceil(N / amount) is 0 or not less than N
            ctx.check(T.b_or(T.eq(n, 0), T.b_not(T.le(T.mul(n, a.denominator), T.mul(T.sub(n, 1), a.numerator)))), "a single chunk")
        return
    x = Fraction(amount) * UNITS[unit]
    if unit:
        x = max(Fraction(1), x / item)
    want = round(x)
    one = T.b_or(T.le(want, 0), T.le(n, want))
    ctx.check(T.b_iff(r is None, one), "a single chunk")
    if r is not None:
        got = r.t if isinstance(r, Z) else r
        ctx.check(T.le(T.abs_(T.sub(got, want)), 0 if want < 2**50 else want // 2**50), "items per chunk")


def refused(ctx):
    """what is no size is refused"""
    from graphblas_algorithms.nxapi._utils import normalize_chunksize

    bad = ctx.choice("bad", ["10 furlongs", "1.2.3 MB", "x10", "10 m b x", "MiBs"])
    try:
        r = normalize_chunksize(bad, 8, 1000)
    except ValueError:
        r = "refused"
    ctx.check(r == "refused", f"chunksize {bad!r}")
    other = ctx.choice("other", [[], (3,), {}])
    try:
        r = normalize_chunksize(other, 8, 1000)
    except TypeError:
        r = "refused"
    ctx.check(r == "refused", f"chunksize {other!r}")


CHUNKED = {
    "square_clustering": ("u", lambda x, g, A, c: x.square_clustering(g.G, chunksize=c)),
    "square_clustering_nodes": ("u", lambda x, g, A, c: x.square_clustering(g.G, g.K[1:], chunksize=c)),
    "all_pairs_shortest_path_length": ("ud", lambda x, g, A, c: x.all_pairs_shortest_path_length(g.G, chunksize=c)),
    "all_pairs_shortest_path_length_cutoff": ("ud", lambda x, g, A, c: x.all_pairs_shortest_path_length(g.G, cutoff=1, chunksize=c)),
    "all_pairs_bellman_ford_path_length": ("ud", lambda x, g, A, c: x.all_pairs_bellman_ford_path_length(g.G, chunksize=c)),
}


def chunked(ctx, call, n, directed, weight, chunksizes):
    """the same answer for every chunk size"""
    from graphblas_algorithms import nxapi

    f = CHUNKED[call][1]
    g = ctx.graph("A", n, directed=directed, dtype="INT64", weight=weight, keys="perm", iso=None)
    c = ctx.choice("chunksize", chunksizes)
    answers = []
    for cs in (None, c):
        G = type(g)(ctx.clone(g), g.n, g.directed, g.P, g.W, g.K, g.dtype)
        try:
            answers.append(api.observe(ctx, _dict(api.materialise(f(nxapi, G, api.Args(), cs)))))
        except api.documented(ctx) as e:
            answers.append(("const", type(e).__name__))
    api.same(ctx, answers[1], answers[0], f"{call}(chunksize={c})")


def _dict(x):
    """all-pairs functions answer with a mapping or with (node, mapping) pairs"""
    from graphblas_algorithms.classes.nodemap import NodeNodeMap

    if isinstance(x, NodeNodeMap):
        return {k: dict(x[k].items()) if k in x else {} for k in x}
    if isinstance(x, list) and x and isinstance(x[0], tuple):
        x = dict(x)
    if isinstance(x, dict):
        return {k: dict(v.items()) for k, v in x.items()}
    return x


BOUNDS = (
    "every list of up to 2**26 items and every chunk size that gives at most 8 chunks (thorough 14), "
    "every size text of the stated list with every N; chunked calls on graphs with 3 nodes (thorough 4)"
)
OUTSIDE = "lists longer than 2**26 (float division), more chunks"

TEXTS = [("all", None, None), ("", None, None), ("10", 10, ""), ("1_000", 1000, ""), ("2.5", 2.5, ""),
         ("10 MiB", 10, "mib"), ("256 MiB", 256, "mib"), ("1.5 kB", 1.5, "kb"), ("100B", 100, "b"),
         ("KiB", 1, "kib"), ("0.25gb", 0.25, "gb"), ("4 chunks", 4, "chunks"), ("1 chunk", 1, "chunks"),
         ("3 chunks", 3, "chunk"), ("2.5 chunks", 2.5, "chunks"), ("1e3", None, "?"), ("2 ZiB", 2, "zib"),
         ("7eb", 7, "eb"), ("9 TB", 9, "tb"), ("9 TiB", 9, "tib"), ("3 PB", 3, "pb"), ("3 PiB", 3, "pib"),
         ("2gib", 2, "gib"), ("5mb", 5, "mb"), ("1 zb", 1, "zb"), ("1 EiB", 1, "eib"), ("0 MB", 0, "mb"), ("0", 0, "")]


def whole(ctx, text):
    """texts that mean a single chunk"""
    n = ctx.int("N", 0, BIG)
    with _shim(ctx) as u:
        r = u.normalize_chunksize(text, 8, Z(n) if ctx.sym else n)
    ctx.check(r is None, "a single chunk")


def instances(tier):
    q = tier == "quick"
    out = []
    km = 8 if q else 14
    for e in (None, True, False):
        out.append(Inst("partition", evenly=e, kmax=km))
    out.append(Inst("split", kmax=8 if q else 24))
    out.append(Inst("number"))
    out.append(Inst("refused"))
    for text, amount, unit in TEXTS:
        if unit is None:
            out.append(Inst("whole", text=text))
        elif unit != "?":
            out.append(Inst("sizes", text=text, amount=amount, unit=unit))
    for call, (kinds, _f) in CHUNKED.items():
        for d in (False, True):
            if "ud"[d] in kinds and ("u" not in kinds or not d):
                long = ("path", 7, [2, 3, 5]) if "path" in call else ("grid", 6, [4, 5])
                for shape, n, cs in (("ladder~", 5, [2, 3, 4]), long):
                    w = ("int", -1, 1) if "bellman" in call else "one"
                    if q and "bellman" in call:
                        n -= 1
                    elif not q and "square" not in call:
                        shape += "+"
                    out.append(Inst("chunked", call=call, n=n, directed=d, weight=w, chunksizes=cs, shape=shape, shards=3))
            if "ud"[d] in kinds:
                bf = "bellman" in call
                n = 3
                w = ("int", -1, 1) if bf else "one"
                if bf and d:
                    n = 2
                out.append(Inst("chunked", call=call, n=n, directed=d, weight=w, chunksizes=[1, 2, "2 chunks"]))
                if not q:
                    out.append(Inst("chunked", call=call, n=n + 1, directed=d, weight=w if not bf else ("int", 0, 1), chunksizes=[1, 2, 3]))
    return out
