"""GraphBLAS operators and type casts on raw terms (SuiteSparse semantics)."""

from __future__ import annotations

import math

from . import terms as T
from .explore import Unsupported

_BITS = {
    "INT8": (8, True),
    "INT16": (16, True),
    "INT32": (32, True),
    "INT64": (64, True),
    "UINT8": (8, False),
    "UINT16": (16, False),
    "UINT32": (32, False),
    "UINT64": (64, False),
}


def kind(dtype):
    n = dtype.name
    if n == "BOOL":
        return "b"
    if n in _BITS:
        return "i"
    if n in ("FP32", "FP64"):
        return "r"
    raise Unsupported(f"dtype {n}")


def zero(dtype):
    return {"b": False, "i": 0, "r": 0.0}[kind(dtype)]


def one(dtype):
    return {"b": True, "i": 1, "r": 1.0}[kind(dtype)]


def fit(x, dtype):
    """bring a term of the right kind into the range of dtype (two's complement wrap)"""
    n = dtype.name
    if n in _BITS:
        bits, signed = _BITS[n]
        if bits == 64 and not signed and T.is_sym(x):
            s = T.sup(x)
            if s is None or min(s) < 0:
                return T.wrap(x, 64, False) if (s or _may_be_negative(x)) else x
            return x
        return T.wrap(x, bits, signed)
    return x


def _may_be_negative(x):
    return True


def cast(x, dtype):
    """C-style cast of a raw term to a GraphBLAS dtype"""
    k = kind(dtype)
    if k == "b":
        return T.to_bool(x)
    if k == "r":
        r = T.to_real(x)
        if dtype.name == "FP32" and T.is_const(r) and math.isfinite(r):
            import numpy as np

            return float(np.float32(r))
        return r
    kx = T.kind_of(x)
    if kx == "r" and T.is_const(x):
        lo, hi = limits(dtype)
        if math.isnan(x):
            return 0
        if x <= lo:
            return lo
        if x >= hi:
            return hi
        return int(x)
    if kx == "r":
        lo, hi = limits(dtype)
        r = T.to_int(x)
        if _BITS[dtype.name][0] < 64 or lo == 0:
            return T.if_(T.lt(r, lo), lo, T.if_(T.lt(hi, r), hi, r))
        return r
    return fit(T.to_int(x), dtype)


def limits(dtype):
    bits, signed = _BITS[dtype.name]
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def sqrt_term(x):
    x = T.to_real(x)
    if T.is_const(x):
        return math.sqrt(x) if x >= 0 else math.nan
    if T.FORK(T.lt(x, 0.0)):
        return math.nan
    return T.uf("sqrt", lambda v: math.sqrt(v) if v >= 0 else math.nan, x)


def cbrt_term(x):
    import numpy as np

    x = T.to_real(x)
    return T.uf("cbrt", lambda v: float(np.cbrt(v)), x)


# --------------------------------------------------------------------- binary
def _arith(f):
    return f


def _bool_as(name):
    return {
        "plus": "lor",
        "max": "lor",
        "times": "land",
        "min": "land",
        "minus": "lxor",
        "rminus": "lxor",
        "truediv": "first",
        "cdiv": "first",
        "div": "first",
        "rdiv": "second",
    }.get(name, name)


def _pow(a, b, k):
    if T.is_const(b) and b in (0, 1, 2, 3, 4):
        r = 1.0 if k == "r" else 1
        for _ in range(int(b)):
            r = T.mul(r, a)
        return r
    if T.is_const(a) and T.is_const(b):
        return float(a) ** float(b) if k == "r" else int(a) ** int(b)
    raise Unsupported("pow")


def binary_value(name, k, a, b, present=True):
    """apply a binary operator on operands already cast to the operator's input types"""
    if k == "b":
        name = _bool_as(name)
    if name in ("first", "any"):
        return a
    if name == "second":
        return b
    if name in ("pair", "oneb"):
        return {"b": True, "i": 1, "r": 1.0}[k]
    if name == "plus":
        return T.add(a, b)
    if name == "minus":
        return T.sub(a, b)
    if name == "rminus":
        return T.sub(b, a)
    if name == "times":
        return T.mul(a, b)
    if name in ("truediv",):
        return T.div_real(a, b, present)
    if name == "rtruediv":
        return T.div_real(b, a, present)
    if name in ("cdiv", "div"):
        return T.div_real(a, b, present) if k == "r" else T.idiv_trunc(a, b, present)
    if name == "rdiv":
        return T.div_real(b, a, present) if k == "r" else T.idiv_trunc(b, a, present)
    if name == "floordiv" and k == "i":
        return T.idiv_trunc(a, b, present)
    if name == "min":
        return T.min_(a, b)
    if name == "max":
        return T.max_(a, b)
    if name in ("eq", "iseq"):
        return T.eq(a, b)
    if name in ("ne", "isne"):
        return T.ne(a, b)
    if name in ("lt", "islt"):
        return T.lt(a, b)
    if name in ("gt", "isgt"):
        return T.lt(b, a)
    if name in ("le", "isle"):
        return T.le(a, b)
    if name in ("ge", "isge"):
        return T.le(b, a)
    if name == "lor":
        return T.b_or(T.to_bool(a), T.to_bool(b))
    if name == "land":
        return T.b_and(T.to_bool(a), T.to_bool(b))
    if name == "lxor":
        return T.b_xor(T.to_bool(a), T.to_bool(b))
    if name in ("lxnor", "eq"):
        return T.b_iff(T.to_bool(a), T.to_bool(b))
    if name == "pow":
        return _pow(a, b, k)
    if name in ("bor", "band", "bxor"):
        if T.is_const(a) and T.is_const(b):
            return {"bor": a | b, "band": a & b, "bxor": a ^ b}[name]
    raise Unsupported(f"binary op {name} on kind {k}")


_POSITIONAL2 = ("firsti", "firsti1", "firstj", "firstj1", "secondi", "secondi1", "secondj", "secondj1")


class Binary:
    """a typed GraphBLAS binary operator applied to raw terms"""

    def __init__(self, op):
        if op.opclass == "Monoid":
            op = op.binaryop
        self.op = op
        name = op.name.rsplit(".", 1)[-1]
        self.name = name
        self.positional = name in _POSITIONAL2
        self.t1 = op.type
        self.t2 = getattr(op, "type2", op.type)
        self.rt = op.return_type
        if not self.positional:
            self.k = kind(self.t1)

    def __call__(self, a, b, pos=None, present=True):
        """pos = (row, inner, col) for semirings: a at (row, inner), b at (inner, col)"""
        name = self.name
        if self.positional:
            (ai, aj), (bi, bj) = pos
            v = {"firsti": ai, "firstj": aj, "secondi": bi, "secondj": bj}[name.rstrip("1")]
            if name.endswith("1"):
                v += 1
            return cast(v, self.rt)
        a = cast(a, self.t1)
        b = cast(b, self.t2)
        r = binary_value(name, self.k, a, b, present)
        if name in ("iseq", "isne", "islt", "isgt", "isle", "isge", "lor", "land", "lxor", "lxnor"):
            r = cast(r, self.rt)
        if kind(self.rt) != T.kind_of(r):
            r = cast(r, self.rt)
        return fit(r, self.rt) if kind(self.rt) == "i" else r

    @property
    def is_any(self):
        return self.name == "any"


# ---------------------------------------------------------------------- unary
def unary_value(name, k, x, present=True):
    if name == "identity":
        return x
    if name == "ainv":
        return x if k == "b" else T.neg(x)
    if name in ("minv",):
        if k == "b":
            return True
        if k == "i":
            return T.idiv_trunc(1, x, present)
        return T.div_real(1.0, x, present)
    if name == "one":
        return {"b": True, "i": 1, "r": 1.0}[k]
    if name == "abs":
        return x if k == "b" else T.abs_(x)
    if name == "lnot":
        r = T.b_not(T.to_bool(x))
        return r
    if name == "sqrt":
        x = T.to_real(x)
        if T.is_sym(x) and present is not True:
            if T.FORK(T.b_and(present, T.lt(x, 0.0))):
                return math.nan
            return T.uf("sqrt", lambda v: math.sqrt(v) if v >= 0 else 0.0, x)
        return sqrt_term(x)
    if name == "cbrt":
        return cbrt_term(x)
    if name == "isinf":
        return T.is_const(x) and isinstance(x, float) and math.isinf(x)
    if name == "isnan":
        return T.is_const(x) and isinstance(x, float) and math.isnan(x)
    if name == "isfinite":
        return not (T.is_const(x) and isinstance(x, float) and not math.isfinite(x))
    if name in ("signum",):
        return T.if_(T.lt(x, 0), T.neg(one_of(k)), T.if_(T.lt(0, x), one_of(k), zero_of(k)))
    if name in ("ceil", "floor", "trunc", "round") and k == "r":
        if T.is_const(x):
            return float({"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "round": round}[name](x))
        z = T.z3
        if name == "floor":
            return T.to_real(z.ToInt(x))
        if name == "ceil":
            return T.to_real(-z.ToInt(-x))
    if name in ("exp", "log", "log2", "log10", "sin", "cos") and T.is_const(x):
        try:
            return float(getattr(math, name)(x))
        except ValueError:
            return math.nan
    raise Unsupported(f"unary op {name} on kind {k}")


def one_of(k):
    return {"b": True, "i": 1, "r": 1.0}[k]


def zero_of(k):
    return {"b": False, "i": 0, "r": 0.0}[k]


class Unary:
    def __init__(self, op):
        self.op = op
        name = op.name.rsplit(".", 1)[-1]
        self.name = name
        self.positional = name in ("positioni", "positioni1", "positionj", "positionj1")
        self.t1 = op.type
        self.rt = op.return_type

    def __call__(self, x, i, j, present=True):
        if self.positional:
            v = i if self.name.startswith("positioni") else j
            return cast(v + (1 if self.name.endswith("1") else 0), self.rt)
        k = kind(self.t1)
        r = unary_value(self.name, k, cast(x, self.t1), present)
        if kind(self.rt) != T.kind_of(r):
            r = cast(r, self.rt)
        return fit(r, self.rt) if kind(self.rt) == "i" else r


# ------------------------------------------------------- index-unary / select
def index_value(name, x, i, j, thunk, ndim):
    if name == "rowindex":
        return T.add(i, thunk)
    if name == "colindex":
        return T.add(j, thunk)
    if name == "index":
        return T.add(i, thunk)
    if name == "diagindex":
        return T.add(j - i, thunk)
    if name == "tril":
        return T.le(j, T.add(i, thunk))
    if name == "triu":
        return T.le(T.add(i, thunk), j)
    if name == "diag":
        return T.eq(j, T.add(i, thunk))
    if name == "offdiag":
        return T.ne(j, T.add(i, thunk))
    if name in ("rowle", "indexle"):
        return T.le(i, thunk)
    if name in ("rowgt",):
        return T.lt(thunk, i)
    if name == "colle":
        return T.le(j, thunk)
    if name == "colgt":
        return T.lt(thunk, j)
    if name == "valueeq":
        return T.eq(x, thunk)
    if name == "valuene":
        return T.ne(x, thunk)
    if name == "valuelt":
        return T.lt(x, thunk)
    if name == "valuele":
        return T.le(x, thunk)
    if name == "valuegt":
        return T.lt(thunk, x)
    if name == "valuege":
        return T.le(thunk, x)
    raise Unsupported(f"index op {name}")


class IndexOp:
    def __init__(self, op):
        self.op = op
        self.name = op.name.rsplit(".", 1)[-1]
        self.rt = op.return_type
        self.t1 = op.type
        self.t2 = getattr(op, "thunk_type", None) or getattr(op, "type2", None)

    def __call__(self, x, i, j, thunk, ndim):
        if self.name.startswith("value"):
            x = cast(x, self.t1)
            thunk = cast(thunk, self.t1)
        else:
            thunk = T.to_int(thunk)
        r = index_value(self.name, x, i, j, thunk, ndim)
        if kind(self.rt) != T.kind_of(r):
            r = cast(r, self.rt)
        return r


# -------------------------------------------------------------------- monoids
def monoid_identity(op):
    """raw identity of a typed monoid"""
    dt = op.return_type
    k = kind(dt)
    n = op.name.rsplit(".", 1)[-1]
    if k == "b":
        n = _bool_as(n)
        if n in ("land", "lxnor", "eq"):
            return True
        return False
    if n in ("plus", "any", "bor", "bxor"):
        return zero(dt)
    if n == "times":
        return one(dt)
    if n == "min":
        return math.inf if k == "r" else limits(dt)[1]
    if n == "max":
        return -math.inf if k == "r" else limits(dt)[0]
    if n in ("lor", "lxor"):
        return zero(dt)
    if n in ("land", "lxnor"):
        return one(dt)
    raise Unsupported(f"monoid {n}")


class Monoid:
    """reduces lists of (presence, value)"""

    def __init__(self, op, fresh):
        self.op = op
        if op.opclass == "BinaryOp":
            self.bin = Binary(op)
            self.name = self.bin.name
        else:
            self.bin = Binary(op)
            self.name = self.bin.name
        self.rt = self.bin.rt
        self.fresh = fresh
        self.k = kind(self.rt)

    def reduce(self, items):
        """items: list of (p, v) in order; returns (presence, value) of the monoid sum"""
        items = [(p, cast(v, self.rt)) for p, v in items if p is not False]
        if not items:
            return False, zero(self.rt)
        pres = T.b_or(*[p for p, _ in items])
        name = self.name
        k = self.k
        if k == "b":
            name = _bool_as(name)
        vals = [v for _, v in items]
        if all(_same(v, vals[0]) for v in vals[1:]) and (
            name in ("any", "min", "max", "lor", "land", "first", "second")
        ):
            return pres, vals[0]
        if name == "any":
            return pres, self._any(items)
        if name == "lor" and k == "b":
            return pres, T.b_or(*[T.b_and(p, v) for p, v in items])
        if name == "land" and k == "b":
            return pres, T.b_and(*[T.b_or(T.b_not(p), v) for p, v in items])
        if name == "plus":
            if not any(T.special(v) for v in vals):
                r = zero(self.rt)
                for p, v in items:
                    r = T.add(r, T.if_(p, v, zero(self.rt)))
                return pres, fit(r, self.rt) if k == "i" else r
        # generic left fold with presence
        p0, v0 = items[0]
        for p, v in items[1:]:
            both = T.b_and(p0, p)
            if both is False:
                c = v
            else:
                c = self.bin(v0, v, present=both)
            v0 = T.if_(both, c, T.if_(p, v, v0)) if both is not True else c
            p0 = T.b_or(p0, p)
        return pres, v0

    def _any(self, items):
        """any element: nondeterministic choice unless the candidates are identical"""
        n = len(items)
        r = items[-1][1]
        p_later = items[-1][0]
        for p, v in reversed(items[:-1]):
            if _same(v, r):
                p_later = T.b_or(p, p_later)
                continue
            ch = self.fresh()
            take = T.b_and(p, T.b_or(ch, T.b_not(p_later)))
            r = T.if_(take, v, r)
            p_later = T.b_or(p, p_later)
        return r


def _same(a, b):
    if T.is_const(a) and T.is_const(b):
        return type(a) is type(b) and (a == b)
    if T.is_sym(a) and T.is_sym(b):
        return a.eq(b)
    return False
