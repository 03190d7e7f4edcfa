"""Python-level symbolic values handed to the code under test."""

from __future__ import annotations

import math
import numbers
import operator

import numpy as np

from . import explore
from . import terms as T


def wrapv(t):
    """raw term -> Python object seen by the code under test"""
    if T.is_const(t):
        return t
    k = T.kind_of(t)
    if k == "b":
        return SymBool(t)
    if k == "i":
        return SymInt(t)
    return SymReal(t)


def raw(x):
    """Python object -> raw term (TypeError if it is not a number)"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, T.z3.ExprRef):
        return x
    from fractions import Fraction

    if isinstance(x, Fraction):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return raw(x.item())
    # graphblas Scalar
    if type(x).__name__ == "Scalar":
        v = x.value
        if v is None:
            raise TypeError("empty Scalar")
        return raw(v)
    raise TypeError(f"not a number: {type(x)}")


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, Sym) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<{type(self).__name__} {str(self.t)[:60]}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        # needed when used as a dict key: decide the value
        return hash(explore.cur().concretize(self.t))

    def __bool__(self):
        return explore.cur().fork(T.to_bool(self.t))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy-scalar-like helpers
    def item(self):
        return self

    @property
    def dtype(self):
        return {
            "b": np.dtype(bool),
            "i": np.dtype(np.int64),
            "r": np.dtype(np.float64),
        }[T.kind_of(self.t)]

    def tolist(self):
        return self

    def conjugate(self):
        return self

    def _cmp(self, other, f):
        try:
            o = raw(other)
        except TypeError:
            return NotImplemented
        return wrapv(f(self.t, o))

    def __eq__(self, other):
        if other is None or isinstance(other, (str, tuple, list)):
            return False
        return self._cmp(other, T.eq)

    def __ne__(self, other):
        if other is None or isinstance(other, (str, tuple, list)):
            return True
        return self._cmp(other, T.ne)

    def __lt__(self, other):
        return self._cmp(other, T.lt)

    def __le__(self, other):
        return self._cmp(other, T.le)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: T.lt(b, a))

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: T.le(b, a))

    def _bin(self, other, f):
        try:
            o = raw(other)
        except TypeError:
            return NotImplemented
        return wrapv(f(self.t, o))

    def __add__(self, o):
        return self._bin(o, T.add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: T.add(b, a))

    def __sub__(self, o):
        return self._bin(o, T.sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: T.sub(b, a))

    def __mul__(self, o):
        return self._bin(o, T.mul)

    def __rmul__(self, o):
        return self._bin(o, T.mul)

    @staticmethod
    def _truediv(a, b):
        a, b = T.to_real(a), T.to_real(b)
        # Python raises on division by zero
        if T.is_sym(b):
            if T.FORK(T.eq(b, 0.0)):
                raise ZeroDivisionError("division by zero")
            return T.div_real(a, b)
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return T.div_real(a, b)

    def __truediv__(self, o):
        return self._bin(o, self._truediv)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: self._truediv(b, a))

    @staticmethod
    def _floordiv(a, b):
        if T.FORK(T.eq(b, 0)):
            raise ZeroDivisionError
        if T.kind_of(a) == "r" or T.kind_of(b) == "r":
            q = T.div_real(a, b)
            return T.to_real(T.z3.ToInt(T.to_z3(q))) if T.is_sym(q) else float(math.floor(q))
        a, b = T.to_int(a), T.to_int(b)
        if T.is_const(a) and T.is_const(b):
            return a // b
        if T.is_const(b):
            if b > 0:
                return T.to_z3(a) / b
            return T.to_z3(T.neg(a)) / (-b)
        b = explore.cur().concretize(b)
        return Sym._floordiv(a, b)

    def __floordiv__(self, o):
        return self._bin(o, self._floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: self._floordiv(b, a))

    @staticmethod
    def _mod(a, b):
        return T.sub(a, T.mul(b, Sym._floordiv(a, b)))

    def __mod__(self, o):
        return self._bin(o, self._mod)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: self._mod(b, a))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1 if T.kind_of(self.t) != "r" else 1.0
            for _ in range(o):
                r = T.mul(r, self.t)
            return wrapv(r)
        return float(self) ** float(o)

    def __rpow__(self, o):
        return o ** explore.cur().concretize(self.t)

    def __neg__(self):
        return wrapv(T.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrapv(T.abs_(self.t if T.kind_of(self.t) != "b" else T.to_int(self.t)))

    # numpy object ufuncs look these up as methods
    def sqrt(self):
        from .ops import sqrt_term

        return wrapv(sqrt_term(self.t))

    def cbrt(self):
        from .ops import cbrt_term

        return wrapv(cbrt_term(self.t))

    def is_integer(self):
        t = self.t
        if T.kind_of(t) != "r":
            return True
        return wrapv(T.z3.IsInt(t))

    def __float__(self):
        return float(explore.cur().concretize(self.t))

    def __int__(self):
        t = self.t
        return int(explore.cur().concretize(T.to_int(t)))

    def __trunc__(self):
        return wrapv(T.to_int(self.t))

    def __round__(self, n=None):
        if T.kind_of(self.t) != "r":
            return self
        return round(float(self), n)

    def __complex__(self):
        return complex(float(self))


class SymBool(Sym):
    __slots__ = ()

    def __and__(self, o):
        if isinstance(o, (bool, SymBool, np.bool_)):
            return self._bin(o, T.b_and)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool, np.bool_)):
            return self._bin(o, T.b_or)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool, np.bool_)):
            return self._bin(o, T.b_xor)
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return wrapv(T.b_not(self.t))

    def __index__(self):
        return int(bool(self))

    def logical_not(self):
        return wrapv(T.b_not(self.t))


class SymInt(Sym):
    __slots__ = ()

    def __index__(self):
        return int(self)

    @property
    def real(self):
        return self

    def bit_length(self):
        return int(self).bit_length()


class SymReal(Sym):
    __slots__ = ()

    @property
    def real(self):
        return self


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)
numbers.Integral.register(SymBool)
_ = operator
