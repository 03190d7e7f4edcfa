"""Term layer: Python constants or z3 terms, with light constant folding.

A *raw* term is one of
  * ``bool`` / ``int`` / ``float`` (finite, inf or nan) Python constants,
  * ``z3.BoolRef``                  (dtype BOOL, and all presence bits),
  * ``z3.ArithRef`` of sort Int     (integer dtypes),
  * ``z3.ArithRef`` of sort Real    (floating-point dtypes; +-inf and nan are only ever constants).

Terms that can only take a few values (counts of 0/1 presence bits, ...) carry their *support*
so that products and quotients of two such terms stay linear (case split over the support).
"""

from __future__ import annotations

import math
import sys
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if "z3" not in sys.modules:
    sys.path.append(_VT)
    try:
        import z3  # noqa: E402
    finally:
        sys.path.remove(_VT)
import z3  # noqa: E402

MAXSUP = 64

_sup = {}  # ast id -> frozenset of possible constants
_rng = {}  # ast id -> (least, greatest) possible value, when there is no support
_keep = []  # keeps asts alive so that ids are not reused


def reset():
    _sup.clear()
    _rng.clear()
    _keep.clear()
    set_atoms([])


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_const(x):
    return not isinstance(x, z3.ExprRef)


def set_sup(t, s):
    if s is not None and len(s) <= MAXSUP:
        _keep.append(t)
        _sup[t.get_id()] = frozenset(s)
    return t


def sup(t):
    if isinstance(t, z3.ExprRef):
        return _sup.get(t.get_id())
    return (t,)


def rng(t):
    """bounds of a term, or None"""
    if isinstance(t, z3.ExprRef):
        i = t.get_id()
        s = _sup.get(i)
        return (min(s), max(s)) if s else _rng.get(i)
    return None if isinstance(t, float) and (t != t or t in (math.inf, -math.inf)) else (t, t)


def set_rng(t, f, *args):
    """f: bounds of the arguments -> bounds of t (only integers)"""
    if isinstance(t, z3.ArithRef) and t.is_int() and t.get_id() not in _sup:
        rs = [rng(a) for a in args]
        if all(r is not None for r in rs):
            _keep.append(t)
            _rng[t.get_id()] = f(*rs)
    return t


def _corners(a, b):
    v = [x * y for x in a for y in b]
    return min(v), max(v)


# ---------------------------------------------------------------- booleans
def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    if len(out) == 2:
        if out[0].eq(out[1]):
            return out[0]
        if (z3.is_not(out[0]) and out[0].arg(0).eq(out[1])) or (
            z3.is_not(out[1]) and out[1].arg(0).eq(out[0])
        ):
            return False
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    if len(out) == 2:
        if out[0].eq(out[1]):
            return out[0]
        if (z3.is_not(out[0]) and out[0].arg(0).eq(out[1])) or (
            z3.is_not(out[1]) and out[1].arg(0).eq(out[0])
        ):
            return True
    return z3.Or(*out)


def b_xor(a, b):
    if a is True:
        return b_not(b)
    if a is False:
        return b
    if b is True:
        return b_not(a)
    if b is False:
        return a
    if a.eq(b):
        return False
    return z3.Xor(a, b)


def b_iff(a, b):
    return b_not(b_xor(a, b))


# ---------------------------------------------------------------- sorts
def kind_of(x):
    """'b', 'i' or 'r'"""
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, (float, Fraction)):
        return "r"
    if isinstance(x, z3.BoolRef):
        return "b"
    if x.is_int():
        return "i"
    return "r"


def special(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def to_z3(x):
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    if isinstance(x, float):
        if special(x):
            raise SpecialFloat(x)
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    raise TypeError(type(x))


class SpecialFloat(Exception):
    pass


def norm_const(x):
    """numpy scalar -> Python constant"""
    if isinstance(x, (bool, int, float)):
        return x
    if hasattr(x, "item"):
        return x.item()
    if isinstance(x, Fraction):
        return float(x)
    raise TypeError(f"not a constant: {type(x)}")


def to_int(x):
    """cast a raw term to Int (C semantics: truncation; NaN -> 0; bool -> 0/1)"""
    k = kind_of(x)
    if k == "i":
        return x
    if k == "b":
        if isinstance(x, bool):
            return int(x)
        return set_sup(z3.If(x, z3.IntVal(1), z3.IntVal(0)), (0, 1))
    if is_const(x):
        if special(x):
            if math.isnan(x):
                return 0
            return 2**63 - 1 if x > 0 else -(2**63)
        return int(x)
    s = sup(x)
    if z3.is_to_real(x):
        return x.arg(0)
    r = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    return set_sup(r, {int(v) for v in s}) if s else r


def to_num(x):
    return to_int(x) if kind_of(x) == "b" else x


def to_real(x):
    k = kind_of(x)
    if k == "r":
        return float(x) if isinstance(x, Fraction) else x
    if k == "b":
        if isinstance(x, bool):
            return float(x)
        return set_sup(z3.If(x, z3.RealVal(1), z3.RealVal(0)), (0.0, 1.0))
    if is_const(x):
        return float(x)
    if z3.is_int_value(x):
        return float(x.as_long())
    s = sup(x)
    if s:
        # keep If-chains over constants instead of to_real
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            r = if_(x.arg(0), to_real(_unval(x.arg(1))), to_real(_unval(x.arg(2))))
            return r
        return set_sup(z3.ToReal(x), {float(v) for v in s})
    return z3.ToReal(x)


def _unval(x):
    if z3.is_int_value(x):
        return x.as_long()
    return x


def to_bool(x):
    k = kind_of(x)
    if k == "b":
        return x
    if is_const(x):
        return bool(x)
    return ne(x, 0 if k == "i" else 0.0)


def coerce2(a, b):
    """bring two raw terms to a common kind"""
    ka, kb = kind_of(a), kind_of(b)
    if ka == kb:
        return a, b, ka
    if "r" in (ka, kb):
        return to_real(a), to_real(b), "r"
    return to_int(a), to_int(b), "i"


def if_(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    ka, kb = kind_of(a), kind_of(b)
    if ka != kb:
        a, b, ka = coerce2(a, b)
    if is_const(a) and is_const(b):
        if a == b or (special(a) and special(b) and math.isnan(a) and math.isnan(b)):
            return a
        if ka == "b":
            return c if a else b_not(c)
    elif is_sym(a) and is_sym(b) and a.eq(b):
        return a
    if ka == "b":
        if a is True:
            return b_or(c, b)
        if a is False:
            return b_and(b_not(c), b)
        if b is True:
            return b_or(b_not(c), a)
        if b is False:
            return b_and(c, a)
        return z3.If(c, a, b)
    if special(a) or special(b):
        c = FORK(c)
        return a if c else b
    r = z3.If(c, to_z3(a), to_z3(b))
    sa, sb = sup(a), sup(b)
    if sa and sb:
        set_sup(r, set(sa) | set(sb))
    return set_rng(r, lambda x, y: (min(x[0], y[0]), max(x[1], y[1])), a, b)


# FORK is installed by the explorer: decides a z3 Bool on the current path.
def FORK(c):
    raise RuntimeError("no explorer active")


def eq(a, b):
    a, b, k = coerce2(a, b)
    if is_const(a) and is_const(b):
        return a == b
    if k == "b":
        return b_iff(a, b)
    if special(a) or special(b):
        return False
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    sa, sb = sup(a), sup(b)
    if sa and sb and not (set(sa) & set(sb)):
        return False
    if is_sym(b) and not is_sym(a):
        a, b = b, a
    r = _push_cmp(a, b, "eq")
    if r is not None:
        return r
    return to_z3(a) == to_z3(b)


def _push_cmp(a, b, op, depth=0):
    """compare an if-tree with constant leaves against a constant"""
    if is_sym(b) or not is_sym(a):
        return None
    s = sup(a)
    if not s:
        return None
    f = {"eq": lambda x: x == b, "lt": lambda x: x < b, "le": lambda x: x <= b}[op]
    hit = [x for x in s if f(x)]
    if not hit:
        return False
    if len(hit) == len(s):
        return True
    if z3.is_app_of(a, z3.Z3_OP_ITE) and depth < 8:
        x, y = _val(a.arg(1)), _val(a.arg(2))
        px = f(x) if not is_sym(x) else _push_cmp(x, b, op, depth + 1)
        if px is None:
            return None
        py = f(y) if not is_sym(y) else _push_cmp(y, b, op, depth + 1)
        if py is None:
            return None
        return if_(a.arg(0), px, py)
    return None


def _val(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        fr = x.as_fraction()
        f = float(fr)
        if Fraction(f) == fr:
            return f
        return x
    return x


def ne(a, b):
    return b_not(eq(a, b))


def lt(a, b):
    a, b, k = coerce2(a, b)
    if k == "b":
        return b_and(b_not(a), b)
    if is_const(a) and is_const(b):
        return a < b
    if special(a):
        if math.isnan(a):
            return False
        return a < 0  # -inf < finite
    if special(b):
        if math.isnan(b):
            return False
        return b > 0
    sa, sb = sup(a), sup(b)
    if sa and sb:
        if max(sa) < min(sb):
            return True
        if min(sa) >= max(sb):
            return False
    if is_sym(a) and is_sym(b) and a.eq(b):
        return False
    r = _push_cmp(a, b, "lt")
    if r is not None:
        return r
    return to_z3(a) < to_z3(b)


def le(a, b):
    a, b, k = coerce2(a, b)
    if k == "b":
        return b_or(b_not(a), b)
    if is_const(a) and is_const(b):
        return a <= b
    if special(a):
        if math.isnan(a):
            return False
        return a < 0
    if special(b):
        if math.isnan(b):
            return False
        return b > 0
    sa, sb = sup(a), sup(b)
    if sa and sb:
        if max(sa) <= min(sb):
            return True
        if min(sa) > max(sb):
            return False
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    r = _push_cmp(a, b, "le")
    if r is not None:
        return r
    return to_z3(a) <= to_z3(b)


# ---------------------------------------------------------------- arithmetic
def _num2(a, b):
    a, b, k = coerce2(a, b)
    if k == "b":
        return to_int(a), to_int(b), "i"
    return a, b, k


def _supop(f, a, b):
    sa, sb = sup(a), sup(b)
    if sa and sb and len(sa) * len(sb) <= 4096:
        if any(isinstance(x, float) for x in sa):
            s = set()
            for x in sa:
                for y in sb:
                    q = f(Fraction(x), Fraction(y))
                    v = float(q)
                    if Fraction(v) != q:
                        return None  # rounded: not usable for exact case splits
                    s.add(v)
        else:
            s = {f(x, y) for x in sa for y in sb}
        if len(s) <= MAXSUP:
            return s
    return None


def add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    a, b, k = _num2(a, b)
    if is_const(a) and is_const(b):
        return a + b
    if is_const(a):
        a, b = b, a
    if is_const(b):
        if special(b):
            return b
        if b == 0:
            return a
    r = to_z3(a) + to_z3(b)
    set_sup(r, _supop(lambda x, y: x + y, a, b))
    return set_rng(r, lambda x, y: (x[0] + y[0], x[1] + y[1]), a, b)


def sub(a, b):
    a, b, k = _num2(a, b)
    if is_const(a) and is_const(b):
        return a - b
    if special(a):
        return a
    if special(b):
        return -b
    if is_const(b) and b == 0:
        return a
    if is_sym(a) and is_sym(b) and a.eq(b):
        return 0 if k == "i" else 0.0
    r = to_z3(a) - to_z3(b)
    set_sup(r, _supop(lambda x, y: x - y, a, b))
    return set_rng(r, lambda x, y: (x[0] - y[1], x[1] - y[0]), a, b)


def neg(a):
    if kind_of(a) == "b":
        a = to_int(a)
    if is_const(a):
        return -a
    s = sup(a)
    r = set_sup(-a, {-x for x in s} if s else None)
    return set_rng(r, lambda x: (-x[1], -x[0]), a)


def mul(a, b):
    a, b, k = _num2(a, b)
    if is_const(a) and is_const(b):
        return a * b
    if is_const(a):
        a, b = b, a
    # a symbolic
    if is_const(b):
        if special(b):
            if math.isnan(b):
                return b
            if FORK(lt(0, a)):
                return b
            if FORK(lt(a, 0)):
                return -b
            return math.nan
        if b == 0:
            return b * 0
        if b == 1:
            return a
        r = set_sup(a * to_z3(b), _supop(lambda x, y: x * y, a, b))
        return set_rng(r, _corners, a, b)
    sa, sb = sup(a), sup(b)
    if sb and (not sa or len(sb) < len(sa)):
        a, b, sa, sb = b, a, sb, sa
    # a has (smaller) support
    if sa and len(sa) <= 16:
        vals = sorted(sa)
        r = mul(b, vals[-1])
        for v in vals[-2::-1]:
            r = if_(eq(a, v), mul(b, v), r)
        s = _supop(lambda x, y: x * y, a, b)
        if is_sym(r) and s:
            set_sup(r, s)
        return set_rng(r, _corners, a, b)
    return set_rng(a * b, _corners, a, b)


def div_real(a, b, present=True):
    """IEEE-like division of two Real terms; forks when the divisor may be zero"""
    a, b = to_real(a), to_real(b)
    if is_const(b):
        if b == 0:
            if is_const(a):
                if a == 0 or math.isnan(a):
                    return math.nan
                return math.copysign(math.inf, a) * math.copysign(1.0, b)
            if FORK(b_and(present, lt(0, a))):
                return math.inf * math.copysign(1.0, b)
            if FORK(b_and(present, lt(a, 0))):
                return -math.inf * math.copysign(1.0, b)
            return math.nan
        if is_const(a):
            return a / b
        if special(b):
            return b if math.isnan(b) else 0.0
        return _div_by_const(a, b)
    sb = sup(b)
    if sb and len(sb) <= 24:
        vals = sorted(sb)
        if 0.0 in vals:
            if FORK(b_and(present, eq(b, 0.0))):
                return div_real(a, 0.0, present)
            vals.remove(0.0)
            if not vals:
                return 0.0
        if special(a):
            if FORK(lt(b, 0.0)):
                return -a
            return a
        r = _div_by_const(a, vals[-1])
        for v in vals[-2::-1]:
            r = if_(eq(b, v), _div_by_const(a, v), r)
        return r
    if special(a):
        if FORK(lt(b, 0.0)):
            return -a
        return a
    if FORK(b_and(present, eq(b, 0.0))):
        return div_real(a, 0.0, present)
    return to_z3(a) / b


def _div_by_const(a, v):
    """exact a / v (no rounding when a is symbolic)"""
    if is_const(a):
        if a == 0:
            return 0.0
        f = Fraction(a) / Fraction(v)
        if Fraction(float(f)) == f:
            return float(f)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    f = 1 / Fraction(v)
    r = a * z3.RealVal(f"{f.numerator}/{f.denominator}")
    return set_sup(r, _supop(lambda x, y: x / y, a, float(v)))


def idiv_trunc(a, b, present=True):
    """C integer division (truncating); x/0 follows SuiteSparse: 0/0=0, x/0=max/min"""
    if is_const(a) and is_const(b):
        if b == 0:
            return 0 if a == 0 else (2**63 - 1 if a > 0 else -(2**63))
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if is_sym(b) and FORK(b_and(present, eq(b, 0))):
        b = 0
    if is_const(b) and b == 0:
        return if_(eq(a, 0), 0, if_(lt(0, a), 2**63 - 1, -(2**63)))
    az, bz = to_z3(a), to_z3(b)
    absa = z3.If(az >= 0, az, -az)
    absb = z3.If(bz >= 0, bz, -bz)
    q = absa / absb
    return z3.If((az >= 0) == (bz >= 0), q, -q)


def min_(a, b):
    a, b, k = coerce2(a, b)
    if k == "b":
        return b_and(a, b)
    if special(a):
        if math.isnan(a):
            return b  # fmin semantics
        return b if a > 0 else a
    if special(b):
        if math.isnan(b):
            return a
        return a if b > 0 else b
    if is_const(a) and is_const(b):
        return min(a, b)
    return if_(le(a, b), a, b)


def max_(a, b):
    a, b, k = coerce2(a, b)
    if k == "b":
        return b_or(a, b)
    if special(a):
        if math.isnan(a):
            return b
        return a if a > 0 else b
    if special(b):
        if math.isnan(b):
            return a
        return b if b > 0 else a
    if is_const(a) and is_const(b):
        return max(a, b)
    return if_(le(b, a), a, b)


def abs_(a):
    if is_const(a):
        return abs(a)
    return if_(lt(a, 0 if kind_of(a) == "i" else 0.0), neg(a), a)


def wrap(x, bits, signed):
    """two's complement wrap of an Int term"""
    if bits >= 64 and is_sym(x) and signed:
        return x  # stated assumption: 64-bit signed arithmetic does not overflow within bounds
    m = 1 << bits
    if is_const(x):
        x &= m - 1
        if signed and x >= m >> 1:
            x -= m
        return x
    s = sup(x)
    lo, hi = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
    w = rng(x)
    if w is not None and w[0] >= lo and w[1] <= hi:
        return x
    if s:
        r = wrap(min(s), bits, signed)
        out = to_z3(r)
        news = {r}
        for v in s:
            w = wrap(v, bits, signed)
            news.add(w)
            if w != r:
                out = z3.If(x == v, z3.IntVal(w), out)
        return set_sup(out, news)
    if signed:
        return ((x + (m >> 1)) % m) - (m >> 1)
    return z3.If(z3.And(x >= 0, x < m), x, x % m)


# uninterpreted real functions (exact on constants)
_UF = {}


def uf(name, pyfunc, x):
    x = to_real(x)
    if is_const(x):
        return pyfunc(x)
    s = sup(x)
    if s and len(s) <= 24:
        vals = sorted(s)
        r = pyfunc(vals[-1])
        for v in vals[-2::-1]:
            r = if_(eq(x, v), pyfunc(v), r)
        return r
    if name not in _UF:
        _UF[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
    r = _UF[name](x)
    AXIOM(name, x, r)
    return r


def AXIOM(name, x, r):
    """installed by the explorer: instantiate defining axioms of an uninterpreted function"""


def ssum(xs, zero=0):
    r = zero
    for x in xs:
        r = add(r, x)
    return r


# ---------------------------------------------------------------- terms over a few atoms
# When all that is symbolic is a few Booleans (the shapes with hundreds of nodes), a term is kept as
# its table of values, one per assignment of the atoms, and rebuilt from it: sums of hundreds of
# presence bits stay small.
_atoms = []
_table = {}  # ast id -> tuple of constants
_built = {}  # tuple -> term
_memo = {}


def set_atoms(ps):
    _table.clear()
    _built.clear()
    _memo.clear()
    _atoms[:] = ps
    for i, p in enumerate(ps):
        row = tuple(bool(m >> i & 1) for m in range(1 << len(ps)))
        _table[p.get_id()] = row
        _built[bool, row] = p


def add_atom(p):
    if not any(p.eq(q) for q in _atoms):
        set_atoms([*_atoms, p])


def _rebuild(row):
    ty = type(row[0])
    if any(type(v) is not ty for v in row):
        return None
    if any(v == row[0] for v in row) and all(v == row[0] for v in row):
        return row[0]
    r = _built.get((ty, row))
    if r is not None:
        return r
    if ty is bool:
        r = z3.Or(
            *[
                z3.And(*[p if m >> i & 1 else z3.Not(p) for i, p in enumerate(_atoms)])
                for m, v in enumerate(row)
                if v
            ]
        )
    else:
        if ty is float and any(special(v) for v in row):
            return None

        def build(i, m):
            if i < 0:
                return to_z3(row[m])
            hi, lo = build(i - 1, m | 1 << i), build(i - 1, m)
            return hi if hi.eq(lo) else z3.If(_atoms[i], hi, lo)

        r = build(len(_atoms) - 1, 0)
        _keep.append(r)
        _sup[r.get_id()] = frozenset(row)
    _keep.append(r)
    _built[ty, row] = r
    _table[r.get_id()] = row
    return r


def _lift(f):
    def g(*args):
        if not _atoms:
            return f(*args)
        rows = []
        key = [f]
        sym = False
        for a in args:
            if isinstance(a, z3.ExprRef):
                i = a.get_id()
                row = _table.get(i)
                if row is None:
                    return f(*args)
                sym = True
                rows.append(row)
                key.append(("t", i))
            else:
                rows.append(None)
                key.append((type(a), a))
        if not sym:
            return f(*args)
        key = tuple(key)
        r = _memo.get(key)
        if r is not None:
            return r
        out = []
        for m in range(1 << len(_atoms)):
            v = f(*[a if row is None else row[m] for a, row in zip(args, rows)])
            if isinstance(v, z3.ExprRef):
                return f(*args)
            out.append(v)
        r = _rebuild(tuple(out))
        if r is None:
            return f(*args)
        _memo[key] = r
        return r

    g.__name__ = f.__name__
    g.__doc__ = f.__doc__
    return g


for _name in (
    "b_not b_and b_or b_xor b_iff to_int to_num to_real to_bool if_ eq ne lt le add sub neg mul "
    "min_ max_ abs_ wrap div_real idiv_trunc uf"
).split():
    globals()[_name] = _lift(globals()[_name])
