"""Symbolic GraphBLAS: a model of the SuiteSparse:GraphBLAS C API under the real python-graphblas.

``install()`` replaces, inside the *Python* layer of python-graphblas, every crossing into the C
library (``call``, ``ffi.new``/``ffi.cast``, the few direct ``lib`` calls, iterators, import/export)
by the functions below.  The code of /repo and all of python-graphblas' own Python code (dispatch,
dtype unification, recipes, masks, expressions, indexing, aggregators, ...) runs unmodified.

A GraphBLAS object is an ``Obj``: a mapping position -> (presence, value) of raw terms.
"""

from __future__ import annotations

import numpy as np

from . import explore
from . import ops
from . import terms as T
from .explore import Unsupported
from .ops import Binary, IndexOp, Monoid, Unary, cast
from .proxy import Sym, SymBool, SymInt, SymReal, raw, wrapv

z3 = T.z3


class Obj:
    """contents of one GrB_Vector / GrB_Matrix / GrB_Scalar"""

    __slots__ = ("dtype", "nrows", "ncols", "data", "iso", "version", "uid")
    _n = 0

    def __init__(self, dtype, nrows, ncols, data=None):
        self.dtype = dtype
        self.nrows = nrows
        self.ncols = ncols
        self.data = {} if data is None else data
        self.iso = None
        Obj._n += 1
        self.uid = Obj._n

    def set(self, data):
        self.data = {k: pv for k, pv in data.items() if pv[0] is not False}
        self.iso = None

    def copy(self):
        o = Obj(self.dtype, self.nrows, self.ncols, dict(self.data))
        o.iso = self.iso
        return o

    def nvals(self):
        r = 0
        for p, _ in self.data.values():
            r = T.add(r, T.to_int(p))
        return r

    def items(self):
        """present items in row-major order, deciding presence on the current path"""
        for k in sorted(self.data):
            p, v = self.data[k]
            if p is True or T.FORK(p):
                yield k, v

    def decide(self):
        """decide all presence bits on the current path (keeps the object consistent)"""
        out = {}
        for k in sorted(self.data):
            p, v = self.data[k]
            if p is True or T.FORK(p):
                out[k] = (True, v)
        return out

    def is_iso(self):
        if self.iso is None:
            vals = [(p, v) for p, v in self.data.values()]
            if not vals:
                self.iso = False
            else:
                E = explore.cur()
                same = []
                for a in range(len(vals)):
                    for b in range(a):
                        same.append(
                            T.b_or(
                                T.b_not(T.b_and(vals[a][0], vals[b][0])),
                                T.eq(vals[a][1], vals[b][1]),
                            )
                        )
                alleq = T.b_and(*same)
                hook = ISO_HOOK
                b = hook(self, alleq) if hook is not None else None
                if b is None:
                    b = E.fresh("iso", z3.BoolSort()) if alleq is not False else False
                    if T.is_sym(b):
                        E.assume(T.b_or(T.b_not(b), alleq))
                self.iso = b
        return self.iso


ISO_HOOK = None
CALLS = {}  # C function name -> number of modelled calls


# ------------------------------------------------------------------ pointers
class FakePtr:
    """stands for a cffi pointer created by ffi.new"""

    __slots__ = ("ctype", "v", "n")

    def __init__(self, ctype):
        self.ctype = ctype
        self.v = None
        if ctype not in ("GrB_Matrix*", "GrB_Vector*", "GrB_Scalar*"):
            self.v = False if ctype.startswith("bool") else (0.0 if ctype[:5] in ("float", "doubl") else 0)

    def __getitem__(self, i):
        if i != 0:
            raise Unsupported("pointer arithmetic")
        v = self.v
        if isinstance(v, z3.ExprRef):
            return wrapv(v)
        return v

    def __setitem__(self, i, val):
        c = self.ctype
        if c in ("GrB_Matrix*", "GrB_Vector*", "GrB_Scalar*"):
            self.v = val
            return
        if isinstance(val, Sym):
            t = val.t
            k = T.kind_of(t)
            if c.startswith(("bool", "_Bool")):
                self.v = T.to_bool(t)
            elif c[:5] in ("float", "doubl"):
                self.v = T.to_real(t)
            elif k == "r":
                raise TypeError("an integer is required")
            else:
                self.v = T.to_int(t)
                if c not in ("int64_t*",) and T.is_sym(self.v):
                    bits, signed = _CT[c]
                    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
                    if T.FORK(T.b_or(T.lt(self.v, lo), T.lt(hi, self.v))):
                        raise OverflowError("integer out of range")
            return
        p = _real_ffi.new(c)
        p[0] = val
        self.v = p[0]

    def __str__(self):
        return f"<fake {self.ctype.replace('_', '')}>"

    __repr__ = __str__


_CT = {
    "GrB_Index*": (64, False),
    "uint64_t*": (64, False),
    "uint32_t*": (32, False),
    "uint16_t*": (16, False),
    "uint8_t*": (8, False),
    "int64_t*": (64, True),
    "int32_t*": (32, True),
    "int16_t*": (16, True),
    "int8_t*": (8, True),
    "size_t*": (64, False),
}

_real_ffi = None
_real_lib = None


class FakeFFI:
    def new(self, ctype, *args):
        if args or ctype.endswith("[]"):
            raise Unsupported(f"ffi.new({ctype}, ...)")
        return FakePtr(ctype)

    def cast(self, ctype, x):
        if isinstance(x, FakePtr):
            return x
        return _real_ffi.cast(ctype, x)

    def __getattr__(self, name):
        return getattr(_real_ffi, name)


class FakeLib:
    def __init__(self, real):
        object.__setattr__(self, "_real", real)

    def __getattr__(self, name):
        return getattr(self._real, name)

    def GrB_Matrix_nvals(self, n, o):
        n.v = o.nvals()
        return 0

    GrB_Vector_nvals = GrB_Matrix_nvals
    GrB_Scalar_nvals = GrB_Matrix_nvals

    def GxB_Matrix_iso(self, p, o):
        p.v = o.is_iso()
        return 0

    GxB_Vector_iso = GxB_Matrix_iso

    def GrB_Matrix_free(self, o):
        return 0

    GrB_Vector_free = GrB_Matrix_free
    GrB_Scalar_free = GrB_Matrix_free

    def GxB_Matrix_memoryUsage(self, p, o):
        p.v = 0
        return 0

    GxB_Vector_memoryUsage = GxB_Matrix_memoryUsage


# ------------------------------------------------------------------- helpers
def h(x):
    """Python-level GraphBLAS object -> Obj"""
    m = getattr(x, "_matrix", None)
    if m is not None:
        x = m
    o = x.gb_obj[0]
    if not isinstance(o, Obj):
        raise Unsupported(f"foreign handle {type(o)}")
    return o


def transposed(data):
    return {(j, i): pv for (i, j), pv in data.items()}


def scalar_pv(s):
    """Python-level scalar argument -> (presence, raw value, dtype)"""
    if s._is_cscalar:
        if s._empty:
            raise _exc().EmptyObject("empty cscalar")
        return True, raw(s.gb_obj[0]), s.dtype
    o = h(s)
    p, v = o.data.get((0, 0), (False, ops.zero(o.dtype)))
    return p, v, o.dtype


def scalar_val(s):
    p, v, dt = scalar_pv(s)
    if p is not True and not T.FORK(p):
        raise _exc().EmptyObject("empty scalar")
    return v


def _exc():
    from graphblas import exceptions

    return exceptions


def as_int(x):
    """index-valued argument -> int"""
    if hasattr(x, "gb_obj"):
        x = raw(x.gb_obj[0]) if x._is_cscalar else scalar_val(x)
    if isinstance(x, Sym):
        x = x.t
    if isinstance(x, z3.ExprRef):
        return explore.cur().concretize(x)
    return int(x)


def index_list(index, cscalar, dim):
    from graphblas.core import expr as E
    from graphblas.core import slice as S

    if isinstance(index, E.AxisIndex):
        index = index.index
    if index is E._ALL_INDICES:
        return list(range(dim))
    if hasattr(index, "array"):
        a = [as_int(x) for x in index.array.tolist()]
        if cscalar is S._gxb_range:
            return list(range(a[0], a[1] + 1))
        if cscalar is S._gxb_stride:
            return list(range(a[0], a[1] + 1, a[2]))
        if cscalar is S._gxb_backwards:
            return list(range(a[0], a[1] - 1, -a[2]))
        for i in a:
            if i >= dim:
                raise _exc().IndexOutOfBound(f"index {i} out of range {dim}")
        return a
    i = as_int(index)
    if i >= dim:
        raise _exc().IndexOutOfBound(f"index {i} out of range {dim}")
    return [i]


class Desc:
    def __init__(self, d):
        if d is None:
            self.replace = self.comp = self.struct = self.t0 = self.t1 = False
        else:
            self.replace = d.output_replace
            self.comp = d.mask_complement
            self.struct = d.mask_structure
            self.t0 = d.transpose_first
            self.t1 = d.transpose_second


class MaskFn:
    def __init__(self, mask, d, trans=False):
        self.none = mask is None
        self.comp = d.comp
        self.struct = d.struct
        if not self.none:
            o = h(mask.parent)
            self.data = o.data
            self.shape = (o.nrows, o.ncols)

    def __call__(self, k):
        if self.none:
            return not self.comp
        pv = self.data.get(k)
        if pv is None:
            m = False
        elif self.struct:
            m = pv[0]
        else:
            m = T.b_and(pv[0], T.to_bool(pv[1]))
        return T.b_not(m) if self.comp else m


def check_mask_shape(mask, shape):
    if mask is not None:
        o = h(mask.parent)
        if (o.nrows, o.ncols) != shape:
            raise _exc().DimensionMismatch(f"mask {(o.nrows, o.ncols)} vs {shape}")


ABSENT = (False, None)


def accumulate(accum, old, new, dtype):
    """old/new: dicts; returns dict cast to dtype (old already has dtype)"""
    if accum is None:
        return {k: (p, cast(v, dtype)) for k, (p, v) in new.items()}
    f = Binary(accum)
    out = dict(old)
    for k, (p, v) in new.items():
        q, w = old.get(k, ABSENT)
        out[k] = merge(f, q, w, p, v, dtype)
    return out


def merge(f, q, w, p, v, dtype):
    """eWiseAdd of one position: (q,w) first, (p,v) second"""
    if q is False:
        return p, cast(v, dtype)
    if p is False:
        return q, cast(w, dtype)
    both = T.b_and(q, p)
    if both is False:
        return T.b_or(q, p), T.if_(q, cast(w, dtype), cast(v, dtype))
    x = cast(f(w, v, present=both), dtype)
    if both is True:
        return True, x
    if q is True:
        return True, T.if_(p, x, cast(w, dtype))
    if p is True:
        return True, T.if_(q, x, cast(v, dtype))
    return T.b_or(q, p), T.if_(both, x, T.if_(q, cast(w, dtype), cast(v, dtype)))


def pick(c, a, b, dtype):
    """If(c, entry a, entry b)"""
    if c is True:
        return a
    if c is False:
        return b
    pa, va = a
    pb, vb = b
    p = T.b_or(T.b_and(c, pa), T.b_and(T.b_not(c), pb))
    if pa is False:
        return p, vb
    if pb is False:
        return p, va
    if T.special(va) or T.special(vb):
        if T.is_const(va) and T.is_const(vb) and va == vb:
            return p, va
        # avoid mixing infinities into terms: decide
        if T.FORK(c):
            return a
        return b
    return p, T.if_(c, va, vb)


def finish(C, mask, accum, Tnew, d, keys=None, where=None):
    """C<M, replace> accum= T.   where: optional restriction of the affected positions"""
    Z = accumulate(accum, C.data, Tnew, C.dtype)
    apply_mask(C, mask, Z, d, keys, where)


def apply_mask(C, mask, Z, d, mkey=None, where=None):
    if mask is None and not d.comp and where is None:
        C.set(Z)
        return
    M = MaskFn(mask, d)
    out = {}
    for k in set(C.data) | set(Z):
        if where is not None and k not in where:
            out[k] = C.data.get(k, ABSENT)
            continue
        m = M(k if mkey is None else mkey(k))
        z = Z.get(k, ABSENT)
        o = ABSENT if d.replace else C.data.get(k, ABSENT)
        r = pick(m, z, o, C.dtype)
        if r[0] is not False:
            out[k] = r
    C.set(out)


def fresh_bool():
    return explore.cur().fresh("any", z3.BoolSort())


def monoid_of(op):
    return Monoid(op, fresh_bool)


# ------------------------------------------------------------- C API functions
F = {}


def cfun(*names):
    def deco(f):
        for n in names:
            F[n] = f
        return f

    return deco


@cfun("GrB_Matrix_new")
def _(name, args):
    ptr, dtype, nrows, ncols = args
    ptr.val.gb_obj[0] = Obj(dtype, as_int(nrows), as_int(ncols))


@cfun("GrB_Vector_new")
def _(name, args):
    ptr, dtype, size = args
    ptr.val.gb_obj[0] = Obj(dtype, as_int(size), 1)


@cfun("GrB_Scalar_new")
def _(name, args):
    ptr, dtype = args
    ptr.val.gb_obj[0] = Obj(dtype, 1, 1)


@cfun("GrB_Matrix_dup", "GrB_Vector_dup", "GrB_Scalar_dup")
def _(name, args):
    ptr, src = args
    ptr.val.gb_obj[0] = h(src).copy()


@cfun("GrB_Matrix_clear", "GrB_Vector_clear", "GrB_Scalar_clear")
def _(name, args):
    h(args[0]).set({})


@cfun("GrB_Matrix_wait", "GrB_Vector_wait", "GrB_Scalar_wait")
def _(name, args):
    pass


@cfun("GrB_Matrix_nvals", "GrB_Vector_nvals", "GrB_Scalar_nvals")
def _(name, args):
    ptr, o = args
    ptr.val.gb_obj.v = h(o).nvals()


@cfun("GrB_Matrix_nrows", "GrB_Vector_size")
def _(name, args):
    args[0].val.gb_obj.v = h(args[1]).nrows


@cfun("GrB_Matrix_ncols")
def _(name, args):
    args[0].val.gb_obj.v = h(args[1]).ncols


@cfun("GrB_Matrix_resize", "GrB_Vector_resize")
def _(name, args):
    C = h(args[0])
    nr = as_int(args[1])
    nc = as_int(args[2]) if len(args) > 2 else 1
    C.set({(i, j): pv for (i, j), pv in C.data.items() if i < nr and j < nc})
    C.nrows, C.ncols = nr, nc


@cfun("GrB_Scalar_setElement")
def _(name, args):
    C = h(args[0])
    C.set({(0, 0): (True, cast(scalar_val(args[1]), C.dtype))})


@cfun("GrB_Scalar_extractElement")
def _(name, args):
    from graphblas.exceptions import NoValue

    ptr, s = args
    o = h(s)
    p, v = o.data.get((0, 0), (False, None))
    if p is not True and not T.FORK(p):
        return NoValue
    ptr.val.gb_obj[0] = wrapv(cast(v, ptr.val.dtype))


@cfun("GrB_Matrix_setElement", "GrB_Vector_setElement")
def _(name, args):
    C = h(args[0])
    val = args[1]
    i = as_int(args[2])
    j = as_int(args[3]) if len(args) > 3 else 0
    if i >= C.nrows or j >= C.ncols:
        raise _exc().InvalidIndex("setElement")
    p, v, _ = scalar_pv(val)
    new = dict(C.data)
    new[i, j] = (p, cast(v, C.dtype))
    C.set(new)


@cfun("GrB_Matrix_removeElement", "GrB_Vector_removeElement")
def _(name, args):
    C = h(args[0])
    i = as_int(args[1])
    j = as_int(args[2]) if len(args) > 2 else 0
    new = dict(C.data)
    new.pop((i, j), None)
    C.set(new)


@cfun("GrB_Matrix_extractElement", "GrB_Vector_extractElement")
def _(name, args):
    from graphblas.exceptions import NoValue

    res, A = args[0], h(args[1])
    i = as_int(args[2])
    j = as_int(args[3]) if len(args) > 3 else 0
    if i >= A.nrows or j >= A.ncols:
        raise _exc().InvalidIndex("extractElement")
    p, v = A.data.get((i, j), (False, None))
    if hasattr(res, "val"):  # _Pointer to cscalar
        if p is not True and not T.FORK(p):
            return NoValue
        res.val.gb_obj[0] = wrapv(cast(v, res.val.dtype))
        return None
    C = h(res)
    C.set({(0, 0): (p, cast(v, C.dtype))} if p is not False else {})
    return None


def _carray_list(c):
    return c.array.tolist()


@cfun("GrB_Matrix_build", "GrB_Vector_build")
def _(name, args):
    C = h(args[0])
    mat = name.startswith("GrB_Matrix")
    if C.data:
        if any(T.FORK(p) for p, _ in C.data.values()):
            raise _exc().OutputNotEmpty("build")
    I = [as_int(x) for x in _carray_list(args[1])]
    if mat:
        J = [as_int(x) for x in _carray_list(args[2])]
        X, dup = args[3], args[5]
    else:
        J = [0] * len(I)
        X, dup = args[2], args[4]
    X = [raw(x) for x in np.asarray(X.array).tolist()]
    out = {}
    f = Binary(dup) if dup is not None else None
    for i, j, x in zip(I, J, X):
        if i >= C.nrows or j >= C.ncols:
            raise _exc().IndexOutOfBound("build")
        if (i, j) in out:
            if f is not None:
                x = f(out[i, j][1], x)
        out[i, j] = (True, cast(x, C.dtype))
    C.set(out)


@cfun("GxB_Matrix_build_Scalar", "GxB_Vector_build_Scalar")
def _(name, args):
    C = h(args[0])
    if any(T.FORK(p) for p, _ in C.data.values()):
        raise _exc().OutputNotEmpty("build")
    I = [as_int(x) for x in _carray_list(args[1])]
    if "Matrix" in name:
        J = [as_int(x) for x in _carray_list(args[2])]
        s = args[3]
    else:
        J = [0] * len(I)
        s = args[2]
    v = cast(scalar_val(s), C.dtype)
    out = {}
    for i, j in zip(I, J):
        if i >= C.nrows or j >= C.ncols:
            raise _exc().IndexOutOfBound("build")
        out[i, j] = (True, v)
    C.set(out)
    C.iso = True if out else None


def val_array(vals, dtype):
    """list of raw terms -> numpy array (object dtype when symbolic)"""
    if any(isinstance(v, z3.ExprRef) for v in vals):
        a = np.empty(len(vals), dtype=object)
        for n, v in enumerate(vals):
            a[n] = wrapv(v) if isinstance(v, z3.ExprRef) else v
        return a
    return np.array(vals, dtype=dtype.np_type)


@cfun("GrB_Matrix_extractTuples", "GrB_Vector_extractTuples")
def _(name, args):
    mat = "Matrix" in name
    A = h(args[-1])
    ptr = args[-2]
    items = list(A.items())
    A.set({k: (True, v) for k, v in items}) if False else None
    if mat:
        ci, cj, cx = args[0], args[1], args[2]
    else:
        ci, cj, cx = args[0], None, args[1]
    if ci is not None:
        ci.array = np.array([k[0] for k, _ in items], dtype=np.uint64)
    if cj is not None:
        cj.array = np.array([k[1] for k, _ in items], dtype=np.uint64)
    if cx is not None:
        cx.array = val_array([v for _, v in items], A.dtype)
    ptr.val.gb_obj.v = len(items)


@cfun("GrB_Matrix_diag")
def _(name, args):
    ptr, v, k = args
    v = h(v)
    k = as_int(k)
    n = v.nrows + abs(k)
    di, dj = (0, k) if k >= 0 else (-k, 0)
    ptr.val.gb_obj[0] = Obj(v.dtype, n, n, {(i + di, i + dj): pv for (i, _), pv in v.data.items()})


@cfun("GxB_Matrix_diag")
def _(name, args):
    C, v, k, _d = args
    C, v, k = h(C), h(v), as_int(k)
    di, dj = (0, k) if k >= 0 else (-k, 0)
    C.set({(i + di, i + dj): (p, cast(x, C.dtype)) for (i, _), (p, x) in v.data.items()})


@cfun("GxB_Vector_diag")
def _(name, args):
    w, A, k, _d = args
    w, A, k = h(w), h(A), as_int(k)
    out = {}
    for (i, j), (p, x) in A.data.items():
        if j - i == k:
            out[(i if k >= 0 else j), 0] = (p, cast(x, w.dtype))
    w.set(out)


# ------------------------------------------------------------- import/export
@cfun("GrB_Matrix_import")
def _(name, args):
    ptr, dtype, nrows, ncols, Ap, Ai, Ax = args[:7]
    fmt = args[-1]
    Ap = [as_int(x) for x in _carray_list(Ap)]
    Ai = [as_int(x) for x in _carray_list(Ai)]
    X = [raw(x) for x in Ax.array.tolist()]
    rowwise = fmt.name == "GrB_CSR_FORMAT"
    o = Obj(dtype, as_int(nrows), as_int(ncols))
    out = {}
    nr, nc = (o.nrows, o.ncols) if rowwise else (o.ncols, o.nrows)
    if len(Ap) != nr + 1 or Ap[0] or Ap != sorted(Ap) or Ap[-1] > len(Ai) or any(i >= nc for i in Ai):
        raise _exc().InvalidObject("import")
    for r in range(len(Ap) - 1):
        for q in range(Ap[r], Ap[r + 1]):
            out[(r, Ai[q]) if rowwise else (Ai[q], r)] = (True, cast(X[q], dtype))
    o.set(out)
    ptr.val.gb_obj[0] = o


def _csx(A, rowwise):
    items = sorted(A.decide().items(), key=lambda kv: kv[0] if rowwise else kv[0][::-1])
    n = A.nrows if rowwise else A.ncols
    Ap = [0] * (n + 1)
    Ai, Ax = [], []
    for (i, j), (_, v) in items:
        r, c = (i, j) if rowwise else (j, i)
        Ap[r + 1] += 1
        Ai.append(c)
        Ax.append(v)
    for r in range(n):
        Ap[r + 1] += Ap[r]
    return Ap, Ai, Ax


@cfun("GrB_Matrix_exportSize")
def _(name, args):
    p1, p2, p3, fmt, A = args
    A = h(A)
    Ap, Ai, Ax = _csx(A, fmt.name == "GrB_CSR_FORMAT")
    p1.val.gb_obj.v, p2.val.gb_obj.v, p3.val.gb_obj.v = len(Ap), len(Ai), len(Ax)


@cfun("GrB_Matrix_export")
def _(name, args):
    a, b, c = args[:3]
    fmt, A = args[-2:]
    A = h(A)
    Ap, Ai, Ax = _csx(A, fmt.name == "GrB_CSR_FORMAT")
    a.array = np.array(Ap, np.uint64)
    b.array = np.array(Ai, np.uint64)
    c.array = val_array(Ax, A.dtype)


# ----------------------------------------------------------------- operations
def _maybe_t(o, t):
    return (transposed(o.data), o.ncols, o.nrows) if t else (o.data, o.nrows, o.ncols)


def _dims(cond, msg):
    if not cond:
        raise _exc().DimensionMismatch(msg)


@cfun("GrB_Matrix_eWiseAdd", "GrB_Vector_eWiseAdd")
def _(name, args):
    C, mask, accum, op, A, B, d = args
    d = Desc(d)
    C = h(C)
    a, ar, ac = _maybe_t(h(A), d.t0)
    b, br, bc = _maybe_t(h(B), d.t1)
    _dims((ar, ac) == (br, bc) == (C.nrows, C.ncols), "eWiseAdd")
    check_mask_shape(mask, (C.nrows, C.ncols))
    if op.opclass == "Semiring":
        op = op.monoid
    f = Binary(op)
    out = {}
    rt = f.rt
    for k in list(a) + [k for k in b if k not in a]:
        q, w = a.get(k, ABSENT)
        p, v = b.get(k, ABSENT)
        if f.positional:
            raise Unsupported("positional eWiseAdd")
        out[k] = merge(f, q, w, p, v, rt)
    finish(C, mask, accum, out, d)


@cfun("GxB_Matrix_eWiseUnion", "GxB_Vector_eWiseUnion")
def _(name, args):
    C, mask, accum, op, A, alpha, B, beta, d = args
    d = Desc(d)
    C = h(C)
    a, ar, ac = _maybe_t(h(A), d.t0)
    b, br, bc = _maybe_t(h(B), d.t1)
    _dims((ar, ac) == (br, bc) == (C.nrows, C.ncols), "eWiseUnion")
    if op.opclass == "Semiring":
        op = op.monoid
    f = Binary(op)
    al, be = scalar_val(alpha), scalar_val(beta)
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        q, w = a.get(k, ABSENT)
        p, v = b.get(k, ABSENT)
        pres = T.b_or(q, p)
        w = cast(al, f.t1) if q is False else T.if_(q, cast(w, f.t1), cast(al, f.t1))
        v = cast(be, f.t2) if p is False else T.if_(p, cast(v, f.t2), cast(be, f.t2))
        out[k] = (pres, f(w, v, present=pres))
    finish(C, mask, accum, out, d)


@cfun("GrB_Matrix_eWiseMult", "GrB_Vector_eWiseMult")
def _(name, args):
    C, mask, accum, op, A, B, d = args
    d = Desc(d)
    C = h(C)
    a, ar, ac = _maybe_t(h(A), d.t0)
    b, br, bc = _maybe_t(h(B), d.t1)
    _dims((ar, ac) == (br, bc) == (C.nrows, C.ncols), "eWiseMult")
    check_mask_shape(mask, (C.nrows, C.ncols))
    if op.opclass == "Semiring":
        op = op.binaryop
    f = Binary(op)
    out = {}
    for k in a:
        if k in b:
            q, w = a[k]
            p, v = b[k]
            both = T.b_and(q, p)
            if both is not False:
                out[k] = (both, f(w, v, pos=(k, k), present=both))
    finish(C, mask, accum, out, d)


def _mxm(a, b, sr, apos=None, bpos=None, keep=None):
    """a: dict (i,k), b: dict (k,j); positions may be remapped for vectors"""
    f = Binary(sr.binaryop)
    mon = monoid_of(sr.monoid)
    brow = {}
    for (k, j), pv in b.items():
        brow.setdefault(k, []).append((j, pv))
    acc = {}
    for (i, k) in sorted(a):
        p, v = a[i, k]
        for j, (q, w) in brow.get(k, ()):
            if keep is not None and keep(i, j) is False:
                continue
            both = T.b_and(p, q)
            if both is False:
                continue
            pos = ((i, k), (k, j))
            x = f(v, w, pos=pos, present=both)
            acc.setdefault((i, j), []).append((both, x))
    out = {}
    for key, items in acc.items():
        out[key] = mon.reduce(items)
    return out


def _keep(mask, d):
    if mask is None and not d.comp:
        return None
    M = MaskFn(mask, d)
    return lambda i, j: M((i, j))


@cfun("GrB_mxm")
def _(name, args):
    C, mask, accum, op, A, B, d = args
    d = Desc(d)
    C = h(C)
    a, ar, ac = _maybe_t(h(A), d.t0)
    b, br, bc = _maybe_t(h(B), d.t1)
    _dims(ac == br and (ar, bc) == (C.nrows, C.ncols), "mxm")
    check_mask_shape(mask, (C.nrows, C.ncols))
    finish(C, mask, accum, _mxm(a, b, op, keep=_keep(mask, d)), d)


@cfun("GrB_mxv")
def _(name, args):
    w, mask, accum, op, A, u, d = args
    d = Desc(d)
    w = h(w)
    a, ar, ac = _maybe_t(h(A), d.t0)
    u = h(u)
    _dims(ac == u.nrows and ar == w.nrows, "mxv")
    check_mask_shape(mask, (w.nrows, 1))
    finish(w, mask, accum, _mxm(a, u.data, op, keep=_keep(mask, d)), d)


@cfun("GrB_vxm")
def _(name, args):
    w, mask, accum, op, u, A, d = args
    d = Desc(d)
    w = h(w)
    a, ar, ac = _maybe_t(h(A), d.t1)
    u = h(u)
    _dims(ar == u.nrows and ac == w.nrows, "vxm")
    check_mask_shape(mask, (w.nrows, 1))
    keep = _keep(mask, d)
    k2 = None if keep is None else (lambda i, j: keep(j, 0))
    r = _mxm(transposed(u.data), a, op, keep=k2)
    finish(w, mask, accum, transposed(r), d)


@cfun("GrB_Matrix_kronecker")
def _(name, args):
    C, mask, accum, op, A, B, d = args
    d = Desc(d)
    C = h(C)
    a, ar, ac = _maybe_t(h(A), d.t0)
    b, br, bc = _maybe_t(h(B), d.t1)
    if op.opclass == "Semiring":
        op = op.binaryop
    f = Binary(op)
    out = {}
    for (i, j), (p, v) in a.items():
        for (k, l), (q, w) in b.items():
            both = T.b_and(p, q)
            if both is not False:
                out[i * br + k, j * bc + l] = (both, f(v, w, present=both))
    finish(C, mask, accum, out, d)


@cfun("GrB_Matrix_apply", "GrB_Vector_apply")
def _(name, args):
    d = Desc(args[-1])
    C, mask, accum, op = args[:4]
    C = h(C)
    check_mask_shape(mask, (C.nrows, C.ncols))
    if "BinaryOp1st" in name:
        s, A = args[4], args[5]
        a, ar, ac = _maybe_t(h(A), d.t1)
        f = Binary(op)
        sp, sv, _ = scalar_pv(s)
        sv = scalar_val(s)
        out = {k: (p, f(sv, v, present=p)) for k, (p, v) in a.items()}
    elif "BinaryOp2nd" in name:
        A, s = args[4], args[5]
        a, ar, ac = _maybe_t(h(A), d.t0)
        f = Binary(op)
        sv = scalar_val(s)
        out = {k: (p, f(v, sv, present=p)) for k, (p, v) in a.items()}
    elif "IndexOp" in name:
        A, s = args[4], args[5]
        a, ar, ac = _maybe_t(h(A), d.t0)
        f = IndexOp(op)
        sv = scalar_val(s)
        nd = 1 if "Vector" in name else 2
        out = {k: (p, f(v, k[0], k[1], sv, nd)) for k, (p, v) in a.items()}
    else:
        A = args[4]
        a, ar, ac = _maybe_t(h(A), d.t0)
        f = Unary(op)
        out = {k: (p, f(v, k[0], k[1], present=p)) for k, (p, v) in a.items()}
    _dims((ar, ac) == (C.nrows, C.ncols), "apply")
    finish(C, mask, accum, out, d)


@cfun("GrB_Matrix_select", "GrB_Vector_select")
def _(name, args):
    C, mask, accum, op, A, s, d = args
    d = Desc(d)
    C = h(C)
    A = h(A)
    a, ar, ac = _maybe_t(A, d.t0)
    _dims((ar, ac) == (C.nrows, C.ncols), "select")
    f = IndexOp(op)
    sv = scalar_val(s)
    nd = 1 if "Vector" in name else 2
    out = {}
    for k, (p, v) in a.items():
        keep = T.b_and(p, T.to_bool(f(v, k[0], k[1], sv, nd)))
        if keep is not False:
            out[k] = (keep, v)
    finish(C, mask, accum, out, d)


@cfun("GrB_transpose")
def _(name, args):
    C, mask, accum, A, d = args
    d = Desc(d)
    C = h(C)
    A = h(A)
    a, ar, ac = _maybe_t(A, not d.t0)
    _dims((ar, ac) == (C.nrows, C.ncols), "transpose")
    finish(C, mask, accum, dict(a), d)


@cfun("GrB_Matrix_reduce_Monoid", "GrB_Matrix_reduce_BinaryOp")
def _(name, args):
    w, mask, accum, op, A, d = args
    d = Desc(d)
    w = h(w)
    a, ar, ac = _maybe_t(h(A), d.t0)
    _dims(ar == w.nrows, "reduce")
    mon = monoid_of(op)
    rows = {}
    for (i, j) in sorted(a):
        rows.setdefault(i, []).append(a[i, j])
    out = {(i, 0): mon.reduce(items) for i, items in rows.items()}
    finish(w, mask, accum, out, d)


@cfun("GrB_Matrix_reduce_Monoid_Scalar", "GrB_Vector_reduce_Monoid_Scalar",
      "GrB_Matrix_reduce_BinaryOp_Scalar", "GrB_Vector_reduce_BinaryOp_Scalar")
def _(name, args):
    s, accum, op, A, d = args
    C = h(s)
    A = h(A)
    mon = monoid_of(op)
    r = mon.reduce([A.data[k] for k in sorted(A.data)])
    Z = accumulate(accum, C.data, {(0, 0): r} if r[0] is not False else {}, C.dtype)
    C.set(Z)


@cfun("GrB_Matrix_reduce", "GrB_Vector_reduce")
def _(name, args):
    ptr, accum, op, A, d = args
    s = ptr.val
    A = h(A)
    mon = monoid_of(op)
    p, v = mon.reduce([A.data[k] for k in sorted(A.data)])
    ident = ops.monoid_identity(op)
    ident = cast(ident, mon.rt)
    if mon.name == "any" and p is not True:
        if not T.FORK(p):
            v = ident
    elif p is False:
        v = ident
    elif p is not True:
        k = mon.k
        n = ops._bool_as(mon.name) if k == "b" else mon.name
        if not (n in ("plus", "lor", "land") and not T.special(v)):
            v = T.if_(p, v, ident)
    v = cast(v, s.dtype)
    if accum is not None and not s._empty:
        v = cast(Binary(accum)(raw(s.gb_obj[0]), v), s.dtype)
    s.gb_obj[0] = wrapv(v)


@cfun("GrB_Matrix_extract", "GrB_Vector_extract", "GrB_Col_extract")
def _(name, args):
    d = Desc(args[-1])
    C, mask, accum, A = args[:4]
    C = h(C)
    a, ar, ac = _maybe_t(h(A), d.t0)
    I = index_list(args[4], args[5], ar)
    if name == "GrB_Matrix_extract":
        J = index_list(args[6], args[7], ac)
    elif name == "GrB_Col_extract":
        J = index_list(args[6], None, ac)
    else:
        J = [0]
    _dims((len(I), len(J)) == (C.nrows, C.ncols), "extract")
    check_mask_shape(mask, (C.nrows, C.ncols))
    out = {}
    for k, i in enumerate(I):
        for l, j in enumerate(J):
            pv = a.get((i, j))
            if pv is not None:
                out[k, l] = pv
    finish(C, mask, accum, out, d)


def _assign(C, mask, accum, region, val, d, sub, mkey=None, mregion=None):
    """region: dict position in C -> position in val (or None for scalar)
    val: function position -> (p, v)"""
    f = Binary(accum) if accum is not None else None
    Z = dict(C.data)
    for k, src in region.items():
        p, v = val(src)
        if f is None:
            if p is False:
                Z.pop(k, None)
            else:
                Z[k] = (p, cast(v, C.dtype))
        elif p is not False:
            q, w = C.data.get(k, ABSENT)
            Z[k] = merge(f, q, w, p, v, C.dtype)
    if sub:
        apply_mask(C, mask, Z, d, mkey, where=set(region))
    else:
        apply_mask(C, mask, Z, d, mkey, where=mregion)


@cfun("GrB_Matrix_assign", "GrB_Vector_assign", "GxB_Matrix_subassign", "GxB_Vector_subassign")
def _(name, args):
    d = Desc(args[-1])
    C, mask, accum, x = args[:4]
    C = h(C)
    mat = "Matrix" in name
    sub = "subassign" in name
    I = index_list(args[4], args[5], C.nrows)
    J = index_list(args[6], args[7], C.ncols) if mat else [0]
    is_scalar = getattr(x, "_is_scalar", False) or hasattr(x, "_is_cscalar")
    region = {}
    for k, i in enumerate(I):
        for l, j in enumerate(J):
            region[i, j] = (k, l)
    if is_scalar:
        pv = scalar_pv(x)[:2]
        val = lambda src: pv  # noqa: E731
    else:
        a, ar, ac = _maybe_t(h(x), d.t0)
        _dims((ar, ac) == (len(I), len(J)), "assign")
        val = lambda src: a.get(src, ABSENT)  # noqa: E731
    check_mask_shape(mask, (len(I), len(J)) if sub else (C.nrows, C.ncols))
    _assign(C, mask, accum, region, val, d, sub, mkey=(lambda k: region[k]) if sub else None)


@cfun("GrB_Row_assign", "GrB_Col_assign", "GxB_Row_subassign", "GxB_Col_subassign")
def _(name, args):
    d = Desc(args[-1])
    C, mask, accum, u = args[:4]
    C = h(C)
    size = h(u).nrows
    u = h(u).data
    sub = "subassign" in name
    row = "Row" in name
    if row:
        i = index_list(args[4], None, C.nrows)[0]
        J = index_list(args[5], args[6], C.ncols)
        _dims(size == len(J), "assign")
        check_mask_shape(mask, (len(J) if sub else C.ncols, 1))
        region = {(i, j): (l, 0) for l, j in enumerate(J)}
        whole = {(i, j) for j in range(C.ncols)}
        mk = (lambda k: region[k]) if sub else (lambda k: (k[1], 0))
    else:
        I = index_list(args[4], args[5], C.nrows)
        j = index_list(args[6], None, C.ncols)[0]
        _dims(size == len(I), "assign")
        check_mask_shape(mask, (len(I) if sub else C.nrows, 1))
        region = {(i, j): (k, 0) for k, i in enumerate(I)}
        whole = {(i, j) for i in range(C.nrows)}
        mk = (lambda k: region[k]) if sub else (lambda k: (k[0], 0))
    _assign(C, mask, accum, region, lambda s: u.get(s, ABSENT), d, sub, mkey=mk, mregion=whole)


@cfun("GxB_unpack_HyperHash", "GxB_pack_HyperHash")
def _(name, args):
    raise Unsupported(name)


_SUFFIXES = ("Monoid_Scalar", "BinaryOp_Scalar")
_DT = {
    "BOOL", "INT8", "INT16", "INT32", "INT64", "UINT8", "UINT16", "UINT32", "UINT64",
    "FP32", "FP64", "Scalar", "Semiring", "Monoid", "BinaryOp", "UDT",
}


def lookup(name):
    f = F.get(name)
    if f is not None:
        return f
    base = name
    while "_" in base:
        base, tail = base.rsplit("_", 1)
        if tail not in _DT and tail not in ("BinaryOp1st", "BinaryOp2nd", "IndexOp"):
            break
        f = F.get(base)
        if f is not None:
            F[name] = f
            return f
    raise Unsupported(f"C function {name}")


def fake_call(cfunc_name, args):
    CALLS[cfunc_name] = CALLS.get(cfunc_name, 0) + 1
    f = lookup(cfunc_name)
    for a in args:
        # building the C argument list raises for empty C scalars, as in the real code
        if getattr(a, "_is_cscalar", False) and getattr(a, "_empty", False):
            a._carg
    try:
        return f(cfunc_name, args)
    except (explore.PathInfeasible, explore.Budget, Unsupported):
        raise


# ------------------------------------------------------ ss (extension) methods
def _ss_is_iso(self):
    return wrapv(h(self._parent).is_iso())


def _ss_iterkeys_m(self, seek=0):
    items = list(h(self._parent).items())
    if seek:
        items = items[seek:]
    return iter([k for k, _ in items])


def _ss_itervalues(self, seek=0):
    items = list(h(self._parent).items())
    if seek:
        items = items[seek:]
    return iter([wrapv(v) for _, v in items])


def _ss_iteritems_m(self, seek=0):
    items = list(h(self._parent).items())
    if seek:
        items = items[seek:]
    return iter([(*k, wrapv(v)) for k, v in items])


def _ss_iterkeys_v(self, seek=0):
    items = list(h(self._parent).items())
    if seek:
        items = items[seek:]
    return iter([k[0] for k, _ in items])


def _ss_iteritems_v(self, seek=0):
    items = list(h(self._parent).items())
    if seek:
        items = items[seek:]
    return iter([(k[0], wrapv(v)) for k, v in items])


def _ss_iso_value(self):
    from graphblas import Scalar

    if bool(wrapv(h(self._parent).is_iso())):
        vals = [pv for pv in h(self._parent).data.values() if pv[0] is not False]
        anyp = T.b_or(*[p for p, _ in vals]) if vals else False
        if not T.FORK(anyp):
            raise StopIteration  # what next(itervalues()) does
        v = vals[-1][1]
        for p, w in reversed(vals[:-1]):
            v = w if p is True or (T.is_sym(v) and T.is_sym(w) and v.eq(w)) else T.if_(p, w, v)
        return Scalar.from_value(wrapv(v), dtype=self._parent.dtype, name="")
    raise ValueError("not iso-valued")


def _ss_export_m(self, format=None, *, sort=False, give_ownership=False, raw=False, **opts):
    if raw or give_ownership:
        raise Unsupported("raw export")
    A = h(self._parent)
    if format is None:
        format = "csr"
    rv = {"nrows": A.nrows, "ncols": A.ncols, "is_iso": False}
    u = np.uint64
    if format in ("csr", "csc"):
        Ap, Ai, Ax = _csx(A, format == "csr")
        rv["indptr"] = np.array(Ap, u)
        rv["col_indices" if format == "csr" else "row_indices"] = np.array(Ai, u)
    elif format in ("hypercsr", "hypercsc"):
        rw = format == "hypercsr"
        Ap, Ai, Ax = _csx(A, rw)
        nz = [r for r in range(len(Ap) - 1) if Ap[r] != Ap[r + 1]]
        rv["indptr"] = np.array([0] + [Ap[r + 1] for r in nz], u)
        rv["rows" if rw else "cols"] = np.array(nz, u)
        rv["col_indices" if rw else "row_indices"] = np.array(Ai, u)
        rv["nvec"] = len(nz)
    elif format in ("coo", "coor", "cooc"):
        items = list(A.items())
        if format == "cooc":
            items.sort(key=lambda kv: kv[0][::-1])
        rv["rows"] = np.array([k[0] for k, _ in items], u)
        rv["cols"] = np.array([k[1] for k, _ in items], u)
        Ax = [v for _, v in items]
    elif format in ("bitmapr", "bitmapc"):
        dec = A.decide()
        shape = (A.nrows, A.ncols)
        bm = np.array([(i, j) in dec for i in range(A.nrows) for j in range(A.ncols)], dtype=bool)
        rv = {"format": format, "bitmap": bm.reshape(shape), "nvals": len(dec), "is_iso": False}
        if dec and bool(wrapv(A.is_iso())):
            rv["is_iso"] = True
            rv["values"] = val_array([v for _, v in dec.values()][:1], A.dtype)
            rv["nrows"], rv["ncols"] = shape
        else:
            z = (True, ops.zero(A.dtype))
            Ax = [dec.get((i, j), z)[1] for i in range(A.nrows) for j in range(A.ncols)]
            rv["values"] = val_array(Ax, A.dtype).reshape(shape)
        return rv
    elif format in ("fullr", "fullc"):
        dec = A.decide()
        if len(dec) != A.nrows * A.ncols:
            raise Unsupported("export full")
        Ax = [dec[i, j][1] for i in range(A.nrows) for j in range(A.ncols)]
        rv["format"] = format
        rv["values"] = val_array(Ax, A.dtype).reshape(A.nrows, A.ncols)
        return rv
    else:
        raise Unsupported(f"export {format}")
    rv["format"] = format
    rv["sorted_cols" if "csr" in format else "sorted_rows"] = True
    if len(Ax) and bool(wrapv(A.is_iso())):
        rv["is_iso"] = True
        Ax = Ax[:1]
    rv["values"] = val_array(Ax, A.dtype)
    return rv


def _ss_export_v(self, format=None, *, sort=False, give_ownership=False, raw=False, **opts):
    if raw or give_ownership:
        raise Unsupported("raw export")
    v = h(self._parent)
    items = list(v.items())
    xs = [x for _, x in items]
    iso = bool(xs) and bool(wrapv(v.is_iso()))
    if format is None:
        format = "full" if len(items) == v.nrows else "sparse"
    rv = {"format": format, "is_iso": iso}
    if format == "sparse":
        rv["size"] = v.nrows
        rv["indices"] = np.array([k[0] for k, _ in items], np.uint64)
        rv["sorted_index"] = True
    elif format == "bitmap":
        have = {k[0]: x for k, x in items}
        rv["bitmap"] = np.array([i in have for i in range(v.nrows)], dtype=bool)
        rv["nvals"] = len(items)
        xs = [have.get(i, ops.zero(v.dtype)) for i in range(v.nrows)] if not iso else xs
    elif format == "full":
        if len(items) != v.nrows:
            raise _exc().InvalidValue("export full")
        if iso:
            rv["size"] = v.nrows
    else:
        raise Unsupported(f"export {format}")
    rv["values"] = val_array(xs[:1] if iso else xs, v.dtype)
    return rv


def _ss_concat_m(self, tiles, m, n, opts):
    C = h(self._parent)
    out = {}
    r0 = 0
    for row in tiles:
        c0 = 0
        nr = None
        for t in row:
            data, tr, tc = _tile(t)
            _dims(nr in (None, tr), "concat")
            nr = tr
            for (i, j), (p, x) in data.items():
                out[i + r0, j + c0] = (p, cast(x, C.dtype))
            c0 += tc
        _dims(c0 == C.ncols, "concat")
        r0 += nr or 0
    _dims(r0 == C.nrows, "concat")
    C.set(out)


def _tile(t):
    o = h(t)
    if type(t).__name__ == "TransposedMatrix":
        return transposed(o.data), o.ncols, o.nrows
    return o.data, o.nrows, o.ncols


def _ss_concat_v(self, tiles, m, opts):
    _ss_concat_m(self, [[t] for t in tiles], m, 1, opts)


def _new_matrix(cls_ss, dtype, nrows, ncols, entries, name):
    from graphblas import Matrix

    C = Matrix(dtype, nrows, ncols, name=name)
    o = h(C)
    o.set({k: (True, cast(raw(v), o.dtype)) for k, v in entries})
    return C


def _import_csx(rowwise, hyper):
    def imp(cls, *, nrows, ncols, indptr, values, is_iso=False, dtype=None, name=None,
            col_indices=None, row_indices=None, rows=None, cols=None, nvec=None, **opts):
        from graphblas.core.utils import values_to_numpy_buffer

        values, dtype = values_to_numpy_buffer(values, dtype)
        Ap = [as_int(x) for x in np.asarray(indptr).tolist()]
        Ai = [as_int(x) for x in np.asarray(col_indices if rowwise else row_indices).tolist()]
        H = None
        if hyper:
            H = [as_int(x) for x in np.asarray(rows if rowwise else cols).tolist()]
        vals = np.asarray(values)
        X = vals.reshape(-1).tolist()
        if is_iso or vals.ndim == 0:
            X = X[:1] * len(Ai)
        major = (max(H, default=-1) if hyper else len(Ap) - 2) + 1
        minor = max(Ai, default=-1) + 1
        if nrows is None:
            nrows = major if rowwise else minor
        if ncols is None:
            ncols = minor if rowwise else major
        ent = []
        for r in range(len(Ap) - 1):
            rr = H[r] if H is not None else r
            for q in range(Ap[r], Ap[r + 1]):
                ent.append(((rr, Ai[q]) if rowwise else (Ai[q], rr), X[q]))
        return _new_matrix(cls, dtype, nrows, ncols, ent, name)

    return imp


def _import_full_v(cls, values, *, size=None, is_iso=False, dtype=None, name=None, **opts):
    from graphblas import Vector
    from graphblas.core.utils import values_to_numpy_buffer

    values, dtype = values_to_numpy_buffer(values, dtype)
    X = np.asarray(values).reshape(-1).tolist()
    if is_iso:
        X = [X[0]] * size
    v = Vector(dtype, len(X), name=name)
    o = h(v)
    o.set({(i, 0): (True, cast(raw(x), o.dtype)) for i, x in enumerate(X)})
    return v


def _import_full_m(cls, values, *, nrows=None, ncols=None, is_iso=False, dtype=None, name=None, **o):
    from graphblas.core.utils import values_to_numpy_buffer

    values, dtype = values_to_numpy_buffer(values, dtype)
    if is_iso:
        x = values.reshape(-1)[0]
        ent = [((i, j), x) for i in range(nrows) for j in range(ncols)]
    else:
        nrows, ncols = values.shape
        ent = [((i, j), values[i, j]) for i in range(nrows) for j in range(ncols)]
    return _new_matrix(cls, dtype, nrows, ncols, ent, name)


# ------------------------------------------------------------------- install
_installed = False


def install():
    global _installed, _real_ffi, _real_lib
    if _installed:
        return
    _installed = True
    import graphblas as gb

    gb.init("suitesparse", blocking=False)
    gb.Matrix, gb.Vector, gb.Scalar, gb.agg.count, gb.semiring.plus_times, gb.io  # load lazily
    import graphblas.core.base  # noqa: F401
    from graphblas import dtypes  # noqa: F401
    from graphblas.core import base, dtypes as cdt, expr, ffi, infix, lib, mask, matrix, scalar
    from graphblas.core import slice as gslice
    from graphblas.core import utils, vector
    from graphblas.core.operator import agg
    from graphblas.core.ss import matrix as ssm
    from graphblas.core.ss import vector as ssv

    _real_ffi = ffi
    _real_lib = lib
    fffi, flib = FakeFFI(), FakeLib(lib)
    for mod in (base, matrix, vector, scalar, ssm, ssv):
        if hasattr(mod, "call"):
            mod.call = fake_call
        if hasattr(mod, "ffi"):
            mod.ffi = fffi
        if hasattr(mod, "lib"):
            mod.lib = flib
        if hasattr(mod, "ffi_new"):
            mod.ffi_new = fffi.new
    for mod in (infix, mask, agg, expr, gslice):
        if hasattr(mod, "call"):
            mod.call = fake_call
    # symbolic Python values are accepted where numbers are
    from graphblas.dtypes import BOOL, FP64, INT64

    reg = cdt._registry
    reg[SymInt] = INT64
    reg[SymReal] = FP64
    reg[SymBool] = BOOL
    _patch_utils(utils, [base, matrix, vector, scalar, ssm, ssv, expr, gslice, mask, infix])
    _patch_expr(expr)
    _patch_scalar(scalar)
    # extension methods
    M, V = ssm.ss, ssv.ss
    M.is_iso = property(_ss_is_iso)
    V.is_iso = property(_ss_is_iso)
    M.iso_value = property(_ss_iso_value)
    V.iso_value = property(_ss_iso_value)
    M.iterkeys, M.itervalues, M.iteritems = _ss_iterkeys_m, _ss_itervalues, _ss_iteritems_m
    V.iterkeys, V.itervalues, V.iteritems = _ss_iterkeys_v, _ss_itervalues, _ss_iteritems_v
    M.export, V.export = _ss_export_m, _ss_export_v
    M._concat, V._concat = _ss_concat_m, _ss_concat_v
    M.import_csr = classmethod(_import_csx(True, False))
    M.import_csc = classmethod(_import_csx(False, False))
    M.import_hypercsr = classmethod(_import_csx(True, True))
    M.import_hypercsc = classmethod(_import_csx(False, True))
    V.import_full = classmethod(_import_full_v)
    M.import_fullr = classmethod(_import_full_m)
    M.orientation = property(lambda self: "rowwise")
    M.format = property(lambda self: "csr")
    V.format = property(lambda self: "sparse")
    _patch_numpy()
    _patch_io()


def _patch_utils(utils, mods):
    from graphblas.core.dtypes import lookup_dtype

    orig_init = utils._CArray.__init__

    def carray_init(self, array=None, dtype=utils._INDEX, *, size=None, name=None):
        if size is not None:
            if isinstance(size, Sym):
                self.array = np.empty(0, dtype=object)
                self._carg = None
                self.dtype = dtype
                self._name = name or "sym"
                return
        else:
            if isinstance(array, np.ndarray) and array.dtype == object:
                self.array = cast_array(array, dtype)
                self._carg = None
                self.dtype = dtype
                self._name = name or "sym"
                return
        orig_init(self, array, dtype, size=size, name=name)

    utils._CArray.__init__ = carray_init

    orig_v = utils.values_to_numpy_buffer

    def values_to_numpy_buffer(array, dtype=None, *, copy=False, ownable=False, order="C", subarray_after=None):
        if isinstance(array, Sym):
            dt = lookup_dtype(type(array)) if dtype is None else lookup_dtype(dtype)
            a = np.empty((), dtype=object)
            a[()] = wrapv(cast(array.t, dt))
            return a, dt
        if isinstance(array, np.ndarray):
            sym = array.dtype == object
        else:
            try:
                sym = any(isinstance(x, Sym) for x in array) or any(
                    isinstance(y, Sym) for x in array if isinstance(x, (list, tuple)) for y in x
                )
            except TypeError:
                sym = False
        if not sym:
            return orig_v(array, dtype, copy=copy, ownable=ownable, order=order, subarray_after=subarray_after)
        a = np.array(array, dtype=object)
        if dtype is None:
            ks = {T.kind_of(raw(x)) for x in a.ravel()}
            dt = lookup_dtype(float if "r" in ks else int if "i" in ks else bool)
        else:
            dt = lookup_dtype(dtype)
        return cast_array(a, dt), dt

    orig_n = utils.normalize_values

    def normalize_values(self, values, dtype, shape=None, is_iso=False):
        if isinstance(values, np.ndarray) and values.dtype == object:
            if dtype is not None:
                values = cast_array(values, lookup_dtype(dtype))
            if is_iso:
                values = np.broadcast_to(values, shape)
            return values
        return orig_n(self, values, dtype, shape, is_iso)

    orig_i = utils.ints_to_numpy_buffer

    def ints_to_numpy_buffer(array, dtype, *args, **kw):
        if not isinstance(array, np.ndarray) or array.dtype == object:
            # symbolic indices: decide their values
            try:
                vals = list(array)
            except TypeError:
                vals = ()
            if any(isinstance(x, Sym) for x in vals):
                array = np.array([int(x) for x in vals], dtype=np.int64)
        return orig_i(array, dtype, *args, **kw)

    for m in [utils, *mods]:
        if hasattr(m, "ints_to_numpy_buffer"):
            m.ints_to_numpy_buffer = ints_to_numpy_buffer
        if hasattr(m, "values_to_numpy_buffer"):
            m.values_to_numpy_buffer = values_to_numpy_buffer
        if hasattr(m, "normalize_values"):
            m.normalize_values = normalize_values


def cast_array(a, dtype):
    out = np.empty(a.shape, dtype=object)
    any_sym = False
    for idx in np.ndindex(a.shape):
        t = cast(raw(a[idx]), dtype)
        any_sym = any_sym or T.is_sym(t)
        out[idx] = wrapv(t)
    if not any_sym:
        return out.astype(dtype.np_type)
    return out


def _patch_expr(expr):
    orig = expr.IndexerResolver.parse_index

    def parse_index(self, index, typ, size):
        if isinstance(index, Sym):
            index = int(index)
            typ = int
        elif isinstance(index, list) and any(isinstance(x, Sym) for x in index):
            index = [int(x) if isinstance(x, Sym) else x for x in index]
        elif isinstance(index, np.ndarray) and index.dtype == object:
            index = np.array([int(x) for x in index], dtype=np.int64)
        return orig(self, index, typ, size)

    expr.IndexerResolver.parse_index = parse_index


def _patch_scalar(scalar):
    S = scalar.Scalar
    orig_dup = S.dup

    def dup(self, dtype=None, *, clear=False, is_cscalar=None, name=None):
        if dtype is not None and not clear and not self._is_empty:
            v = self.value
            if isinstance(v, Sym):
                if is_cscalar is None:
                    is_cscalar = self._is_cscalar
                new = S(dtype, is_cscalar=is_cscalar, name=name)
                new.value = wrapv(cast(v.t, new.dtype))
                return new
        return orig_dup(self, dtype, clear=clear, is_cscalar=is_cscalar, name=name)

    S.dup = dup


def _patch_io():
    """networkx -> Matrix goes through scipy arrays, which cannot hold symbolic values"""
    import graphblas as gb
    from graphblas import Matrix
    from graphblas.core.dtypes import lookup_dtype

    orig = gb.io.from_networkx

    def from_networkx(G, nodelist=None, dtype=None, weight="weight", name=None):
        vals = [d.get(weight, 1) for _, _, d in G.edges(data=True)] if weight is not None else []
        if not any(isinstance(v, Sym) for v in vals):
            return orig(G, nodelist=nodelist, dtype=dtype, weight=weight, name=name)
        if G.is_multigraph():
            raise Unsupported("symbolic multigraph")
        ids = {k: i for i, k in enumerate(G if nodelist is None else nodelist)}
        if dtype is None:
            ks = {T.kind_of(raw(v)) for v in vals}
            dtype = float if "r" in ks else int if "i" in ks else bool
        A = Matrix(lookup_dtype(dtype), len(ids), len(ids), name=name)
        o = h(A)
        ent = {}
        for u, v, d in G.edges(data=True):
            if u in ids and v in ids:
                x = cast(raw(d.get(weight, 1)), o.dtype)
                ent[ids[u], ids[v]] = (True, x)
                if not G.is_directed():
                    ent[ids[v], ids[u]] = (True, x)
        o.set(ent)
        return A

    gb.io.from_networkx = from_networkx


def _patch_numpy():
    orig_lexsort = np.lexsort

    def lexsort(keys, axis=-1):
        ks = [np.asarray(k) for k in keys]
        if not any(k.dtype == object for k in ks):
            return orig_lexsort(keys, axis=axis)
        n = len(ks[0])
        import functools

        def cmp(a, b):
            for k in reversed(ks):
                if bool(k[a] < k[b]):
                    return -1
                if bool(k[b] < k[a]):
                    return 1
            return 0

        return np.array(sorted(range(n), key=functools.cmp_to_key(cmp)), dtype=np.intp)

    np.lexsort = lexsort
    orig_ae = np.array_equal

    def array_equal(a1, a2, *args, **kw):
        x, y = np.asarray(a1), np.asarray(a2)
        if x.dtype != object and y.dtype != object:
            return orig_ae(a1, a2, *args, **kw)
        if x.shape != y.shape:
            return False
        for p, q in zip(x.ravel(), y.ravel()):
            if not bool(p == q):
                return False
        return True

    np.array_equal = array_equal

    orig_pad = np.pad

    def pad(array, pad_width, *args, **kw):
        def conc(x):
            return tuple(conc(y) for y in x) if isinstance(x, (tuple, list)) else int(x)

        if isinstance(pad_width, (tuple, list)) or not hasattr(pad_width, "dtype"):
            pad_width = conc(pad_width)
        return orig_pad(array, pad_width, *args, **kw)

    np.pad = pad
