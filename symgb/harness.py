"""Harness context: the same property body runs symbolically and on the unpatched real library.

``SymCtx``   inputs are z3 terms, the GraphBLAS C library is replaced by symgb.shadow;
``RealCtx``  inputs come from a recorded assignment, everything is real (replay).

Presences and values are *raw* terms (Python constants or z3 terms, see terms.py); the reference
specifications in props/ are written with ``T.*`` and therefore run in both modes.
"""

from __future__ import annotations

import math
from fractions import Fraction

from . import shapes
from . import terms as T
from .explore import PathInfeasible, Unsupported

NP = {
    "BOOL": bool,
    "INT8": "int8",
    "INT16": "int16",
    "INT32": "int32",
    "INT64": "int64",
    "UINT8": "uint8",
    "UINT16": "uint16",
    "UINT32": "uint32",
    "UINT64": "uint64",
    "FP32": "float32",
    "FP64": "float64",
}


def lit(x):
    """constant of a recorded assignment (JSON) -> Python"""
    if isinstance(x, str):
        f = Fraction(x)
        return float(f)
    return x


class AssumptionFailed(Exception):
    """a recorded assignment does not satisfy the assumptions of the harness"""


class CheckFailed(Exception):
    pass


class GraphIn:
    """an input graph: ``G`` plus its raw description in id space"""

    def __init__(self, G, n, directed, P, W, K, dtype):
        self.G = G
        self.n = n
        self.directed = directed
        self.P = P
        self.W = W
        self.K = K
        self.dtype = dtype
        self.ids = {k: i for i, k in enumerate(K)}

    def p(self, i, j):
        return self.P.get((i, j), False)

    def w(self, i, j):
        return self.W[i, j]

    def p_off(self, i, j):
        return False if i == j else self.P.get((i, j), False)


# node labels: integers permuted so that a key used as an id (or vice versa) gives a wrong answer
def labels(n, how):
    if how == "id":
        return list(range(n)), list(range(n))
    if how == "perm":  # label of id i is (i+1) mod n, iteration order differs from id order
        K = [(i + 1) % n for i in range(n)]
        order = [(2 * i + 1) % n if math.gcd(2, n) == 1 else (i + n // 2) % n for i in range(n)]
        return K, order
    if how == "rev":
        return list(range(n - 1, -1, -1)), list(range(n))
    if how == "str":
        K = [chr(ord("a") + (n - 1 - i)) for i in range(n)]
        return K, [(i + 1) % n for i in range(n)]
    raise ValueError(how)


class Ctx:
    sym = False
    shape = None  # see shapes.py
    # ------------------------------------------------------------ inputs
    def choice(self, name, options):
        raise NotImplementedError

    def graph(
        self,
        name,
        n,
        *,
        directed=False,
        dtype="FP64",
        loops=True,
        weight="one",
        keys="perm",
        iso="sym",
        present=None,
        cls=None,
        matrix_only=False,
    ):
        """symbolic graph on n nodes.

        weight: "one" | "iso" | function (i, j) -> raw number | (kind, lo, hi) per-edge numbers with kind "int"/"real"/"bool"
        present: optional function (i, j) -> raw presence or None (= free)
        """
        P, W = {}, {}
        common = None
        if self.shape is not None:
            present = shapes.present(self.shape, n, directed, present)
        if isinstance(weight, tuple) and weight[0].startswith("iso"):
            kind = weight[0][3:]
            common = self.number(f"{name}.w", kind, *weight[1:])
        for i in range(n):
            for j in range(n):
                if i == j and not loops:
                    continue
                if not directed and j < i:
                    P[i, j] = P[j, i]
                    W[i, j] = W[j, i]
                    continue
                p = present(i, j) if present is not None else None
                if p is None:
                    p = self.bool(f"{name}.p{i}.{j}")
                    if self.shape in shapes.BULK and T.is_sym(p):
                        T.add_atom(p)
                P[i, j] = p
                if self.shape in shapes.BULK:
                    W[i, j] = {"BOOL": True, "FP64": 1.0, "FP32": 1.0}.get(dtype, 1)
                elif callable(weight):
                    W[i, j] = weight(i, j)
                elif weight == "one":
                    W[i, j] = {"BOOL": True, "FP64": 1.0, "FP32": 1.0}.get(dtype, 1)
                elif common is not None:
                    W[i, j] = common
                else:
                    W[i, j] = self.number(f"{name}.w{i}.{j}", *weight)
        K, order = labels(n, keys) if isinstance(keys, str) else keys
        if self.shape in shapes.BULK and iso == "sym":
            iso = False
        A = self._matrix(name, n, n, dtype, P, W, iso)
        if matrix_only:
            return A, P, W
        import graphblas_algorithms as ga

        if cls is None:
            cls = ga.DiGraph if directed else ga.Graph
        G = cls(A, key_to_id={K[i]: i for i in order})
        return GraphIn(G, n, directed, P, W, K, dtype)

    def number(self, name, kind, lo=None, hi=None):
        if kind == "bool":
            return self.bool(name)
        if kind == "int":
            return self.int(name, lo, hi)
        if kind == "real":
            return self.real(name, lo, hi)
        if kind == "w18":  # 1 or 8 (exact cube roots)
            return T.if_(self.bool(name), 8, 1)
        raise ValueError(kind)

    # ----------------------------------------------------------- helpers
    def clone(self, g, cls=None):
        """an independent, pristine copy of an input graph (nothing cached)"""
        import graphblas_algorithms as ga

        A = self._clone_matrix(g.G._A)
        if cls is None:
            cls = type(g.G)
        return cls(A, key_to_id=dict(g.G._key_to_id))

    def as_set(self, rv):
        """set-like result -> {key: presence}"""
        from graphblas_algorithms.classes.nodeset import NodeSet

        if isinstance(rv, NodeSet):
            vec = self.vec(rv.vector)
            return {k: vec.get(i, (False, None))[0] for k, i in rv._key_to_id.items()}
        return {k: True for k in rv}

    def as_map(self, rv):
        """mapping-like result -> {key: (presence, raw value)}"""
        from graphblas_algorithms.classes.nodemap import NodeMap

        if isinstance(rv, NodeMap) and not rv._values_are_keys:
            vec = self.vec(rv.vector)
            out = {}
            for k, i in rv._key_to_id.items():
                p, v = vec.get(i, (False, None))
                if rv._fill_value is not None:
                    f = self.num(rv._fill_value)
                    v = f if p is False else T.if_(p, v, f)
                    p = True
                out[k] = (p, v)
            return out
        return {k: (True, self.num(v)) for k, v in rv.items()}

    def mget(self, m, k):
        return m.get(k, (False, None))

    def check_map(self, got, want, label, tol=None, nan_ok=False):
        """compare two {key: (presence, value)} maps"""
        for k in set(got) | set(want):
            p, v = got.get(k, (False, None))
            q, w = want.get(k, (False, None))
            self.check(T.b_iff(p, q), f"{label}[{k}]: presence")
            both = T.b_and(p, q)
            if both is False:
                continue
            if tol is None:
                self.check(T.b_or(T.b_not(both), T.eq(v, w)), f"{label}[{k}]: value")
            else:
                self.check_close(v, w, f"{label}[{k}]: value", tol, given=both)

    def check_set(self, got, want, label):
        for k in set(got) | set(want):
            self.check(T.b_iff(got.get(k, False), want.get(k, False)), f"{label}[{k}]")


class SymCtx(Ctx):
    sym = True

    exact = True  # real numbers are exact

    def __init__(self, E, shard=()):
        self.E = E
        self.inputs = {}  # name -> raw term or constant
        self.shard = list(shard)
        self.obl = []  # (raw condition, label)
        self.isovars = {}
        self.notes = []

    # inputs
    def bool(self, name):
        if self.shard:
            v = self.shard.pop(0)
            self.inputs[name] = v
            return v
        b = T.z3.Bool(name)
        self.inputs[name] = b
        return b

    def int(self, name, lo=None, hi=None):
        x = T.z3.Int(name)
        self.inputs[name] = x
        if lo is not None:
            self.E.assume(x >= lo)
        if hi is not None:
            self.E.assume(x <= hi)
        if lo is not None and hi is not None and hi - lo < 12:
            T.set_sup(x, range(lo, hi + 1))
        elif lo is not None and hi is not None:
            T.set_rng(x, lambda a, b: (a[0], b[0]), lo, hi)
        return x

    def real(self, name, lo=None, hi=None):
        x = T.z3.Real(name)
        self.inputs[name] = x
        if lo is not None:
            self.E.assume(x >= T.to_z3(float(lo)))
        if hi is not None:
            self.E.assume(x <= T.to_z3(float(hi)))
        return x

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        x = self.int(name, 0, len(options) - 1)
        T.set_sup(x, range(len(options)))
        for k in range(len(options) - 1):
            if self.E.fork(T.eq(x, k)):
                return options[k]
        return options[-1]

    def decide(self, c):
        return self.E.fork(c)

    def value(self, raw):
        """decide the value of a raw term (forks)"""
        return self.E.concretize(raw)

    def pyval(self, raw):
        from .proxy import wrapv

        return wrapv(raw)

    def assume(self, c):
        self.E.assume(c)

    def assume_feasible(self):
        if not self.E.feasible():
            raise PathInfeasible

    # objects
    def _matrix(self, name, nrows, ncols, dtype, P, W, iso="sym"):
        import graphblas as gb

        from . import shadow

        A = gb.Matrix(NP[dtype], nrows, ncols)
        o = shadow.h(A)
        o.set({k: (P[k], W[k]) for k in P})
        if iso is not None:
            self._iso(name, o, iso)
        return A

    def _iso(self, name, o, iso):
        vals = list(o.data.values())
        same = []
        for a in range(len(vals)):
            for b in range(a):
                same.append(
                    T.b_or(
                        T.b_not(T.b_and(vals[a][0], vals[b][0])), T.eq(vals[a][1], vals[b][1])
                    )
                )
        alleq = T.b_and(*same)
        if iso == "sym":
            if alleq is False:
                o.iso = False
                self.inputs[f"{name}.iso"] = False
                return
            b = T.z3.Bool(f"{name}.iso")
            self.inputs[f"{name}.iso"] = b
            if alleq is not True:
                self.E.assume(T.b_or(T.b_not(b), alleq))
            o.iso = b
        else:
            o.iso = bool(iso)
            self.inputs[f"{name}.iso"] = bool(iso)
            if iso:
                self.E.assume(alleq)

    def _vector(self, name, n, dtype, P, W):
        import graphblas as gb

        from . import shadow

        v = gb.Vector(NP[dtype], n)
        shadow.h(v).set({(i, 0): (P[i], W[i]) for i in P})
        return v

    def _clone_matrix(self, A):
        import graphblas as gb

        from . import shadow

        o = shadow.h(A)
        B = gb.Matrix(A.dtype, A.nrows, A.ncols)
        h = shadow.h(B)
        h.data = dict(o.data)
        h.iso = o.iso
        return B

    # outputs
    def vec(self, v):
        from . import shadow

        if type(v).__name__ != "Vector":
            v = v.new()
        return {k[0]: pv for k, pv in shadow.h(v).data.items()}

    def mat(self, M):
        from . import shadow

        if type(M).__name__ != "Matrix":
            M = M.new()
        return dict(shadow.h(M).data)

    def num(self, x):
        from .proxy import raw

        return raw(x)

    def snapshot(self, M):
        from . import shadow

        return dict(shadow.h(M).data)

    # obligations
    def check(self, cond, label):
        self.obl.append((cond, label))

    def check_close(self, a, b, label, tol=1e-9, given=True):
        if given is False:
            return
        if T.special(a) or T.special(b):
            ok = (
                T.is_const(a)
                and T.is_const(b)
                and (a == b or (a != a and b != b))
            )
            self.check(T.b_or(T.b_not(given), ok), label)
            return
        a, b = T.to_real(a), T.to_real(b)
        d = T.sub(a, b)
        ok = T.b_and(T.le(d, tol), T.le(-tol, d))
        self.check(T.b_or(T.b_not(given), ok), label)

    def fail(self, label):
        self.obl.append((False, label))


class RealCtx(Ctx):
    """replay of an assignment on the real, unpatched library"""

    exact = False

    def __init__(self, assignment):
        self.a = assignment
        self.failures = []
        self.nchecks = 0
        self.notes = []

    def _get(self, name, default):
        v = self.a.get(name)
        return default if v is None else lit(v)

    def bool(self, name):
        return bool(self._get(name, False))

    def int(self, name, lo=None, hi=None):
        d = 0
        if lo is not None and d < lo:
            d = lo
        if hi is not None and d > hi:
            d = hi
        return int(self._get(name, d))

    def real(self, name, lo=None, hi=None):
        d = 0.0
        if lo is not None and d < lo:
            d = lo
        if hi is not None and d > hi:
            d = hi
        return float(self._get(name, d))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[min(self.int(name, 0, len(options) - 1), len(options) - 1)]

    def decide(self, c):
        return bool(c)

    def value(self, raw):
        return raw

    def pyval(self, raw):
        return raw

    def assume(self, c):
        if not c:
            raise AssumptionFailed

    def assume_feasible(self):
        pass

    def _matrix(self, name, nrows, ncols, dtype, P, W, iso="sym"):
        import graphblas as gb
        import numpy as np

        ks = sorted(k for k in P if P[k])
        rows = [k[0] for k in ks]
        cols = [k[1] for k in ks]
        vals = [W[k] for k in ks]
        want = iso if isinstance(iso, bool) else bool(self._get(f"{name}.iso", False))
        if iso is None:
            A = gb.Matrix.from_coo(rows, cols, vals, dtype=NP[dtype], nrows=nrows, ncols=ncols)
        elif want:
            v = vals[0] if ks else 1
            A = gb.Matrix.from_coo(rows, cols, v, dtype=NP[dtype], nrows=nrows, ncols=ncols)
        else:
            A = gb.Matrix.ss.import_coo(
                np.array(rows, dtype=np.uint64),
                np.array(cols, dtype=np.uint64),
                np.array(vals, dtype=gb.dtypes.lookup_dtype(NP[dtype]).np_type),
                nrows=nrows,
                ncols=ncols,
                is_iso=False,
                dtype=NP[dtype],
            )
        return A

    def _vector(self, name, n, dtype, P, W):
        import graphblas as gb

        ks = sorted(k for k in P if P[k])
        return gb.Vector.from_coo(ks, [W[k] for k in ks], dtype=NP[dtype], size=n)

    def _clone_matrix(self, A):
        return A.dup()

    def vec(self, v):
        if type(v).__name__ != "Vector":
            v = v.new()
        i, x = v.to_coo()
        return {int(a): (True, b.item()) for a, b in zip(i, x, strict=True)}

    def mat(self, M):
        if type(M).__name__ != "Matrix":
            M = M.new()
        r, c, x = M.to_coo()
        return {(int(a), int(b)): (True, v.item()) for a, b, v in zip(r, c, x, strict=True)}

    snapshot = mat

    def num(self, x):
        if hasattr(x, "item"):
            return x.item()
        if type(x).__name__ == "Scalar":
            return self.num(x.value)
        if x is not None and not isinstance(x, (bool, int, float)):
            raise TypeError(f"not a number: {type(x)}")
        return x

    def check(self, cond, label):
        self.nchecks += 1
        if T.is_sym(cond):
            raise RuntimeError(f"symbolic condition in replay: {label}")
        if not cond:
            self.failures.append(label)

    def check_close(self, a, b, label, tol=1e-9, given=True):
        self.nchecks += 1
        if not given:
            return
        a, b = float(a), float(b)
        if a == b or (a != a and b != b):
            return
        if not abs(a - b) <= max(tol, 1e-7) * (1 + abs(b)):
            self.failures.append(f"{label}: {a} != {b}")

    def fail(self, label):
        self.nchecks += 1
        self.failures.append(label)


__all__ = ["AssumptionFailed", "Ctx", "GraphIn", "RealCtx", "SymCtx", "Unsupported", "labels"]
