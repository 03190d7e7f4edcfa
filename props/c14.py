"""Matrices of graphs: adjacency, Laplacians, modularity, Bethe Hessian."""

import itertools
import math

from symgb import terms as T

from .spec import Inst, count, given, opt

W = {"INT64": ("int", 0, 2), "FP64": ("real", 0, 2), "BOOL": ("bool",)}


def nodelists(n):
    """None and every ordered selection of nodes"""
    out = [None]
    for k in range(1, n + 1):
        out += [list(p) for p in itertools.permutations(range(n), k)]
    return out


def _nodes(ctx, g, n, lists):
    ids = ctx.choice("nodelist", nodelists(n) if lists is None else lists)
    if ids is None:
        return list(range(n)), None
    return list(ids), [g.K[i] for i in ids]


def _a(g, i, j, weighted):
    """entry of the adjacency matrix as a number (0: no edge)"""
    if (i, j) not in g.P:
        return 0
    return T.if_(g.p(i, j), T.to_num(g.w(i, j)) if weighted else 1, 0)


def _cmp(ctx, M, ids, want, label, shape=None):
    n = len(ids)
    ctx.check((M.nrows, M.ncols) == (n, n), "shape")
    got = ctx.mat(M)
    for a in range(n):
        for b in range(n):
            p, v = got.get((a, b), (False, None))
            v = 0.0 if p is False else T.if_(p, T.to_real(v), 0.0)
            ctx.check_close(v, T.to_real(want(a, b)), f"{label}[{a}, {b}]")


DEFAULT = {"weight": "weight", "dtype": None}


def adjacency(ctx, n, directed, weighted, dtype="INT64", to=None, lists=None):
    from graphblas_algorithms import nxapi

    g = ctx.graph("A", n, directed=directed, dtype=dtype, weight=W[dtype])
    ids, nodelist = _nodes(ctx, g, n, lists)
    M = nxapi.adjacency_matrix(
        g.G, *opt(nodelist), **given(DEFAULT, dtype=to, weight="weight" if weighted else None)
    )
    if to is not None:
        ctx.check(M.dtype == to, "dtype")
    ctx.check(M is not g.G._A, "a new matrix")
    got = ctx.mat(M)
    for a, i in enumerate(ids):
        for b, j in enumerate(ids):
            p, v = got.get((a, b), (False, None))
            ctx.check(T.b_iff(p, g.p(i, j)), f"adjacency: edge {a}, {b}")
            if p is False:
                continue
            w = T.to_num(g.w(i, j)) if weighted else 1
            if to is not None and weighted:
                w = {"bool": T.to_bool, "int64": T.to_int, "float64": T.to_real}[to](w)
            ctx.check(T.b_or(T.b_not(p), T.eq(T.to_num(v), T.to_num(w))), f"value {a}, {b}")


def laplacian(ctx, n, weighted, dtype="INT64", lists=None):
    from graphblas_algorithms import nxapi

    g = ctx.graph("A", n, dtype=dtype, weight=W[dtype])
    ids, nodelist = _nodes(ctx, g, n, lists)
    M = nxapi.laplacian_matrix(g.G, *opt(nodelist), **given(DEFAULT, weight="weight" if weighted else None))

    def want(a, b):
        r = T.neg(_a(g, ids[a], ids[b], weighted))
        if a == b:
            r = T.add(r, T.ssum([_a(g, ids[a], j, weighted) for j in ids]))
        return r

    _cmp(ctx, M, ids, want, "laplacian")


def normalized(ctx, n, weighted, dtype="INT64", lists=None):
    from graphblas_algorithms import nxapi

    w = W[dtype] if dtype != "FP64" else ("int", 0, 2)
    g = ctx.graph("A", n, dtype=dtype, weight=w)
    ids, nodelist = _nodes(ctx, g, n, lists)
    # the degrees are decided first: square roots of constants
    d = [ctx.value(T.ssum([_a(g, i, j, weighted) for j in ids])) for i in ids]
    M = nxapi.normalized_laplacian_matrix(g.G, *opt(nodelist), **given(DEFAULT, weight="weight" if weighted else None))

    def want(a, b):
        if d[a] == 0 or d[b] == 0:
            return 0.0
        r = T.mul(T.to_real(_a(g, ids[a], ids[b], weighted)), -1.0 / math.sqrt(d[a] * d[b]))
        return T.add(r, 1.0) if a == b else r

    _cmp(ctx, M, ids, want, "normalized laplacian")


def modularity(ctx, n, directed, weighted, dtype="INT64", lists=None):
    from graphblas_algorithms import nxapi

    w = ("int", 0, 1) if directed and weighted and dtype == "INT64" else W[dtype]
    g = ctx.graph("A", n, directed=directed, dtype=dtype, weight=w)
    ids, nodelist = _nodes(ctx, g, n, lists)
    R = range(len(ids))
    E = [[_a(g, i, j, weighted) for j in ids] for i in ids]
    kout = [ctx.value(T.ssum(E[a])) for a in R]
    kin = [ctx.value(T.ssum([E[b][a] for b in R])) for a in R] if directed else kout
    m = sum(kout)
    f = nxapi.directed_modularity_matrix if directed else nxapi.modularity_matrix
    if m == 0:
        return  # not defined
    M = f(g.G, *opt(nodelist), **given({"weight": None}, weight="weight" if weighted else None))
    _cmp(
        ctx,
        M,
        ids,
        lambda a, b: T.sub(T.to_real(E[a][b]), kout[a] * kin[b] / m),
        "modularity",
    )


def bethe(ctx, n, r, dtype="INT64", lists=None):
    from graphblas_algorithms import nxapi

    g = ctx.graph("A", n, dtype=dtype, weight=W[dtype], loops=r is not None)
    ids, nodelist = _nodes(ctx, g, n, lists)
    if r is None:
        deg = [ctx.value(count([g.p_off(i, j) for j in range(n)])) for i in range(n)]
        if sum(deg) == 0:
            return  # not defined
        q = sum(x * x for x in deg) / sum(deg) - 1
    else:
        q = r
    M = nxapi.bethe_hessian_matrix(g.G, **given({"r": None, "nodelist": None}, r=r, nodelist=nodelist))

    def want(a, b):
        v = T.mul(T.to_real(_a(g, ids[a], ids[b], True)), -float(q))
        if a == b:
            v = T.add(v, q * q - 1)
            v = T.add(v, T.to_real(T.ssum([_a(g, ids[a], j, True) for j in ids])))
        return v

    _cmp(ctx, M, ids, want, "bethe hessian")


BOUNDS = (
    "every undirected graph on 3 (thorough 4) and directed graph on 3 nodes, self-edges included, "
    "stored weights 0..2 (0..1 for directed modularity; bool, int, float), permuted labels, every "
    "ordered selection of nodes (or none); Bethe Hessian for r in {none, 1/2, 2, -1}, the default r on 3 nodes"
)
OUTSIDE = (
    "negative weights, the modularity of graphs of total weight 0, the default regularizer for "
    "graphs with self-edges, node lists with duplicates"
)


def instances(tier):
    q = tier == "quick"
    out = []
    for dt in ("INT64", "FP64", "BOOL"):
        for w in (False, True):
            for d in (False, True):
                out.append(Inst("adjacency", n=3, directed=d, weighted=w, dtype=dt))
            out.append(Inst("laplacian", n=3, weighted=w, dtype=dt))
            for to in ("bool", "int64", "float64"):
                if (dt, to) != ("FP64", "int64"):
                    out.append(Inst("adjacency", n=3, directed=True, weighted=w, dtype=dt, to=to))
    short = [None, [2], [0, 2], [2, 0], [1, 2, 0], [2, 1]]
    for dt in ("INT64", "BOOL"):
        for w in (False, True):
            out.append(Inst("normalized", n=3, weighted=w, dtype=dt, lists=short))
            for d in (False, True):
                for ls in [[x] for x in short] if d and w and dt == "INT64" else [short]:
                    out.append(
                        Inst("modularity", n=3, directed=d, weighted=w, dtype=dt, lists=ls)
                    )
    for dt in ("INT64", "FP64", "BOOL"):
        for r in (None, 0.5, 2.0, -1.0):
            out.append(Inst("bethe", n=3, r=r, dtype=dt))
    out.append(Inst("normalized", n=4, weighted=False, lists=[None]))
    out.append(Inst("bethe", n=4, r=2.0, lists=[None, [3, 1], [2, 3, 0, 1]]))
    out.append(Inst("modularity", n=4, directed=False, weighted=False, lists=[None, [3, 1]]))
    for shape in ("wheel+", "hubs", "lasso+"):
        n = 5 if q else 6
        lists = [None, [3, 1], [4, 0, 2, 3]]
        for w in (False, True):
            out.append(Inst("laplacian", n=n, weighted=w, dtype="INT64", lists=lists if q else None, shape=shape))
            out.append(Inst("adjacency", n=n, directed=True, weighted=w, dtype="FP64", shape=shape, lists=lists))
        out.append(Inst("bethe", n=n, r=0.5, lists=lists, shape=shape))
        out.append(Inst("modularity", n=4, directed=True, weighted=False, lists=[None, [3, 1, 2]], shape=shape))
        out.append(Inst("normalized", n=4, weighted=False, lists=[None, [1, 3, 0]], shape=shape))
    m = 132 if q else 264
    for w in (False, True):
        out.append(Inst("adjacency", n=m, directed=True, weighted=w, dtype="INT64", shape="Star", lists=[None, [1, 0]]))
        out.append(Inst("laplacian", n=m, weighted=w, dtype="INT64" if w else "BOOL", lists=[None, [*range(m - 2), m - 1]], shape="Star"))
    if not q:
        for w in (False, True):
            out.append(Inst("laplacian", n=4, weighted=w, dtype="INT64"))
            out.append(Inst("adjacency", n=4, directed=True, weighted=w, dtype="FP64"))
            out.append(Inst("normalized", n=3, weighted=w, dtype="INT64"))
            out.append(Inst("modularity", n=3, directed=False, weighted=w))
            out.append(Inst("modularity", n=3, directed=True, weighted=w))
        out.append(Inst("normalized", n=4, weighted=False, shards=3))
        out.append(Inst("bethe", n=4, r=-0.5))
    return out
