"""Triangles, transitivity and clustering coefficients."""

import itertools

from symgb import terms as T

from .spec import Inst, adj, count, given, opt


def _graph(ctx, n, directed, dtype="INT64", weight=None, **kw):
    w = weight or {"INT64": ("int", 0, 1), "BOOL": ("bool",), "FP64": ("real", -1, 1)}[dtype]
    return ctx.graph("A", n, directed=directed, dtype=dtype, weight=w, **kw)


def tri_count(A, v):
    n = len(A)
    others = [i for i in range(n) if i != v and A[v][i] is not False]
    return count(
        [
            T.b_and(A[v][i], A[v][j], A[i][j])
            for i, j in itertools.combinations(others, 2)
            if A[i][j] is not False
        ]
    )


def degree(A, v):
    return count([A[v][j] for j in range(len(A)) if j != v])


def _pick(ctx, g, nodes):
    """list of keys (concrete) for a node subset given as ids"""
    return [g.K[i] for i in nodes]


def triangles(ctx, n, dtype, nodes, keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, False, dtype, keys=keys)
    A = adj(g)
    if isinstance(nodes, int):
        rv = nxapi.triangles(g.G, g.K[nodes])
        ctx.check(T.eq(ctx.num(rv), tri_count(A, nodes)), "triangles of one node")
        return
    ids = range(n) if nodes is None else nodes
    rv = nxapi.triangles(g.G, *opt(None if nodes is None else _pick(ctx, g, nodes)))
    ctx.check_map(ctx.as_map(rv), {g.K[i]: (True, tri_count(A, i)) for i in ids}, "triangles")


def total(ctx, n, dtype):
    from graphblas_algorithms import algorithms

    g = _graph(ctx, n, False, dtype)
    A = adj(g)
    want = count(
        [
            T.b_and(A[i][j], A[j][k], A[i][k])
            for i, j in itertools.combinations(range(n), 2)
            if A[i][j] is not False
            for k in range(j + 1, n)
        ]
    )
    ctx.check(T.eq(ctx.num(algorithms.total_triangles(g.G)), want), "total triangles")


def _div(num, den):
    """num / den where 0 / anything = 0"""
    if T.is_const(num) and num == 0:
        return 0.0
    num = T.to_real(num)
    r = 0.0
    s = T.sup(den) or range(0, 61)
    for d in s:
        if d:
            r = T.if_(T.eq(den, d), T.div_real(num, float(d)), r)
    return T.if_(T.eq(num, 0.0), 0.0, r)


def transitivity(ctx, n, directed, dtype, loops=True):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, directed, dtype, loops=loops)
    A = adj(g)
    # closed and open (ordered) two-paths from every node
    R = range(n)
    closed = count(
        [T.b_and(A[i][j], A[i][k], A[j][k]) for i in R for j in R for k in R if i != j != k != i]
    )
    openp = count([T.b_and(A[i][j], A[i][k]) for i in R for j in R for k in R if i != j != k != i])
    rv = nxapi.transitivity(g.G)
    ctx.check_close(ctx.num(rv), _div(closed, openp), "transitivity")


def cc_undirected(A, v):
    d = degree(A, v)
    dd = T.mul(d, T.sub(d, 1))
    return _div(T.mul(tri_count(A, v), 2), dd)


def cc_directed(A, v):
    n = len(A)
    R = [i for i in range(n) if i != v]

    def s(i, j):
        return T.add(T.to_int(A[i][j]), T.to_int(A[j][i]))

    tri = 0
    for j, k in itertools.combinations(R, 2):
        tri = T.add(tri, T.mul(T.mul(s(v, j), s(j, k)), s(k, v)))
    dt = T.ssum([s(v, j) for j in R])
    db = count([T.b_and(A[v][j], A[j][v]) for j in R])
    den = T.sub(T.mul(dt, T.sub(dt, 1)), T.mul(db, 2))
    return _div(tri, den)


def clustering(ctx, n, directed, dtype, nodes, keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, directed, dtype, keys=keys)
    A = adj(g)
    cc = cc_directed if directed else cc_undirected
    if isinstance(nodes, int):
        rv = nxapi.clustering(g.G, g.K[nodes])
        ctx.check_close(ctx.num(rv), cc(A, nodes), "clustering of one node")
        return
    ids = range(n) if nodes is None else nodes
    rv = nxapi.clustering(g.G, *opt(None if nodes is None else _pick(ctx, g, nodes)))
    ctx.check_map(ctx.as_map(rv), {g.K[i]: (True, cc(A, i)) for i in ids}, "clustering", 1e-9)


def average(ctx, n, directed, nodes, count_zeros, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, directed, dtype)
    A = adj(g)
    cc = cc_directed if directed else cc_undirected
    ids = range(n) if nodes is None else nodes
    c = [cc(A, i) for i in ids]
    tot = T.ssum(c, 0.0)
    kw = {} if nodes is None else {"nodes": _pick(ctx, g, nodes)}
    try:
        rv = nxapi.average_clustering(g.G, **given({"count_zeros": True}, count_zeros=count_zeros), **kw)
    except ZeroDivisionError:
        ctx.check(
            False if count_zeros else T.b_and(*[T.eq(x, 0.0) for x in c]), "ZeroDivisionError"
        )
        return
    if count_zeros:
        ctx.check_close(ctx.num(rv), T.div_real(tot, float(len(c))), "average clustering")
    else:
        nz = count([T.b_not(T.eq(x, 0.0)) for x in c])
        ctx.check_close(ctx.num(rv), _div(tot, nz), "average of the non-zero coefficients")


CB = {1: 1.0, 8: 2.0}


def _cbrt(w):
    r = 2.0
    return T.if_(T.eq(w, 1), 1.0, r)


def wclustering(ctx, n, directed, nodes, mode="map"):
    """weights are 1 or 8: exact cube roots"""
    from graphblas_algorithms import nxapi

    w = {}
    # self-edges have the weight 1 or 64: they must not matter, also not for the normalization
    g = ctx.graph(
        "A", n, directed=directed, dtype="INT64", weight=("w18",), keys="perm", loops=True
    )
    A = adj(g)
    W = [[_cbrt(g.w(i, j)) for j in range(n)] for i in range(n)]
    mx = 1.0
    for i in range(n):
        for j in range(n):
            if i != j:
                mx = T.if_(T.b_and(A[i][j], T.eq(W[i][j], 2.0)), 2.0, mx)

    def e(i, j):
        return T.if_(A[i][j], T.if_(T.eq(W[i][j], mx), 1.0, 0.5), 0.0)

    def s(i, j):
        return T.add(e(i, j), e(j, i)) if directed else e(i, j)

    def cc(v):
        R = [i for i in range(n) if i != v]
        tri = 0.0
        for j, k in itertools.combinations(R, 2):
            tri = T.add(tri, T.mul(T.mul(s(v, j), s(j, k)), s(k, v)))
        if directed:
            dt = T.add(count([A[v][j] for j in R]), count([A[j][v] for j in R]))
            db = count([T.b_and(A[v][j], A[j][v]) for j in R])
            den = T.sub(T.mul(dt, T.sub(dt, 1)), T.mul(db, 2))
            return _div(tri, den)
        d = degree(A, v)
        return _div(T.mul(tri, 2.0), T.mul(d, T.sub(d, 1)))

    if isinstance(nodes, int):
        rv = nxapi.clustering(g.G, g.K[nodes], weight="weight")
        ctx.check_close(ctx.num(rv), cc(nodes), "weighted clustering of one node")
        return
    ids = range(n) if nodes is None else nodes
    ks = None if nodes is None else _pick(ctx, g, nodes)
    if mode == "average":
        rv = nxapi.average_clustering(g.G, *opt(ks), weight="weight")
        want = T.div_real(T.ssum([cc(i) for i in ids], 0.0), float(len(list(ids))))
        ctx.check_close(ctx.num(rv), want, "weighted average clustering")
        return
    rv = nxapi.clustering(g.G, *opt(ks), weight="weight")
    ctx.check_map(
        ctx.as_map(rv), {g.K[i]: (True, cc(i)) for i in ids}, "weighted clustering", 1e-9
    )


BOUNDS = (
    "triangles, totals, transitivity: every undirected graph on 3-5 nodes (thorough 6), directed "
    "on 3-4, self-edges included, permuted and string labels, bool/int/float matrices with "
    "arbitrary stored values (zeros included); clustering and averages: undirected up to 5, "
    "directed up to 4 nodes, all nodes / one node / subsets; weighted: weights in {1, 8}, "
    "undirected on 3-4 and directed on 3 nodes"
)
OUTSIDE = "larger graphs, other weights, nan weights"


def instances(tier):
    q = tier == "quick"
    out = []
    for dt in ("INT64", "BOOL", "FP64"):
        for nodes in (None, 0, 2, [1], [3, 0]):
            out.append(Inst("triangles", n=4, dtype=dt, nodes=nodes))
    out.append(Inst("triangles", n=5, dtype="INT64", nodes=None, shards=4))
    out.append(Inst("triangles", n=5, dtype="INT64", nodes=[4, 1], shards=4))
    out.append(Inst("triangles", n=5, dtype="INT64", nodes=1, keys="str", shards=4))
    out.append(Inst("total", n=5, dtype="INT64", shards=4))
    out.append(Inst("total", n=4, dtype="BOOL"))
    for dt in ("INT64", "BOOL"):
        out.append(Inst("transitivity", n=4, directed=False, dtype=dt))
        out.append(Inst("transitivity", n=3, directed=True, dtype=dt))
    out.append(Inst("transitivity", n=5, directed=False, dtype="INT64", loops=False, shards=4))
    for nodes in (None, 0, [2, 1], [3]):
        out.append(Inst("clustering", n=4, directed=False, dtype="INT64", nodes=nodes, shards=3))
    for nodes in (None, 0, 1, 2, [2, 0]):
        out.append(Inst("clustering", n=3, directed=True, dtype="INT64", nodes=nodes))
    out.append(Inst("clustering", n=3, directed=True, dtype="BOOL", nodes=None))
    for cz in (True, False):
        for nodes in (None, [1, 3], [2]):
            out.append(
                Inst("average", n=4, directed=False, nodes=nodes, count_zeros=cz, shards=3)
            )
        for nodes in (None, [1, 2]):
            out.append(Inst("average", n=3, directed=True, nodes=nodes, count_zeros=cz))
    for nodes in (None, 1, [2, 0]):
        out.append(Inst("wclustering", n=3, directed=False, nodes=nodes))
        out.append(Inst("wclustering", n=3, directed=True, nodes=nodes, shards=3))
    out.append(Inst("wclustering", n=3, directed=False, nodes=None, mode="average"))
    out.append(Inst("wclustering", n=3, directed=False, nodes=[1], mode="average"))
    for shape in ("wheel+", "cliques", "ladder+"):
        n = 6 if q else 7
        for nodes in (None, 0, [4, 2]):
            out.append(Inst("triangles", n=n, dtype="BOOL", nodes=nodes, shape=shape, shards=2))
            out.append(Inst("clustering", n=n, directed=False, dtype="BOOL", nodes=nodes, shape=shape, shards=2))
        out.append(Inst("total", n=n, dtype="INT64", shape=shape, shards=2))
        out.append(Inst("transitivity", n=n, directed=False, dtype="BOOL", shape=shape, shards=2))
        out.append(Inst("average", n=n, directed=False, nodes=None, count_zeros=False, shape=shape, shards=2))
    for shape in ("lasso", "ladder", "back"):
        for nodes in (None, 2, [3, 2]):
            out.append(Inst("clustering", n=4 if q else 5, directed=True, dtype="INT64", nodes=nodes, shape=shape, shards=2))
        out.append(Inst("transitivity", n=4 if q else 5, directed=True, dtype="BOOL", shape=shape, shards=2))
    for nodes in (None, 0, [3, 0]):
        out.append(Inst("triangles", n=132, dtype="INT64", nodes=nodes, shape="Book"))
        out.append(Inst("clustering", n=132, directed=False, dtype="BOOL", nodes=nodes, shape="Book"))
    out.append(Inst("total", n=132, dtype="BOOL", shape="Book"))
    out.append(Inst("clustering", n=132, directed=True, dtype="INT64", nodes=0, shape="Star"))
    if not q:
        out.append(Inst("triangles", n=6, dtype="BOOL", nodes=None, shards=8))
        out.append(Inst("total", n=6, dtype="BOOL", shards=8))
        out.append(Inst("clustering", n=5, directed=False, dtype="INT64", nodes=None, shards=6))
        out.append(Inst("clustering", n=4, directed=True, dtype="INT64", nodes=None, shards=8))
        for v in range(4):
            out.append(Inst("clustering", n=4, directed=True, dtype="INT64", nodes=v, shards=8))
        out.append(Inst("transitivity", n=4, directed=True, dtype="INT64", shards=8))
        out.append(Inst("wclustering", n=4, directed=False, nodes=None, shards=6))
        out.append(Inst("wclustering", n=4, directed=False, nodes=2, shards=6))
    return out
