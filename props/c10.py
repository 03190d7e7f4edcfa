"""Square clustering and generalized degree."""

import itertools

from symgb import terms as T

from .c09 import _graph, _pick, degree
from .spec import Inst, adj, count, given, opt


def square(A, v):
    """Lind et al. (2005): squares through v / possible squares (graphs without self-edges)"""
    n = len(A)
    R = [i for i in range(n) if i != v]
    deg = [degree(A, i) for i in range(n)]
    squares, potential = 0, 0
    for u, w in itertools.combinations(R, 2):
        on = T.b_and(A[v][u], A[v][w])
        if on is False:
            continue
        q = count([T.b_and(A[u][x], A[w][x]) for x in range(n) if x not in (u, v, w)])
        squares = T.add(squares, T.if_(on, q, 0))
        # (k_u - (1 + q + theta)) + (k_w - (1 + q + theta)) + q
        degm = T.add(T.add(q, 1), T.to_int(A[u][w]))
        pot = T.add(T.sub(T.add(deg[u], deg[w]), T.mul(degm, 2)), q)
        potential = T.add(potential, T.if_(on, pot, 0))
    return squares, potential


def sq(A, v, bound):
    s, p = square(A, v)
    r = 0.0
    if len(A) > 50:
        return T.if_(T.eq(p, 0), 0.0, T.div_real(T.to_real(s), T.to_real(T.max_(p, 1))))
    for d in range(1, bound + 1):
        r = T.if_(T.eq(p, d), T.div_real(T.to_real(s), float(d)), r)
    return T.if_(T.eq(s, 0), 0.0, r)


def squares(ctx, n, dtype, nodes, chunk="256 MiB", keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, False, dtype, keys=keys, loops=False)
    A = adj(g)
    bound = (n - 1) * (n - 2) // 2 * (2 * n)
    if isinstance(nodes, int):
        rv = nxapi.square_clustering(g.G, g.K[nodes], chunksize=chunk)
        ctx.check_close(ctx.num(rv), sq(A, nodes, bound), "square clustering of one node")
        return
    ids = range(n) if nodes is None else nodes
    rv = nxapi.square_clustering(
        g.G, *opt(None if nodes is None else _pick(ctx, g, nodes)), **given({"chunksize": "256 MiB"}, chunksize=chunk)
    )
    ctx.check_map(
        ctx.as_map(rv), {g.K[i]: (True, sq(A, i, bound)) for i in ids}, "square clustering", 1e-9
    )


def generalized(ctx, n, dtype, nodes, keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, False, dtype, keys=keys)
    A = adj(g)

    def want(v):
        """{k: number of edges of v in exactly k triangles}, zero counts absent"""
        tri = {
            u: count([T.b_and(A[v][x], A[u][x]) for x in range(n) if x not in (u, v)])
            for u in range(n)
            if u != v
        }
        out = {}
        for k in range(n - 1):
            c = count([T.b_and(A[v][u], T.eq(t, k)) for u, t in tri.items()])
            out[k] = (T.lt(0, c), c)
        return out

    def cmp(got, v, label):
        ctx.check_map(got, want(v), label)

    if isinstance(nodes, int):
        rv = nxapi.generalized_degree(g.G, g.K[nodes])
        # the keys of the result are triangle counts
        cmp({int(k): (True, ctx.num(v)) for k, v in rv.items()}, nodes, "generalized degree of one node")
        return
    ids = range(n) if nodes is None else nodes
    rv = nxapi.generalized_degree(g.G, *opt(None if nodes is None else _pick(ctx, g, nodes)))
    M = ctx.mat(rv.matrix)
    kid = rv._key_to_id
    for i in range(n):
        row = {k: M.get((kid[g.K[i]], k), (False, None)) for k in range(n - 1)}
        if i in ids:
            cmp(row, i, f"generalized degree[{g.K[i]}]")
        else:
            for k, (p, _) in row.items():
                ctx.check(T.b_not(p), f"generalized degree of a node that was not asked for [{k}]")


BOUNDS = (
    "every undirected graph on 3-4 nodes (5 for square clustering, thorough more node subsets), "
    "self-edges for generalized degree, bool/int/float matrices with arbitrary stored values; all "
    "nodes, one node, subsets; chunk sizes None, 1, 2, 3 and byte strings"
)
OUTSIDE = "larger graphs; square clustering of graphs with self-edges (not defined)"


def instances(tier):
    q = tier == "quick"
    out = []
    for dt in ("INT64", "BOOL"):
        for nodes in (None, 0, 3, [1], [3, 0], [2, 1, 3]):
            out.append(Inst("squares", n=4, dtype=dt, nodes=nodes))
    for ch in (None, 1, 2, 3, "2 chunks", "16 b"):
        out.append(Inst("squares", n=4, dtype="INT64", nodes=None, chunk=ch))
        out.append(Inst("squares", n=4, dtype="INT64", nodes=[3, 1, 0], chunk=ch))
    out.append(Inst("squares", n=5, dtype="BOOL", nodes=None, shards=5))
    out.append(Inst("squares", n=5, dtype="BOOL", nodes=2, shards=4))
    for dt in ("INT64", "BOOL"):
        for nodes in (None, 0, [2], [3, 1], []):
            out.append(Inst("generalized", n=4, dtype=dt, nodes=nodes, shards=3))
    for n in (1, 2, 3):
        for nodes in (None, 0, [n - 1], []):
            out.append(Inst("generalized", n=n, dtype="INT64", nodes=nodes))
            for ch in ("256 MiB", 1) if isinstance(nodes, list) or nodes is None else ("256 MiB",):
                out.append(Inst("squares", n=n, dtype="INT64", nodes=nodes, chunk=ch))
    for shape in ("grid", "hubs", "wheel"):
        n = 6 if q or shape != "grid" else 7
        for nodes in (1, [n - 1, 1]) if q and shape == "wheel" else (None, 1, [n - 1, 1]):
            out.append(Inst("squares", n=n, dtype="BOOL", nodes=nodes, shape=shape, chunk="256 MiB" if nodes is None else 2, shards=2))
    for nodes in (0, [3, 1]):
        out.append(Inst("generalized", n=132, dtype="INT64", nodes=nodes, shape="Book"))
        out.append(Inst("squares", n=190, dtype="BOOL", nodes=nodes, shape="Pair"))
    for shape in ("wheel~", "cliques", "ladder+"):
        for nodes in (2,) if q and shape != "cliques" else (None, 2):
            out.append(Inst("generalized", n=6 if q else 7, dtype="BOOL", nodes=nodes, shape=shape, shards=2))
    if not q:
        for nodes in ([4, 1], [0, 2, 3]):
            for ch in (None, 2, 1):
                out.append(Inst("squares", n=5, dtype="INT64", nodes=nodes, chunk=ch, shards=5))
        for v in range(5):
            out.append(Inst("squares", n=5, dtype="INT64", nodes=v, shards=4))
            out.append(Inst("generalized", n=5, dtype="BOOL", nodes=v, shards=6))
        out.append(Inst("generalized", n=5, dtype="INT64", nodes=None, shards=8))
    return out
