"""k-truss."""

import itertools

from symgb import terms as T

from .c09 import _graph
from .spec import Inst, adj, count


def ktruss_edges(A, k):
    """the largest subgraph in which every edge is in at least k-2 triangles"""
    n = len(A)
    E = [row[:] for row in A]
    if k < 3:
        return E
    for _ in range(n * (n - 1) // 2):
        N = [[False] * n for _ in range(n)]
        for i, j in itertools.combinations(range(n), 2):
            if E[i][j] is False:
                continue
            sup = count([T.b_and(E[i][x], E[j][x]) for x in range(n) if x not in (i, j)])
            N[i][j] = N[j][i] = T.b_and(E[i][j], T.le(k - 2, sup))
        if all(
            (a is b) or (T.is_sym(a) and T.is_sym(b) and a.eq(b))
            for ra, rb in zip(E, N, strict=True)
            for a, b in zip(ra, rb, strict=True)
        ):
            break
        E = N
    return E


def ktruss(ctx, n, dtype, loops=False, keys="perm", ks=None):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, False, dtype, keys=keys, loops=loops)
    A = adj(g)
    k = ctx.choice("k", ks or list(range(n + 2)))
    H = nxapi.k_truss(g.G, k)
    E = ktruss_edges(A, k)
    got = ctx.mat(H._A)
    kid = H._key_to_id
    ctx.check(sorted(kid.values()) == list(range(len(H))) , "ids of the result are 0..n-1")
    ctx.check(len(kid) == len(H) and set(kid) <= set(g.K), "nodes of the result")
    ctx.check(not H.is_directed(), "result is undirected")
    for i in range(n):
        has = T.b_or(*[E[i][j] for j in range(n) if j != i])
        ctx.check(T.b_iff(g.K[i] in kid, has), f"node {g.K[i]} in the truss")
        for j in range(n):
            a, b = kid.get(g.K[i]), kid.get(g.K[j])
            p = False if a is None or b is None else got.get((a, b), (False, None))[0]
            ctx.check(T.b_iff(p, E[i][j]), f"edge {g.K[i]}-{g.K[j]}")


BOUNDS = (
    "every undirected graph on 3-4 nodes, 5 nodes for k = 3..5 (thorough all k and self-edges), "
    "bool/int/float matrices with arbitrary stored values, permuted and string labels, "
    "k = 0..n+1; self-edges are ignored"
)
OUTSIDE = "larger graphs"


def instances(tier):
    q = tier == "quick"
    out = []
    for dt in ("INT64", "BOOL", "FP64"):
        out.append(Inst("ktruss", n=4, dtype=dt, shards=2))
        out.append(Inst("ktruss", n=3, dtype=dt, loops=True))
    out.append(Inst("ktruss", n=4, dtype="BOOL", keys="str", loops=True, shards=4))
    for k in (3, 4, 5):
        out.append(Inst("ktruss", n=5, dtype="BOOL", ks=[k], shards=6))
    for shape in ("ladder", "wheel~", "cliques"):
        for k in (3, 4) if q else (3, 4, 5):
            out.append(Inst("ktruss", n=6, dtype="BOOL", ks=[k], shape=shape, shards=2))
            if not q or (shape == "ladder" and k == 3):
                out.append(Inst("ktruss", n=7, dtype="INT64", ks=[k], shape=shape, shards=6))
    out.append(Inst("ktruss", n=132, dtype="INT64", ks=[3], shape="Book"))
    out.append(Inst("ktruss", n=132 if q else 260, dtype="BOOL", ks=[3 if q else 4], shape="Book"))
    if not q:
        out.append(Inst("ktruss", n=5, dtype="INT64", shards=7))
    return out
